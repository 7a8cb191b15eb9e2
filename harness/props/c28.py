"""C28: classification helpers agree with the written statement."""
import bb
from core import CONSTANTS, Campaign, new_stash, same, st

ID = 'C28'
TECHNIQUE = 'property-based testing: grammar-generated variables and functions, helper answers recomputed from the written pieces'
RULE = ('Files of variables and functions with zero to three overrides in both syntaxes, in recipes, classes, appends and includes, with distros configured; non-trivial if an item has an override or an '
        'appending operator.')
ASSUMPTIONS = []

EXTRA = ['mydistro', 'qemuall', 'arm']
stmt = st.one_of(bb.var_stmt(), bb.var_stmt(), bb.func_stmt())
case = st.fixed_dictionaries({'doc': bb.document(stmt, 1, 5), 'new': st.booleans(), 'distros': st.lists(st.sampled_from(EXTRA + ['x', 'class-target', 'a']), max_size=3, unique=True),
                              'name': st.sampled_from(['a_1.0.bb', 'a.inc', 'k.bbclass', 'a_%.bbappend', 'x.bbclass.inc', 'bbappend.bb', 'l.conf', 'x.bbappend.d/a_1.0.bb', 'k.bbclass/a.inc', 'a.bbappend/k.bbclass', 'bbappend/a_%.bbappend', 'a_1.bbclass.bbappend'])})
CLS = ['class-native', 'class-nativesdk', 'class-cross', 'class-target']


def first(seq):
    for x in seq:
        return x
    return ''


def check(case, ctx):
    CONSTANTS.AddConstants({'replacements': {'distros': case['distros']}})
    known = ['nodistro', 'poky-altcfg', 'poky-bleeding', 'poky-tiny', 'poky'] + case['distros']
    path = ctx.write(case['name'], bb.text_of(case['doc']))
    items = new_stash(new_style_override_syntax=case['new']).AddFile(path)
    want = bb.expected_items(case['doc'], case['new'])
    same('number of items', len(items), len(want))
    for x, s, (exp, _, text) in zip(items, case['doc'], want):
        subs = exp['attrs']['SubItems']
        w = ' of %r' % text
        same('IsFromClass' + w, x.IsFromClass, case['name'].endswith('.bbclass'))
        same('IsFromAppend' + w, x.IsFromAppend(), case['name'].endswith('.bbappend'))
        same('GetDistroEntry' + w, x.GetDistroEntry(), first(y for y in subs if y in known))
        same('GetMachineEntry' + w, x.GetMachineEntry(), first(y for y in subs if y not in ['append', 'prepend', 'remove', 'machine'] + CLS))
        if s['k'] == 'var':
            op = s['pre'] + s['op'] + s['post']
            appending = s['op'] in ('+=', '=+', '.=', '=.')
            same('IsAppend' + w, x.IsAppend(), appending or 'append' in subs or 'prepend' in subs)
            same('AppendOperation' + w, x.AppendOperation(), ([op] if appending else []) + [m for m in ('append', 'prepend', 'remove') if m in subs])
            same('IsImmediateModify' + w, x.IsImmediateModify(), not set(subs) & set(bb.MODIFIERS))
            same('IsMultiLine' + w, x.IsMultiLine(), len(s['v']['lines']) > 1)
            same('GetClassOverride' + w, x.GetClassOverride(), first(y for y in subs if y in CLS))
            ctx.nt(bool(subs) or appending)
        else:
            same('IsAppend' + w, x.IsAppend(), 'append' in subs or 'prepend' in subs)
            ctx.nt(bool(subs))
        for y in subs:
            ctx.label(y)


CAMPAIGNS = [Campaign('documents', case, check, 12000, 100000)]
