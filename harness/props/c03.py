"""C03: variable and flag assignments are reported exactly."""
import bb
from common import compare_item
from core import Campaign, ensure, new_stash, same, st

ID = 'C03'
TECHNIQUE = 'property-based testing: grammar-generated assignments rendered to text, oracle = the pieces the text was built from'
NOTE = 'Names, override syntax, operators, spacing, quoting and continuations are drawn independently; expected reports never consult the parser.'
RULE = ('Files of one to ten statements, mostly variable and flag assignments, in both override syntaxes; non-trivial if an assignment has an override, a flag, '
        'several value lines, or an operator other than "=".')
ASSUMPTIONS = ['old style base names use upper case chunks (otherwise the old syntax is ambiguous)', 'value entries hold no own quote character and no inline block',
               'a line continuation is next to white space or the opening quote, inside of the quotes']

doc = bb.document(st.one_of(bb.var_stmt(), bb.var_stmt(), bb.var_stmt(), bb.flag_stmt(), bb.flag_stmt(), bb.any_stmt()), lo=1, hi=10)
case = st.fixed_dictionaries({'doc': doc, 'new': st.booleans(), 'name': st.sampled_from(['a_1.0.bb', 'a.inc', 'k.bbclass', 'l.conf', 'a.bbappend']), 'eof': st.booleans()})


def check(case, ctx):
    doc = case['doc']
    path = ctx.write(case['name'], bb.text_of(doc, case['eof']))
    stash = new_stash(new_style_override_syntax=case['new'])
    stash.AddFile(path)
    stash.Finalize()
    items = stash.GetItemsFor(filename=path)
    got = [x for x in items if x.CLASSIFIER in ('Variable', 'FlagAssignment')]
    want = bb.expected_items(doc, case['new'])
    picked = [w for s, w in zip(doc, want) if s['k'] in ('var', 'flag')]
    for x, (exp, line, text) in zip(got, picked):
        compare_item(x, exp, line, None)
        if exp['kind'] == 'Variable' and exp['attrs']['VarOp'] == ' %s ' % exp['attrs']['VarOp'].strip():
            ensure(x.VarOp in x.VAR_VALID_OPERATOR, 'operator with a blank on both sides is not listed as valid', x.VarOp)
    same('number of assignments', [x.RealRaw for x in got], [t if (case['eof'] or w is not want[-1]) else t[:-1] for w in picked for t in [w[2]]])
    for s in doc:
        if s['k'] in ('var', 'flag'):
            ctx.label(s['op'])
            ctx.label('%s value lines' % min(3, len(s['v']['lines'])))
            ctx.nt(s['op'] != '=' or len(s['v']['lines']) > 1 or s['k'] == 'flag' or s['subs'])
            if s['k'] == 'var':
                ctx.label('overrides %d%s' % (len(s['subs']), s['style']))
            else:
                ctx.label('flag')


# entries carrying a version are reduced to their names on request
ventry = st.tuples(st.sampled_from(['foo', 'bar-dev', '${PN}', 'x', 'libx1']), st.sampled_from(['', '', ' (>= 1.0)', ' (= ${EXTENDPKGV})', '(>1)', '  (<< 2.0-r1)']))


def check_versioned(case, ctx):
    seps = case['seps']
    text = ''
    for i, (n, v) in enumerate(case['entries']):
        text += n + v + seps[i % len(seps)]
    path = ctx.write('v_1.0.bb', 'RDEPENDS_${PN} %s "%s"\n' % (case['op'], text))
    stash = new_stash()
    item = stash.AddFile(path)[0]
    same('entries without versions', item.get_items(versioned=True), [n for n, _ in case['entries']])
    # a text handed in, with quotes or without, is split like the value
    for given in (text.replace('\\\n', ' '), '"%s"' % text.replace('\\\n', '\t'), '"%s' % case['over'], case['over'] + '"'):
        plain = given.strip('"')
        if plain:
            same('entries of %r' % given, item.get_items(override=given), plain.split())
            if plain != case['over']:
                same('entries of %r without versions' % given, item.get_items(given, versioned=True), [n for n, _ in case['entries']])
        else:
            same('entries of the value', item.get_items(override=given), item.get_items())
    ensure(stash.GetItemsFor(attribute='VarName', attributeValue='RDEPENDS')[0] is item, 'not found by name')
    ctx.nt(any(v for _, v in case['entries']))


versioned = st.fixed_dictionaries({'entries': st.lists(ventry, max_size=5), 'op': st.sampled_from(bb.OPS), 'over': st.sampled_from(['', '', 'x', ' a  b ', '${PN}-x\tb']), 'seps': st.lists(st.sampled_from([' ', '  ', '\t', ' \\\n', ' \\\n  ', ' \\\n\t']), min_size=1, max_size=3)})

CAMPAIGNS = [Campaign('documents', case, check, 8000, 150000), Campaign('versioned', versioned, check_versioned, 800, 8000)]
