"""C07: override syntax detection is per file and sticky."""
import bb
from core import Campaign, ensure, new_stash, same, st

ID = 'C07'
TECHNIQUE = 'property-based testing against a reference model of the per-file syntax state'
RULE = ('One to four files of statements in both override syntaxes, loaded in one stash (one of them possibly through an include), with or without the new syntax forced; non-trivial if some file '
        'uses the new syntax after statements before it, or if a file without it is loaded after one with it.')
ASSUMPTIONS = ['only variable and function names count as names using the override delimiter (flag, unset and export names hold none)']

NONAME = bb.flag_stmt(names=st.sampled_from(['A', 'do_compile', 'SRC_URI', 'X_y']))
simple = bb.simple_stmt(kinds=['inherit', 'include', 'export', 'deltask', 'exportfunc', 'addpylib'])
stmt = st.one_of(bb.var_stmt(('_',)), bb.var_stmt(('_',)), bb.var_stmt(('_', ':')), bb.func_stmt(('_',)), bb.func_stmt(('_', ':')), NONAME, simple, bb.comment_stmt(), bb.def_stmt(),
                 bb.addtask_stmt(), bb.filler_stmt())
oldonly = st.one_of(bb.var_stmt(('_',)), bb.func_stmt(('_',)), NONAME, simple, bb.comment_stmt())
files = st.lists(st.one_of(bb.document(stmt, 1, 6), bb.document(oldonly, 1, 4)), min_size=1, max_size=4)
case = st.fixed_dictionaries({'files': files, 'new': st.sampled_from([False, False, False, True]), 'inc': st.booleans(), 'ext': st.sampled_from(['inc', 'conf', 'bbclass'])})


def verify(items, doc, new, where):
    items = list(items)
    want = bb.expected_items(doc, new)
    same(where + ' number of items', len(items), len(want))
    for x, s, (exp, _, text) in zip(items, doc, want):
        if s['k'] in ('var', 'func'):
            for k in ('SubItem', 'SubItems', 'OverrideDelimiter') + (('VarName', 'VarNameComplete') if s['k'] == 'var' else ('FuncName', 'FuncNameComplete')):
                same('%s %s of %r' % (where, k, text), getattr(x, k), exp['attrs'][k])
        new = new or bb.switches(s)
        same('%s new syntax in force at %r' % (where, text), x.IsNewStyleOverrideSyntax, new)
        same('%s delimiter at %r' % (where, text), x.OverrideDelimiter, ':' if new else '_')
    return new


def check(case, ctx):
    stash = new_stash(new_style_override_syntax=case['new'])
    docs = case['files']
    paths = []
    seen_new = False
    for i, doc in enumerate(docs):
        text = bb.text_of(doc)
        if i == 0 and case['inc'] and len(docs) > 1:
            # the first file pulls in the last one, in the middle of it
            inc = {'k': 'include', 'lead': '', 'ws': ' ', 'name': 'f%d.%s' % (len(docs) - 1, case['ext']), 'end': ''}
            doc = bb.legalise(doc[:len(doc) // 2] + [inc] + doc[len(doc) // 2:])
            docs = [doc] + docs[1:]
            text = bb.text_of(doc)
        ext = case['ext'] if i == len(docs) - 1 and i else 'bb'
        paths.append(ctx.write('f%d.%s' % (i, ext), text))
    for i, p in enumerate(paths):
        if i == len(paths) - 1 and case['inc'] and i:
            items = stash.GetItemsFor(filename=p, nolink=True)
        else:
            items = stash.AddFile(p)
        after = verify(items, docs[i], case['new'], 'file %d' % i)
        kinds = [bb.switches(s) for s in docs[i]]
        ctx.nt((True in kinds and kinds.index(True) > 0) or (seen_new and not any(kinds)))
        seen_new = seen_new or after
    ctx.label('forced' if case['new'] else 'detected')
    if case['inc'] and len(paths) > 1:
        ctx.label('through include')
    # still the same once everything is loaded and linked
    stash.Finalize()
    for i, p in enumerate(paths):
        got = stash.GetItemsFor(filename=p, nolink=True)
        if not case['inc']:
            verify(got, docs[i], case['new'], 'finalised file %d' % i)


pair = st.fixed_dictionaries({'base': bb.base_name, 'subs': st.lists(bb.override, min_size=1, max_size=3), 'op': st.sampled_from(bb.OPS)})


def check_pair(case, ctx):
    res = []
    for style in '_:':
        p = ctx.write('s%d.bb' % len(res), style.join([case['base']] + case['subs']) + ' ' + case['op'] + ' "x"\n')
        x = new_stash().AddFile(p)[0]
        ensure(x.CLASSIFIER == 'Variable', 'not a variable', repr(x))
        res.append((x.VarName, x.SubItems, x.VarNameComplete.replace(style, '_'), x.VarNameCompleteNoModifiers.replace(style, '_'), x.IsAppend(), x.GetMachineEntry(), x.GetDistroEntry(),
                    x.GetClassOverride(), x.IsImmediateModify()))
        same('override delimiter', x.OverrideDelimiter, style)
    same('report in the new syntax', res[1], res[0])
    same('name and overrides', res[0][:2], (case['base'], case['subs']))
    ctx.nt(len(case['subs']) > 1)


CAMPAIGNS = [Campaign('files', case, check, 5000, 90000), Campaign('pairs', pair, check_pair, 1500, 15000)]
