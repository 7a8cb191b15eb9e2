"""C26: meaning-preserving reformatting never changes effective values."""
import os

from core import Campaign, ensure, new_stash, same, st

ID = 'C26'
TECHNIQUE = 'metamorphic property testing: one generated recipe written down in two ways (layout, quotes, continuation lines, comments, included files, override syntax), all reports have to agree'
RULE = ('Recipes of two to twelve statements written plainly and reformatted; non-trivial if at least two kinds of rewriting apply and an assignment holds two entries.')
ASSUMPTIONS = ['continuation lines are put between entries only', 'included parts are complete statements', 'variable names hold no lower case override look-alikes']

OVER = ['', '', '', '', 'qemux86', 'class-target', '${PN}', 'x86-64']
plain = st.sampled_from(['a', 'b', 'c', 'x', 'ab', '--with-q', 'file://x.patch;name=n', '${A}', '${B}', '${PN}', '${PN}-x', '${NOPE}', 'git://h/r;name=m', '${BPN}-${PV}', 'x86', '$', 'a=b', '#', '1.0', '^${PN}-y.*'])
helper = st.tuples(st.sampled_from(['bb.utils.contains(@A@, @x@, @%s@, @%s@, d)', 'oe.utils.conditional(@A@, @x@, @%s@, @%s@, d)', 'bb.utils.contains_any(@A@,@x@,@%s@,@%s@,d)']), st.sampled_from(['a', 'b b', '', '${A}', 'c,d']), st.sampled_from(['x', '', 'y z'])).map(
    lambda t: '${@' + t[0] % t[1:] + '}')
opaque = st.sampled_from(['${@foo(d)}', '${@bar(@a@)}', "${@d.getVar(@NOPE@) or 'x'}".replace("'x'", '@x@'), '${@d.getVar(@A@)}', '${@d.getVar(@B@, True)}'])
tok = st.one_of(plain, plain, plain, plain, helper, opaque)
var = st.sampled_from(['A', 'A', 'B', 'FOO', 'PACKAGES', 'SRC_URI', 'PACKAGES_DYNAMIC', 'EXTRA_OECONF', 'IMAGE_INSTALL', 'FILES'])
value = {'toks': st.lists(tok, max_size=4), 'lead': st.booleans(), 'trail': st.booleans()}
assign = st.one_of(
    st.fixed_dictionaries({'k': st.just('set'), 'var': var, 'over': st.sampled_from(OVER), 'op': st.sampled_from(['=', '=', '?=', '??=', ':=', '+=', '=+', '.=', '=.']), 'mod': st.just(''), **value}),
    st.fixed_dictionaries({'k': st.just('set'), 'var': var, 'over': st.sampled_from(OVER), 'op': st.just('='), 'mod': st.sampled_from(['append', 'prepend', 'remove']), 'first': st.booleans(), **value}))
words = st.lists(st.sampled_from(['k', 'm', 'image', 'packagegroup', 'nope', 'autotools']), min_size=1, max_size=3)
tasks = st.lists(st.sampled_from(['do_compile', 'do_install', 'do_build', 'do_x']), max_size=2)
bodies = ['    a\n', '    if x; then\n        b\n    fi\n', '', '\t${A} {\n\t}\n', '    # note\n\n    c = "d"\n']
other = st.one_of(
    st.fixed_dictionaries({'k': st.just('inherit'), 'words': words, 'how': st.sampled_from(['inherit', 'inherit', 'inherit_defer', 'INHERIT'])}),
    st.fixed_dictionaries({'k': st.just('func'), 'name': st.sampled_from(['do_install', 'do_x', 'pkg_postinst', 'do_compile']), 'over': st.sampled_from(['', '', 'append', 'prepend', 'class-target', 'append qemux86', '${PN}']), 'py': st.sampled_from(['', '', 'python ', 'fakeroot ']),
                           'body': st.sampled_from(bodies)}),
    st.fixed_dictionaries({'k': st.just('addtask'), 'name': st.sampled_from(['do_x', 'x', 'compile']), 'after': tasks, 'before': tasks, 'swap': st.booleans()}),
    st.fixed_dictionaries({'k': st.just('raw'), 'text': st.sampled_from(['deltask do_x\n', 'export FOO\n', 'A[doc] = "x y"\n', 'def f(d):\n    return "A = b"\n\n', 'EXPORT_FUNCTIONS do_x do_install\n', 'unset B\n', 'unset A[doc]\n', 'addtask y\n'])}))
stmt = st.one_of(assign, assign, assign, other)
how = st.fixed_dictionaries({'pre': st.sampled_from(['', ' ', '  ', '\t']), 'post': st.sampled_from(['', ' ', '\t', '   ']), 'q': st.sampled_from('"\''), 'gap': st.sampled_from([' ', '  ', '\t', ' \\\n    ', ' \\\n', '\\\n  ', ' \\\n\t', ' \\\n \\\n ']),
                             'note': st.sampled_from(['', '', '', '\n', '# note\n', '\n\n', '# A = "z"\n# B\n', '#\n\n', '    \n', '# inherit image\n\n', '# do_x() {\n']), 'sp': st.sampled_from([' ', '  ', '\t']), 'end': st.sampled_from(['', '', ' ', '\t'])})
PLAIN = {'pre': ' ', 'post': ' ', 'q': '"', 'gap': ' ', 'note': '', 'sp': ' ', 'end': ''}
case = st.fixed_dictionaries({'stmts': st.lists(stmt, min_size=2, max_size=12), 'hows': st.lists(how, min_size=4, max_size=6), 'use': st.integers(0, 63), 'cuts': st.lists(st.tuples(st.integers(0, 12), st.integers(1, 6), st.booleans()), max_size=3),
                              'opts': st.fixed_dictionaries({'negative_inline': st.booleans()}), 'first': st.booleans()})
USES = ['note', 'space', 'gap', 'quote', 'cuts', 'syntax']


def render(s, h, delim):
    k = s['k']
    if k == 'raw':
        return s['text']
    if k == 'inherit':
        arg = h['sp'].join(s['words'])
        return '%s%s%s\n' % (s['how'], h['sp'], arg) if s['how'] != 'INHERIT' else 'INHERIT%s+=%s%s%s%s\n' % (h['pre'], h['post'], h['q'], arg, h['q'])
    if k == 'func':
        return s['py'] + delim.join([s['name']] + s['over'].split()) + h['pre'] + '()' + (h['post'] or ' ') + '{\n' + s['body'] + '}\n'
    if k == 'addtask':
        parts = [h['sp'].join(['after'] + s['after']) if s['after'] else '', h['sp'].join(['before'] + s['before']) if s['before'] else '']
        if s['swap']:
            parts.reverse()
        return h['sp'].join(x for x in ['addtask', s['name']] + parts if x) + '\n'
    names = [s['var'], s['over']] if not s['mod'] else [s['var'], s['mod'], s['over']] if s['first'] else [s['var'], s['over'], s['mod']]
    inner = "'" if h['q'] == '"' else '"'
    text = (' ' if s['lead'] else '') + h['gap'].join(t.replace('@', inner).replace('${' + inner, '${@') for t in s['toks']) + (' ' if s['trail'] else '')
    return delim.join(x for x in names if x) + h['pre'] + s['op'] + h['post'] + h['q'] + text + h['q'] + h['end'] + '\n'


def norm(name):
    for o in ['append', 'prepend', 'remove'] + [x for x in OVER if x] + ['r']:
        name = name.replace('_' + o, ':' + o) if name.endswith('_' + o) or '_' + o + '_' in name or '_' + o + ':' in name else name
    return name


def unquote(x):
    if isinstance(x, (list, tuple)):
        return [unquote(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted({unquote(y) for y in x})
    return x.replace("'", '"') if isinstance(x, str) else x


def report(recipe, ctx, case):
    stash = new_stash(**case['opts'])
    stash.AddFile(recipe)
    stash.Finalize()
    items = stash.GetItemsFor(filename=recipe)

    def kind(c):
        return [x for x in items if x.CLASSIFIER == c]
    keys = {}
    for k, v in stash.ExpandVar(filename=recipe).items():
        keys.setdefault(norm(k), []).append(v)
    base = os.path.dirname(os.path.dirname(recipe))
    return {
        **{'expanded value of ' + k: sorted(v) for k, v in keys.items()},
        'inherits': [(x.Statement, [os.path.relpath(p, base) for p in sorted(x.FilePaths)], x.get_items()) for x in kind('Inherit')],
        'tasks': [(x.VarName if hasattr(x, 'VarName') else '', x.FuncName if hasattr(x, 'FuncName') else '', getattr(x, 'Before', None), getattr(x, 'After', None)) for x in items if x.CLASSIFIER in ('TaskAdd', 'TaskDel')],
        'functions': [(norm(x.FuncNameComplete), x.IsAppend(), bool(x.IsPython), bool(x.IsFakeroot), x.get_items()) for x in kind('Function')],
        'helpers': [x.FuncName for x in kind('PythonBlock')],
        'exports': [x.get_items() for x in kind('Export')] + [x.get_items() for x in kind('FunctionExports')],
        'unset': [(x.VarName, x.Flag) for x in kind('Unset')],
        'flags': [(x.VarName, x.Flag, x.Value) for x in kind('FlagAssignment')],
        'assignments': [(norm(x.VarNameComplete), x.VarOp.strip(), x.get_items()) for x in kind('Variable')],
        'packages': stash.GetValidPackageNames(recipe), 'stripped packages': stash.GetValidPackageNames(recipe, strippn=True), 'dynamic': stash.GetPackagesDynamic(recipe),
        'resources': stash.GetValidNamedResources(recipe), 'kind': (stash.IsImage(recipe), stash.IsPackageGroup(recipe)),
        'terms': [stash.ExpandTerm(recipe, t).replace('\x1b', ' ').split() for t in ('${A}', '${B} ${FOO}')],
        'others': sorted({x.CLASSIFIER for x in items} - {'Comment', 'Include', 'Item'})}


def check(case, ctx):
    for v in ('p', 'q'):
        ctx.write(v + '/conf/layer.conf', '')
        ctx.write(v + '/classes/k.bbclass', 'A += "k"\nB ?= "kb"\ndo_k() {\n    k\n}\n')
        ctx.write(v + '/classes/m.bbclass', 'A .= "m"\nFOO ??= "m"\n')
    use = {n for i, n in enumerate(USES) if case['use'] >> i & 1}
    stmts = case['stmts']
    delims = [':', '_'] if 'syntax' in use else [':', ':']
    if case['first']:
        delims.reverse()
    if '_' in delims:
        # the old syntax has no way to write these names unambiguously
        stmts = [dict(s, over='') if s.get('over') == 'x86-64' and s['k'] == 'set' else s for s in stmts]
    one = ctx.write('p/recipes/r_1.0.bb', ''.join(render(s, PLAIN, delims[0]) for s in stmts))
    parts = []
    for i, s in enumerate(stmts):
        h = dict(case['hows'][i % len(case['hows'])])
        if 'note' not in use:
            h['note'] = ''
        if 'space' not in use:
            h.update(pre=' ', post=' ', sp=' ', end='')
        if 'gap' not in use:
            h['gap'] = ' '
        if 'quote' not in use:
            h['q'] = '"'
        parts.append(h['note'] + render(s, h, delims[1]))
    files = 0
    if 'cuts' in use:
        for at, n, quiet in case['cuts']:
            at %= len(parts)
            run = parts[at:at + n]
            if any('require part' in x or 'include part' in x for x in run):
                continue        # links over three steps are a known finding of C14
            ctx.write('q/recipes/part%d.inc' % files, ''.join(run))
            parts[at:at + n] = ['%s part%d.inc\n' % ('include' if quiet else 'require', files)]
            files += 1
    two = ctx.write('q/recipes/r_1.0.bb', ''.join(parts))
    a, b = report(one, ctx, case), report(two, ctx, case)
    info = [open(one).read(), open(two).read()] + [open(ctx.path('q/recipes/part%d.inc' % i)).read() for i in range(files)]
    for k in sorted(set(a) | set(b)):
        same(k, unquote(b.get(k)), unquote(a.get(k)), *info)
    applied = len([u for u in use if u != 'cuts']) + bool(files)
    ctx.nt(applied > 1 and any(len(s.get('toks', ())) > 1 for s in stmts))
    for u in use:
        ctx.label(u)
    ensure(a, 'no report')


CAMPAIGNS = [Campaign('rewritten', case, check, 8000, 70000)]
