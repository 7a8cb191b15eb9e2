"""C20: files are resolved next to the including file first, then in its layer."""
import os

from core import CONSTANTS, Campaign, default_constants, ensure, new_stash, same, st

ID = 'C20'
TECHNIQUE = 'model-based property testing: generated directory layouts of nested and neighbouring layers against a direct lookup in the written tree'
RULE = ('Layouts of one to three (also nested) layers with same-named files in several directories, a recipe and its chain of includes and classes; non-trivial if a statement resolves although another file of the same name exists, '
        'or is ignored although the file exists.')
ASSUMPTIONS = ['include names use the builtin variables of the file they stand in only', 'include targets are files, paths asked for exist']

DIRS = ['L', 'L/recipes', 'L/recipes/r', 'L/meta', 'L/meta/recipes', 'N', 'N/r', 'L/recipes/a/b/c/d/e/f/g', 'L/conf']
ROOTS = ['', 'L', 'L/meta', 'L/recipes', 'N']
CDIRS = ['classes', 'classes-recipe', 'classes-global']
BASES = ['', 'L', 'L/recipes', 'L/recipes/r', 'L/meta', 'L/meta/recipes', 'N', 'N/r']
INCS = ['x.inc', 'y.inc', 'r.inc', 'r-1.0.inc', 'sub/x.inc']
NAMES = ['x.inc', 'x.inc', 'y.inc', 'recipes/x.inc', '../x.inc', './y.inc', '${PN}.inc', '${BPN}-${PV}.inc', 'nope.inc', 'sub/x.inc', 'recipes/r/y.inc', '../recipes/x.inc', '${THISDIR}/x.inc', '${FILE}', '../../N/r/x.inc', 'meta/recipes/y.inc']
CLASSES = ['k', 'm', 'sub/k', 'k.bbclass', 'nope', 'ig']
stmt = st.one_of(st.tuples(st.sampled_from(['include', 'require']), st.sampled_from(NAMES)).map(list),
                 st.tuples(st.sampled_from(['inherit', 'inherit', 'inherit_defer', 'INHERIT +=']), st.lists(st.sampled_from(CLASSES), min_size=1, max_size=3).map(' '.join)).map(list),
                 st.just(['V', '']))
body = st.lists(stmt, max_size=3)
incfile = st.tuples(st.sampled_from(DIRS), st.sampled_from(INCS), body)
clsfile = st.tuples(st.sampled_from(BASES), st.sampled_from(CDIRS), st.sampled_from(['k', 'k', 'm', 'sub/k', 'ig']), body)
conf = st.tuples(st.sampled_from(ROOTS), st.sampled_from(['distro', 'machine', 'distro/include', 'other']), st.sampled_from(['d0', 'd1', 'm-0', 'm.1', 'x']))
case = st.fixed_dictionaries({
    'roots': st.lists(st.sampled_from(ROOTS), unique=True, min_size=1), 'incs': st.lists(incfile, min_size=2, max_size=8, unique_by=lambda t: t[:2]),
    'classes': st.lists(clsfile, min_size=1, max_size=6, unique_by=lambda t: t[:3]), 'confs': st.lists(conf, max_size=5),
    'where': st.sampled_from(DIRS[:8]), 'body': st.lists(stmt, min_size=1, max_size=5), 'append': st.one_of(st.none(), st.tuples(st.sampled_from(DIRS[:8]), body)),
    'ignore': st.tuples(st.lists(st.sampled_from(['k', 'ig', 'm']), max_size=2), st.lists(st.sampled_from(['x.inc', './y.inc', 'recipes/x.inc']), max_size=2)), 'second': st.booleans()})


def names(path):
    base = os.path.splitext(os.path.basename(path))[0].split('_')
    return {'${PN}': base[0], '${BPN}': base[0], '${PV}': (base + ['1.0'])[1], '${THISDIR}': os.path.dirname(path), '${FILE}': path}


def render(body):
    text = ''
    for how, arg in body:
        text += 'V = "1"\n' if how == 'V' else 'INHERIT += "%s"\n' % arg if how.startswith('INH') else '%s %s\n' % (how, arg)
    return text


def check(case, ctx):
    roots = [ctx.path(r) if r else ctx.dir for r in case['roots']]
    for r in case['roots']:
        ctx.write(os.path.join(r, 'conf/layer.conf'), '')
    bodies = {}

    def put(rel, b):
        if '${PN}' in render(b) and not rel.endswith('.bb'):
            b = [s for s in b if '${PN}' not in s[1] and '${BPN}' not in s[1]]
        if '${BPN}' in render(b) and not rel.endswith('.bb'):
            b = [s for s in b if '${BPN}' not in s[1]]
        p = ctx.write(rel, render(b))
        bodies[p] = b
        return p
    for d, n, b in case['incs']:
        put(d + '/' + n, b)
    for d, c, n, b in case['classes']:
        put(os.path.join(d, c, n + '.bbclass'), b)
    recipe = put(case['where'] + '/r_1.0.bb', case['body'])
    added = [recipe]
    if case['append']:
        added.append(put(case['append'][0] + '/r_%.bbappend', case['append'][1]))
    for root, kind, n in case['confs']:
        ctx.write(os.path.join(root, 'conf', kind, n + '.conf'), '')
    CONSTANTS.OverrideConstants({'ignore': {'classes': list(case['ignore'][0]), 'include': list(case['ignore'][1])}})

    def layer(path):
        cur = path if os.path.isdir(path) else os.path.dirname(path)
        while len(cur) >= len(ctx.dir):
            if cur in roots:
                return cur
            cur = os.path.dirname(cur)
        return ''

    def find(name, local):
        for base in (local, layer(local)):
            if base and os.path.exists(os.path.join(base, name)):
                return os.path.normpath(os.path.join(base, name))
        return ''

    want, ambiguous = {}, set()
    todo, seen = list(added), set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        local = os.path.dirname(p)
        for n, (how, arg) in enumerate(bodies[p], 1):
            if how in ('include', 'require'):
                name = arg
                for k, v in names(p).items():
                    name = name.replace(k, v)
                got = find(name, local)
                ignored = name in case['ignore'][1]
                want[p, n] = ('Include', got, ignored)
                if got and not ignored:
                    todo.append(got)
                if got and (ignored or sum(q.endswith('/' + os.path.basename(got)) for q in bodies) > 1):
                    ambiguous.add((p, n))
            elif how != 'V':
                paths = set()
                for c in arg.split():
                    cand = []
                    for loc in CDIRS:
                        if how.startswith('INH') and loc == 'classes-recipe':
                            continue
                        got = find(os.path.join(loc, c if c.endswith('.bbclass') else c + '.bbclass'), local)
                        if got:
                            cand.append(got)
                    if c in case['ignore'][0]:
                        if cand:
                            ambiguous.add((p, n))
                        continue
                    if cand:
                        paths.add(cand[0])
                        todo.append(cand[0])
                        if sum(q.endswith('/' + os.path.basename(cand[0])) for q in bodies) > 1:
                            ambiguous.add((p, n))
                want[p, n] = ('Inherit', paths)
    before = (set(CONSTANTS.DistrosKnown), set(CONSTANTS.MachinesKnown))
    default = default_constants()
    same('known distros before', before[0], set(default['replacements']['distros']))
    stash = new_stash()
    for p in added:
        stash.AddFile(p)
    if case['second']:
        stash.Finalize()
    info = sorted('%s: %r' % (os.path.relpath(p, ctx.dir), render(b)) for p, b in bodies.items()) + ['layers: %r' % case['roots'], 'ignored: %r' % (case['ignore'],)]
    items = stash.GetItemsFor()
    rel = sorted(os.path.relpath(x, ctx.dir) for x in {x.Origin for x in items})
    same('files taking part', rel, sorted(os.path.relpath(p, ctx.dir) for p in seen if bodies[p]), *info)
    for x in items:
        w = want.get((x.Origin, x.InFileLine))
        if w is None:
            same('kind', x.CLASSIFIER, 'Variable', x.RealRaw)
        elif w[0] == 'Include':
            same('kind', x.CLASSIFIER, 'Include', x.RealRaw)
            if not w[2]:
                same('file included by %r in %s' % (x.RealRaw, os.path.relpath(x.Origin, ctx.dir)), os.path.normpath(x.FileIncluded) if x.FileIncluded else '', w[1], *info)
        else:
            same('kind', x.CLASSIFIER, 'Inherit', x.RealRaw)
            same('classes found by %r in %s' % (x.RealRaw, os.path.relpath(x.Origin, ctx.dir)), sorted(os.path.normpath(q) for q in x.FilePaths), sorted(w[1]), *info)
    for p in list(bodies) + [os.path.join(ctx.dir, d) for d in DIRS if os.path.isdir(ctx.path(d))] + roots:
        same('layer root of ' + p, stash.GetLayerRoot(p), layer(p), *info)
        local = p if os.path.isdir(p) else os.path.dirname(p)
        for n in ('x.inc', 'recipes/x.inc', 'classes/k.bbclass', 'nope.inc', '../x.inc'):
            got = stash.FindLocalOrLayer(n, local)
            same('%s seen from %s' % (n, local), os.path.normpath(got) if got else '', find(n, local), *info)
    for kind, known, base in (('distro', CONSTANTS.DistrosKnown, before[0]), ('machine', CONSTANTS.MachinesKnown, before[1])):
        layers = {layer(p) for p in seen} - {''}
        new = {n for r, k, n in case['confs'] if k == kind and (ctx.path(r) if r else ctx.dir) in layers}
        same('known %s names' % kind, set(known), base | new, *info)
        if new:
            ctx.label(kind + ' names')
    ctx.nt(bool(ambiguous))
    ctx.label('%d files' % len(seen))
    ensure(seen, 'no file')


CAMPAIGNS = [Campaign('layouts', case, check, 8000, 60000)]
