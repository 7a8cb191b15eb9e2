"""C27: what a recipe looks like is independent of unrelated recipes in the stash."""
import os

from common import describe
from core import Campaign, new_stash, same, st

ID = 'C27'
TECHNIQUE = 'metamorphic property testing: a generated recipe with its files is loaded alone and among generated unrelated recipes, includes, appends and lone appends in any interleaving; all its reports have to agree'
RULE = 'A recipe group and one to five unrelated files of look-alike names, possibly inheriting the same classes, in a random interleaving; non-trivial if a file of the group is added after an unrelated one that defines the same variable or inherits the same class.'
ASSUMPTIONS = ['recipes share no .inc file (known finding)', 'variables of a shared class are not assigned by the recipes inheriting it, and classes assign different variables (known finding)', 'order of the items of shared classes relative to other files is left open']

BASE = ['A = "a"\n', 'A += "b"\n', 'A:append = " c"\n', 'B ?= "1 2"\n', 'B = "${A} x"\n', 'A:remove = "b"\n', 'PACKAGES += "${PN}-q"\n', 'PACKAGES = "z"\n', 'SRC_URI = "file://a;name=n"\n', 'SRC_URI += "file://b;name=m"\n',
        'PACKAGES_DYNAMIC += "^${PN}-x.*"\n', 'IMAGE_INSTALL = "x"\n', 'inherit packagegroup\n', 'inherit image\n', 'unset B\n', 'do_x() {\n    a\n}\n', 'def f(d):\n    return 1\n\n', '# note\n', 'PN = "other"\n', 'FOO_x = "1"\n',
        'V = "${@foo(d)} ${A}"\n', 'export A\n', 'A[doc] = "x"\n', 'addtask x before do_build\n', 'W = "${@bb.utils.contains(\'A\', \'b\', \'${B}\', \'no\', d)}"\n', 'IMAGE_FEATURES += "y"\n', 'A ??= "weak"\n', 'PV = "9"\n']
OWN = ['KA = "k"\n', 'KA += "l"\n', 'KA:append = " m"\n', 'KB = "${KA}"\n', 'do_k() {\n    k\n}\n', 'inherit packagegroup\n', 'PACKAGES_DYNAMIC += "^k-x"\n', '# class\n']
text = st.lists(st.sampled_from(BASE), min_size=1, max_size=5)
klass = st.lists(st.sampled_from(OWN), min_size=1, max_size=3)
uses = st.lists(st.sampled_from([0, 0, 1, 2]), max_size=2)
XNAMES = ['r_1.0', 'r', 'lib+r_1']
YNAMES = {'r_1.0': ['r_1.1', 'rr_1.0', 'r-x_1.0', 'r_1x0', 'r', 'r_10', 'R_1.0', 's_1.0'], 'r': ['r_1.0', 'rr', 's', 'r-x'], 'lib+r_1': ['libr_1', 'libbr_1', 'lib+r_2', 'lib+r_1.0']}
DIRS = ['l/recipes', 'l/other', 'm/recipes', 'l/recipes/sub']


@st.composite
def cases(draw):
    name = draw(st.sampled_from(XNAMES))
    files = []
    groups = {'x': [], 'y': []}
    classes = [['l/classes/k%d.bbclass' % n, ''.join(t).replace('K', 'K%d' % n)] for n, t in enumerate(draw(st.tuples(klass, klass, klass)))]
    classes[2][1] = 'inherit k1\n' + classes[2][1] if draw(st.booleans()) else classes[2][1]

    if draw(st.integers(0, 2)) == 0:
        # the other layer has classes of the same names
        classes += [['m/classes/k%d.bbclass' % n, ''.join(t).replace('K', 'K%d' % n)] for n, t in enumerate(draw(st.tuples(klass, klass, klass)))]
    taken = set()

    def group(prefix, stem, where, which, append=True):
        out = draw(text)
        if prefix != 'own' and draw(st.booleans()):
            # an include file of the same name elsewhere
            prefix = 'own'
        if (where, prefix) in taken:
            prefix = 'inc%d' % len(files)
        taken.add((where, prefix))
        for k in draw(uses):
            out.insert(draw(st.integers(0, len(out))), 'inherit k%d\n' % k)
        if draw(st.booleans()):
            out.insert(draw(st.integers(0, len(out))), 'require %s.inc\n' % prefix)
            files.append(['%s/%s.inc' % (where, prefix), ''.join(draw(text))])
        files.append(['%s/%s.bb' % (where, stem), ''.join(out)])
        groups[which].append(len(files) - 1)
        if append and draw(st.integers(0, 2)) == 0:
            files.append(['%s/%s.bbappend' % (draw(st.sampled_from(DIRS)), stem), ''.join(draw(text))])
            groups[which].append(len(files) - 1)
    group('own', name, DIRS[0], 'x')
    if draw(st.booleans()) and name != 'r':
        # applies to versions of the recipe; belongs to it
        files.append(['m/recipes/%s_%%.bbappend' % name.split('_')[0], ''.join(draw(text))])
        groups['x'].append(len(files) - 1)
    for n, y in enumerate(draw(st.lists(st.sampled_from(YNAMES[name]), min_size=1, max_size=3, unique=True))):
        kind = draw(st.integers(0, 4))
        if kind == 0:
            # without a recipe
            files.append(['%s/%s.bbappend' % (draw(st.sampled_from(DIRS)), y), ''.join(draw(text))])
            groups['y'].append(len(files) - 1)
        elif kind == 1:
            files.append(['%s/%s%s' % (draw(st.sampled_from(DIRS)), y, draw(st.sampled_from(['.inc', '.conf', '.bbclass']))), ''.join(draw(text))])
            groups['y'].append(len(files) - 1)
        else:
            group('other%d' % n, y, draw(st.sampled_from(DIRS)), 'y')
    if draw(st.integers(0, 2)) == 0 and not any(f[0].endswith('.bbappend') for f in files):
        # same file name, different directory
        group('twin', name, draw(st.sampled_from(DIRS[1:])), 'y', append=False)
    order = draw(st.permutations(['x'] * len(groups['x']) + ['y'] * len(groups['y'])))
    return {'files': files + classes, 'x': groups['x'], 'y': draw(st.permutations(groups['y'])), 'order': order, 'fin': draw(st.integers(0, 40)), 'neg': draw(st.booleans()), 'ask': draw(st.booleans())}


def report(stash, recipe, ctx):
    items = stash.GetItemsFor(filename=recipe)
    rel = {x.Origin: os.path.relpath(x.Origin, ctx.dir) for x in items}
    res = {
        'items of ' + o: [(x.InFileLine, describe(x)) for x in items if rel[x.Origin] == o] for o in sorted(set(rel.values()))}
    res.update({
        'order of items': [(rel[x.Origin], x.InFileLine) for x in items if not x.Origin.endswith('.bbclass')],
        'links': sorted({os.path.relpath(x, ctx.dir) for x in stash.GetLinksForFile(recipe)}),
        'own items': [(x.InFileLine, describe(x)) for x in stash.GetItemsFor(filename=recipe, nolink=True)],
        'variables': sorted((rel[x.Origin], x.InFileLine) for x in stash.GetItemsFor(filename=recipe, classifier='Variable', attribute='VarName', attributeValue=['A', 'K0A', 'SRC_URI'])),
        'package names': stash.GetValidPackageNames(recipe), 'stripped package names': stash.GetValidPackageNames(recipe, strippn=True), 'resources': stash.GetValidNamedResources(recipe),
        'dynamic packages': stash.GetPackagesDynamic(recipe), 'is dynamic': [stash.IsDynamicPackage(recipe, n) for n in ('${PN}-x1', 'r-x', 'k-x')], 'image': stash.IsImage(recipe), 'package group': stash.IsPackageGroup(recipe),
        'term': stash.ExpandTerm(recipe, '${A}|${B}|${V}|${W}|${K0B}|${K1B}|${PN}|${PV}|${BPN}|${FILE}'), 'files': stash.GetFiles(recipe, '*.patch'),
        'included from': sorted({(rel[x.Origin], tuple(sorted(os.path.relpath(y, ctx.dir) for y in x.IncludedFrom))) for x in items if not x.Origin.endswith(('.bbclass', '%.bbappend'))}), 'append': recipe in stash.GetRecipes()})
    for k, v in stash.ExpandVar(filename=recipe).items():
        res['expanded ' + k] = v
    return res


def check(case, ctx):
    for d in ('l', 'm'):
        ctx.write(d + '/conf/layer.conf', '')
    ctx.write('l/recipes/files/a.patch', '')
    ctx.write('l/other/files/b.patch', '')
    ctx.write('m/recipes/files/c.patch', '')
    paths = [ctx.write(n, t) for n, t in case['files']]
    recipe = paths[case['x'][0]]
    alone = new_stash(negative_inline=case['neg'])
    for i in case['x']:
        alone.AddFile(paths[i])
    alone.Finalize()
    want = report(alone, recipe, ctx)
    stash = new_stash(negative_inline=case['neg'])
    todo = {'x': list(case['x']), 'y': list(case['y'])}
    late = False
    for n, g in enumerate(case['order']):
        stash.AddFile(paths[todo[g].pop(0)])
        late |= g == 'x' and len(todo['y']) < len(case['y'])
        if case['ask']:
            report(stash, recipe, ctx)
    stash.Finalize()
    got = report(stash, recipe, ctx)
    info = ['%s: %r' % tuple(f) for f in case['files']] + ['order: %r' % [case['files'][i][0] for i in order_of(case)]]
    for k in list(want) + [k for k in got if k not in want]:
        same(k, got.get(k), want.get(k), *info)
    ctx.nt(late)
    ctx.label('%d unrelated' % len(case['y']))
    if any('inherit k' in case['files'][i][1] for i in case['y']) and any('bbclass' in x for x in want['links']):
        ctx.label('common class')


def order_of(case):
    todo = {'x': list(case['x']), 'y': list(case['y'])}
    return [todo[g].pop(0) for g in case['order']]


CAMPAIGNS = [Campaign('unrelated', cases(), check, 4000, 70000)]
