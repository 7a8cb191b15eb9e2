"""C14: a file's scope is exactly everything it includes, inherits or is appended by."""
import os

import tree
from core import Campaign, ensure, new_stash, same, st

ID = 'C14'
TECHNIQUE = 'property testing over generated file graphs: reported scopes against reachability in the written graph, for every order of addition'
RULE = ('Graphs of two to nine recipes, includes, classes and appends (chains, diamonds, cycles, recipes requiring recipes) added in any order, includes and classes also by hand, also in two layers with the same names; non-trivial if a scope reaches over two steps, '
        'and some file is out of it.')
ASSUMPTIONS = ['Finalize is called once after the last file was added', 'files hold at least one statement',
               'links over three and more steps may be missing where a single pass over the files in the order they were finished does not reach them (known finding, pinned by tests/test_linking.py)']

TEXT = ['A = "a"\n', '# note\n', 'do_x() {\n    a\n}\n', 'A:append = " c"\n']
elem = tree.element(st.sampled_from(TEXT), ['require', 'require', 'include', 'inherit', 'inherit', 'glob', 'defer', 'bb'])
pull = st.tuples(st.just('l'), st.sampled_from(['require', 'require', 'include', 'inherit', 'inherit', 'inherit', 'bb']), st.integers(0, 30), st.booleans()).map(list)
elem = st.one_of(elem, pull)
# two layers with the same few names
FEW = ['recipes/r_1.0.bb', 'recipes/r_1.0.bbappend', 'recipes/i0.inc', 'classes/k0.bbclass', 'recipes/i1.inc', 'classes/k1.bbclass']
layer = tree.project(elem=elem, size=3, lo=1, files=(2, 5), names=FEW)
case = st.fixed_dictionaries({'proj': st.one_of(tree.project(elem=elem, size=3, lo=1, files=(5, 9)), tree.project(elem=elem, size=4, lo=1, files=(4, 10), names=tree.WIDER), tree.project(elem=elem, size=4, lo=1, files=(2, 8), cyclic=True),
                                                 st.builds(tree.pair, layer, layer)),
                              'order': st.permutations(list(range(9))), 'hand': st.lists(st.integers(0, 8), max_size=2)})


def one_pass(proj, added):
    """scopes known after one pass over the files in the order they were finished"""
    stem = [os.path.splitext(os.path.basename(f['n'])) for f in proj['files']]
    links, classes, active, appends = {}, set(), [], []

    def add(i, parent):
        if i in classes or i in active:
            if parent is not None:
                links.setdefault(parent, []).append(i)
            return
        if stem[i][1] == '.bbclass':
            classes.add(i)
        if stem[i][1] == '.bbappend':
            for r in links:
                if stem[r][1] == '.bb' and tree.matches(stem[i][0], stem[r][0]):
                    links[r].append(i)
        active.append(i)
        for e in proj['files'][i]['c']:
            if e[0] == 'l':
                add(e[2], i)
        active.remove(i)
        links.setdefault(i, [])
        if parent is not None:
            links.setdefault(parent, []).append(i)
        if stem[i][1] == '.bbappend':
            appends.append(i)
        elif stem[i][1] == '.bb':
            links[i] += [a for a in appends if tree.matches(stem[a][0], stem[i][0])]
    seen = set()
    for i in added:
        if i in seen and stem[i][1] == '.bbappend':
            continue
        seen.add(i)
        add(i, None)
    for k in links:
        for item in dict.fromkeys(links[k]):
            links[k] += links[item]
        links[k].append(k)
    return {k: set(v) for k, v in links.items()}


def scopes(case, ctx):
    proj = case['proj']
    files = proj['files']
    for f in files:
        if not f['c']:
            f['c'] = [['t', 'A = "a"\n']]
    paths = tree.write(proj, ctx)
    top = tree.tops(proj)
    order = [i for i in case['order'] if i in top] + [i for i in top if i not in case['order']]
    for i, h in enumerate(case['hand']):
        order.insert((i * 3 + h) % (len(order) + 1), h % len(files))
    stash = new_stash()
    for i in order:
        stash.AddFile(paths[i])
    stash.Finalize()
    graph = tree.direct(proj, order)
    # a recipe required by another one is appended as well
    stem = [os.path.splitext(os.path.basename(f['n'])) for f in files]
    for r in graph:
        if stem[r][1] == '.bb':
            graph[r] = sorted(set(graph[r]) | {a for a in order if stem[a][1] == '.bbappend' and tree.matches(stem[a][0], stem[r][0])})
    return proj, paths, order, stash, graph


def check(case, ctx, strict=False):
    proj, paths, order, stash, graph = scopes(case, ctx)
    name = {p: f['n'] for p, f in zip(paths, proj['files'])}
    sim = one_pass(proj, order)
    got = {}
    for i, p in enumerate(paths):
        links = stash.GetLinksForFile(p)
        got[i] = {paths.index(x) for x in links if x in name}
        ensure(all(x in name for x in links), 'link to a file never added', sorted(set(links) - set(name)))
        if i not in graph:
            same('scope of %s, which was not added' % name[p], sorted(name[x] for x in set(links)), [])
            continue
        want = tree.reach(graph, i) - {i}
        must = sim[i] - {i} if not strict else want
        near = {k for k, d in tree.depth(graph, i).items() if 0 < d < 3}
        ensure(got[i] <= want, 'scope of %s holds files not connected to it' % name[p], sorted(proj['files'][k]['n'] for k in got[i] - want), order)
        ensure(must | near <= got[i], 'scope of %s lacks files' % name[p], sorted(proj['files'][k]['n'] for k in (must | near) - got[i]), order)
        scope = {x.Origin for x in stash.GetItemsFor(filename=p)}
        same('files of the items in scope of %s' % name[p], sorted(scope), sorted({paths[k] for k in got[i]} | {p}))
        far = max(tree.depth(graph, i).values())
        ctx.nt(far > 1 and len(want) + 1 < len(graph))
        ctx.label('depth %d' % far)
        if i in tree.reach(graph, i):
            ctx.label('cycle')
    for x in stash.GetItemsFor():
        me = paths.index(x.Origin)
        want = {p for k, p in enumerate(paths) if k == me or me in got[k]}
        same('IncludedFrom of line %d of %s' % (x.InFileLine, name[x.Origin]), sorted(x.IncludedFrom), sorted(want))


def check_strict(case, ctx):
    check(case, ctx, strict=True)


def chain_of(hows):
    files = []
    for i, how in enumerate([*hows, '']):
        name = 'recipes/r_1.0.bb' if not i else 'classes/d%d.bbclass' % i if hows[i - 1] == 'inherit' else 'recipes/d%d.inc' % i
        text = 'inherit d%d\n' % (i + 1) if how == 'inherit' else '%s recipes/d%d.inc\n' % (how, i + 1)
        files.append({'n': name, 'c': [['t', 'A = "a"\n'], ['l', text, i + 1]][:2 if how else 1]})
    return {'proj': {'files': files}, 'order': [], 'hand': []}


deep = st.lists(st.sampled_from(['require', 'include', 'inherit']), min_size=3, max_size=30).map(chain_of)

CAMPAIGNS = [Campaign('graphs', case, check, 9000, 80000), Campaign('deep', deep, check, 120, 1000),
             # replays known findings only: scopes without any allowance for far links
             Campaign('closure', case, check_strict, 0, 0)]
