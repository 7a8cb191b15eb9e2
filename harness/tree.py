"""Small layers of recipes, includes, classes and appends with a known link structure.

A project is {"files": [{"n": relative name, "c": [element...]}...], "add": [...]}.
An element is ["t", text] (complete lines) or ["l", statement, index of the file pulled in].
"""
import os

from hypothesis import strategies as st

import bb

RANKED = ['recipes/r_1.0.bb', 'recipes/s_2.bb', 'recipes/r_%.bbappend', 'recipes/r_1.0.bbappend', 'recipes/s_2.bbappend',
          'recipes/i0.inc', 'classes/k0.bbclass', 'recipes/i1.inc', 'recipes/c0.conf', 'classes/k1.bbclass', 'recipes/v0.txt', 'recipes/i2.inc', 'classes/k2.bbclass', 'recipes/i3.inc', 'recipes/w']
# files of the same name in another directory
WIDER = ['recipes/r_1.0.bb', 'recipes/s_2.bb', 'other/r_1.0.bb', 'recipes/r_%.bbappend', 'other/r_1.0.bbappend', 'recipes/r_1.0.bbappend', 'recipes/s_2.bbappend',
         'recipes/i0.inc', 'other/i0.inc', 'classes/k0.bbclass', 'other/i1.inc', 'recipes/i1.inc', 'recipes/c0.conf', 'classes/k1.bbclass', 'recipes/v0.txt', 'recipes/i2.inc', 'other/i2.inc', 'classes/k2.bbclass', 'other/c0.conf',
         'recipes/i3.inc', 'recipes/w', 'other/w']
WIDE = [x for x in WIDER if not (x.startswith('other/r_'))]
SIMPLE = ['A = "a"\n', 'B += "b"\n', 'A:append = " c"\n', 'FOO ?= "1 2"\n', '# note\n', '\n', 'do_x() {\n    a\n}\n', 'export X\n',
          'A = "a \\\n b \\\n"\n', 'def f(d):\n    return 1\n\n', 'python do_y() {\n    pass\n\n}\n', 'A[doc] = "x"\n', 'addtask x\n', 'PACKAGES += "${PN}-q"\n',
          'SRC_URI = "file://a;name=n"\n', '# a\n# b\n', 'IMAGE_INSTALL = "x"\n', 'unset B\n', 'B:remove = "b"\n', '%%\n', 'C = "${A} ${B}"\n',
          'A_prepend = "p "\n', 'inherit nowhere\n', 'include nothing.inc\n', 'inherit packagegroup\n', 'inherit image\n', 'PACKAGES_DYNAMIC += "^${PN}-x.*"\n', 'LONG = "' + '\\\n' * 110 + '"\n', bb.pad(95), bb.pad(995), bb.pad(9990)]


def element(text=None, hows=('require', 'require', 'include', 'inherit', 'inherit', 'glob', 'defer')):
    text = st.sampled_from(SIMPLE) if text is None else text
    link = st.tuples(st.sampled_from(list(hows)), st.integers(0, 30), st.booleans()).map(lambda t: ['l', *t])
    return st.one_of(text.map(lambda t: ['t', t]), text.map(lambda t: ['t', t]), link)


def rank(rel):
    return WIDER.index(rel)


def fix_links(files, cyclic=False):
    """turn raw link choices into proper ones: [ 'l', rendered statement, index of target ]"""
    res = []
    for n, content in files:
        out = []
        for e in content:
            if e[0] == 't':
                out.append(e)
                continue
            _, how, pick, local = e
            ext = '.bbclass' if how in ('inherit', 'glob', 'defer') else '.bb' if how == 'bb' else ('.inc', '.conf', '.txt', '/w')
            cand = [i for i, (m, _) in enumerate(files) if m.endswith(ext) and (cyclic or rank(m) > rank(n))]
            if not cand:
                continue
            i = cand[pick % len(cand)]
            base = os.path.basename(files[i][0])
            near = os.path.dirname(n) == os.path.dirname(files[i][0])
            if how == 'glob':
                text = 'INHERIT += "%s"\n' % base[:-8]
            elif how == 'defer':
                text = 'inherit_defer %s\n' % base[:-8]
            elif how == 'inherit':
                text = 'inherit %s\n' % base[:-8]
            else:
                text = '%s %s\n' % ('require' if how == 'bb' else how, base if local and near else files[i][0])
            out.append(['l', text, i])
        res.append({'n': n, 'c': glue(out)})
    return res


def glue(content):
    """keep blocks that would swallow or be merged with their successor apart"""
    res = []
    for e in content:
        if res and res[-1][1].startswith(('#', 'def')) and (e[1].startswith('#') or e[1][0] in ' \t\n'):
            res.append(['t', 'SEP = "1"\n'])
        res.append(e)
    return res


@st.composite
def project(draw, names=None, need=(0,), text=None, size=5, cyclic=False, files=(1, 7), lo=0, elem=None):
    names = names or draw(st.sampled_from([RANKED, WIDE]))
    chosen = draw(st.lists(st.sampled_from(names), min_size=files[0], max_size=files[1], unique=True))
    for i in need:
        if names[i] not in chosen:
            chosen.append(names[i])
    chosen.sort(key=names.index)
    return {'files': fix_links([(n, draw(st.lists(elem if elem is not None else element(text), min_size=lo, max_size=size))) for n in chosen], cyclic)}


def content(f):
    return ''.join(e[1] for e in f['c'])


def pair(one, two):
    """two layers holding files of the same names"""
    res = []
    for root, p in (('l', one), ('m/meta', two)):
        base = len(res)
        res += [{'n': root + '/' + f['n'], 'c': [e if e[0] == 't' else ['l', e[1], e[2] + base] for e in f['c']]} for f in p['files']]
    return {'files': res, 'pair': True}


def write(case, ctx, root='l'):
    if case.get('pair'):
        ctx.write('l/conf/layer.conf', '')
        ctx.write('m/meta/conf/layer.conf', '')
        return [ctx.write(f['n'], content(f)) for f in case['files']]
    ctx.write(root + '/conf/layer.conf', '')
    return [ctx.write(root + '/' + f['n'], content(f)) for f in case['files']]


def tops(case, exts=('.bb', '.bbappend')):
    """indices of the files one would add by hand"""
    return [i for i, f in enumerate(case['files']) if f['n'].endswith(exts)]


def matches(append, recipe):
    """does the append (base name without extension) apply to the recipe (base name without extension)"""
    if '%' not in append:
        return append == recipe
    head, *mid, tail = append.split('%')
    if not recipe.startswith(head):
        return False
    pos = len(head)
    for m in mid:
        k = recipe.find(m, pos)
        if k < 0:
            return False
        pos = k + len(m)
    return len(recipe) - len(tail) >= pos and recipe.endswith(tail)


def direct(case, added):
    """index -> indices directly pulled in, for every file taking part when `added` were added"""
    stem = [os.path.splitext(os.path.basename(f['n'])) for f in case['files']]
    res = {}
    todo = list(added)
    while todo:
        i = todo.pop()
        if i in res:
            continue
        res[i] = [e[2] for e in case['files'][i]['c'] if e[0] == 'l']
        todo += res[i]
    for a in added:
        if stem[a][1] == '.bbappend':
            for r in added:
                if stem[r][1] == '.bb' and matches(stem[a][0], stem[r][0]):
                    res[r] = res[r] + [a]
    return res


def reach(graph, i):
    seen = []
    todo = list(graph.get(i, []))
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.append(k)
            todo += graph.get(k, [])
    return set(seen)


def depth(graph, i):
    """longest shortest distance from i"""
    dist = {i: 0}
    todo = [i]
    for k in todo:
        for m in graph.get(k, []):
            if m not in dist:
                dist[m] = dist[k] + 1
                todo.append(m)
    return dist


def random_text():
    """one to three generated statements, without anything that would pull in a file"""
    def ok(s):
        return s['k'] not in ('include', 'require', 'inherit', 'inherit_defer', 'inherit_glob', 'include_all', 'def', 'comment')
    return st.lists(bb.any_stmt().filter(ok), min_size=1, max_size=2).map(bb.text_of)
