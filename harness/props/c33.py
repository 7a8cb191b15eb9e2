"""C33: how the path of a file is spelled makes no difference."""
import os

from common import describe
from core import Campaign, ensure, new_stash, same, st

ID = 'C33'
TECHNIQUE = 'metamorphic property testing: generated projects added and included by differently spelled paths from changing working directories; reports have to equal those of the plain absolute paths'
RULE = ('Projects of nine files linked at random, added by relative, dotted and doubled-slash paths from four working directories and included by such paths, the same file several times; '
        'non-trivial if some file is added by another spelling than the plain one and some file is included.')
ASSUMPTIONS = ['no symbolic links', 'paths do not start with two slashes', 'parts followed by .. exist']

FILES = ['l/recipes/r_1.0.bb', 'l/recipes/s_2.bb', 'l/recipes/r_%.bbappend', 'm/recipes/r_1.0.bbappend', 'l/recipes/x.inc', 'l/recipes/sub/y.inc', 'l/classes/k.bbclass', 'l/classes/n.bbclass', 'l/conf/c.conf']
CWD = ['', 'l/recipes', 'm', 'l/recipes/sub', '/']
text = st.sampled_from(['A = "1"\n', 'A .= " 2"\n', 'B = "${A} ${THISDIR} ${FILE}"\n', '# c\n', '\n', 'A_append = " 3"\n', 'do_x() {\n    :\n}\n', 'PACKAGES = "p"\n', 'B:append = " 4"\n'])
how = st.integers(0, 8)
chunk = st.one_of(text, text, st.tuples(st.sampled_from(['require', 'include']), st.sampled_from([4, 4, 5, 5, 8, 6]), how), st.sampled_from(['inherit k\n', 'inherit n\n', 'inherit n k\n', 'INHERIT += "k"\n']))
add = st.tuples(st.sampled_from([0, 0, 1, 2, 2, 3, 3, 4, 6, 8]), how, st.integers(0, 4))
case = st.fixed_dictionaries({'files': st.lists(st.lists(chunk, max_size=4), min_size=9, max_size=9), 'adds': st.lists(add, min_size=1, max_size=6), 'fin': st.integers(0, 4), 'quiet': st.booleans()})


def twist(path, n):
    """the same path with redundant parts; n chooses which"""
    head, tail = os.path.split(path)
    if n == 1:
        return './' + path if path[0] != '/' else head + '/./' + tail
    if n == 2 and head:
        return head + '//' + tail
    if n == 3 and head.strip('./'):
        return head + '/../' + os.path.basename(head) + '/' + tail
    if n == 4 and head:
        return head + '/.//./' + tail
    if n == 5 and len(head) > 1:
        parts = head.split('/')
        return '/./'.join(x for x in ['/'.join(parts[:-1]), parts[-1]] if x) + '/' + tail
    return path


def spell(root, target, where, n):
    """target as seen from the directory where"""
    path = os.path.join(root, target)
    if n in (6, 0):
        return path
    return twist(path if n == 8 else os.path.relpath(path, where), n)


def included(root, source, target, n):
    where = os.path.dirname(os.path.join(root, source))
    plain = os.path.relpath(os.path.join(root, target), where)
    if n == 6:
        return os.path.join(root, target)
    if n == 7 and source.startswith('l/'):
        return target[2:]    # from the layer
    return twist(plain, n)


def report(stash, root, exact):
    res = {}
    paths = [os.path.join(root, f) for f in FILES]
    for i, x in enumerate(stash.GetItemsFor()):
        d = describe(x)
        if x.CLASSIFIER == 'Include' and not exact:
            for k in ('Raw', 'RealRaw', 'IncName'):
                d.pop(k)
        if d.get('FileIncluded'):
            d['FileIncluded'] = os.path.normpath(d['FileIncluded'])
        ensure(x.Origin in paths, 'origin is not a plain path', x.Origin)
        res['item %d' % i] = (x.Origin, x.Line, x.InFileLine, sorted(x.IncludedFrom), sorted(os.path.normpath(p) for p in getattr(x, 'FilePaths', ())), d)
    for f in paths:
        res['links of ' + f] = stash.GetLinksForFile(f)
        res['items of ' + f] = [(x.Origin, x.InFileLine) for x in stash.GetItemsFor(filename=f)]
        res['values of ' + f] = stash.ExpandVar(filename=f)
        res['term of ' + f] = stash.ExpandTerm(f, '${A}|${B}|${THISDIR}|${FILE}')
        res['packages of ' + f] = stash.GetValidPackageNames(f)
    res['recipes'] = stash.GetRecipes()
    res['lone appends'] = stash.GetLoneAppends()
    res['classes'] = stash.GetBBClasses()
    res['configuration'] = stash.GetConfFiles()
    if exact:
        res['fingerprint'] = stash.FingerPrint
    return res


def check(case, ctx):
    root = ctx.dir
    for d in ('l', 'm'):
        ctx.write(d + '/conf/layer.conf', '')

    def write(plain):
        for f, chunks in zip(FILES, case['files']):
            ctx.write(f, ''.join(c if isinstance(c, str) else '%s %s\n' % (c[0], included(root, f, FILES[c[1]], 0 if plain else c[2])) for c in chunks))

    def build(plain):
        stash = new_stash()
        old = os.getcwd()
        try:
            for i, (f, n, cwd) in enumerate(case['adds']):
                where = os.path.join(root, CWD[cwd])
                os.chdir(where if not plain else root)
                stash.AddFile(spell(root, FILES[f], where, n) if not plain else os.path.join(root, FILES[f]))
                if case['fin'] == i:
                    stash.Finalize()
            stash.Finalize()
            os.chdir(root if plain else os.path.join(root, CWD[case['fin'] % 5]))
            return stash
        finally:
            os.chdir(old)

    def compare(want, got, what):
        for k in want:
            same('%s, %s' % (what, k), got.get(k), want[k], case['adds'])
        same(what + ', what is reported', sorted(got), sorted(want))
    write(True)
    first = build(True)
    want = report(first, root, False)
    exact = report(first, root, True)
    compare(exact, report(build(False), root, True), 'added by other paths')
    write(False)
    compare(want, report(build(False), root, False), 'included by other paths')
    spelled = any(spell(root, FILES[f], os.path.join(root, CWD[c]), n) != os.path.join(root, FILES[f]) for f, n, c in case['adds'])
    ctx.nt(spelled and any(x[3] and x[0] not in x[3] or len(x[3]) > 1 for k, x in want.items() if k.startswith('item ')))
    for _, n, c in case['adds']:
        ctx.label('added from ' + (CWD[c] or 'the root'))
    if len({f for f, _, _ in case['adds']}) < len(case['adds']):
        ctx.label('a file added twice')


CAMPAIGNS = [Campaign('spellings', case, check, 2500, 40000)]
