"""C29: GetFiles finds the matching files beside the files of a recipe."""
import fnmatch
import os

from core import Campaign, new_stash, same, st

ID = 'C29'
TECHNIQUE = 'model-based property testing: generated directory layouts and patterns against a walk over the written tree'
RULE = 'A recipe with include, class and appends in up to four directories, other recipes, and files in and around their subdirectories; non-trivial if some files match and some files of the same name one directory up, down or beside do not.'
ASSUMPTIONS = ['patterns are file globs without a path separator', 'files of shared classes count as files of every recipe inheriting them']

DIRS = ['l/recipes', 'l/other', 'l/re[ci]pes', 'm/a', 'm/a/b', 'm/x+y', 'm/a[b]']
PLACES = st.sampled_from([*DIRS, *DIRS[:2] * 4])
SUBS = ['', 'files', 'Files', 'files', 'r', 'r-1.0', 'files/arm', '.hid', 'b', 'c', '[x]', 'd e']
NAMES = ['a.patch', 'b.patch', 'a.patch.bak', '.h.patch', 'defconfig', 'a.cfg', 'A.PATCH', 'p[0].patch', 'ab', 'file 1', 'r_1.0.bb']
PATTERNS = ['*', '**', '**.patch', '*.patch', 'a*', '?.patch', '[ab].patch', '[!a]*', 'a.patch', 'none', '.h*', '*.cfg', 'p[[]0].patch', '*cfg', '*.bb', 'defconfig', '* *', 'files', 'a?']
src = st.sampled_from(['', 'V = "1"\n', '# x\n', 'SRC_URI = "file://a.patch"\n', 'SRC_URI += "file://b"\n', 'SRC_URI:append:arm = " file://c"\n', 'SRC_URI[md5sum] = "x"\n', 'SRC_URI_x = "file://n"\n', 'do_x() {\n  b\n}\n'])
CASE = st.fixed_dictionaries({
    'where': PLACES, 'text': st.lists(src, min_size=1, max_size=3), 'inc': st.one_of(st.none(), st.tuples(PLACES, src).map(list)), 'class': st.one_of(st.none(), src),
    'appends': st.lists(st.tuples(PLACES, src).map(list), max_size=2, unique_by=lambda t: t[0]), 'other': st.one_of(st.none(), st.fixed_dictionaries({'where': PLACES, 'text': src, 'class': st.booleans()})),
    'files': st.lists(st.tuples(PLACES, st.sampled_from(SUBS), st.lists(st.sampled_from(NAMES), min_size=1, max_size=4), st.sampled_from([False, False, False, True])).map(list), max_size=20), 'patterns': st.lists(st.sampled_from(PATTERNS), min_size=1, max_size=4),
    'ask': st.integers(0, 4), 'deep': st.one_of(st.none(), st.tuples(PLACES, src, st.integers(0, 9)).map(list)), 'dirs': st.lists(st.tuples(PLACES, st.sampled_from(['files/a.patch', 'c/ab', 'b/files'])).map(list), max_size=2), 'early': st.booleans()})


def matches(pattern, name):
    return fnmatch.fnmatchcase(name, pattern) and (not name.startswith('.') or pattern.startswith('.'))


def check(case, ctx):
    ctx.write('l/conf/layer.conf', '')
    ctx.write('m/conf/layer.conf', '')
    texts, links = {}, {}

    def put(rel, text):
        texts[ctx.path(rel)] = text
        return ctx.write(rel, text)
    text = ''.join(case['text'])
    # a class and an include are found beside the recipe
    if case['class'] is not None:
        text = 'inherit k\n' + text
        put(case['where'] + '/classes/k.bbclass', case['class'])
    if case['inc']:
        inc = put(case['inc'][0] + '/i.inc', case['inc'][1])
        text = 'require %s\n' % os.path.relpath(inc, ctx.path(case['where'])) + text
    recipe = put(case['where'] + '/r_1.0.bb', text)
    added = [recipe] + [put(d + '/r_%.bbappend', t) for d, t in case['appends']]
    links[recipe] = [p for p in texts if p != recipe]
    if case['deep']:
        where, text, n = case['deep']
        parent = list(texts)[n % len(texts)]
        deep = put(where + '/deep.inc', text)
        put(os.path.relpath(parent, ctx.dir), 'require %s\n' % os.path.relpath(deep, os.path.dirname(parent)) + texts[parent])
        links.setdefault(parent, []).append(deep)
        if parent != recipe:
            links[recipe].append(deep)
    if case['other']:
        added.append(put(case['other']['where'] + '/s_1.0.bb', ('inherit k\n' if case['other']['class'] else '') + case['other']['text']))
    target = ctx.write('far/away/target', '')
    for d, sub, name, link in [(d, sub, n, x) for d, sub, ns, x in case['files'] for n in ns]:
        p = os.path.join(d, sub, name)
        if not os.path.exists(ctx.path(p)):
            if link:
                os.makedirs(os.path.dirname(ctx.path(p)), exist_ok=True)
                os.symlink(target, ctx.path(p))
            else:
                ctx.write(p, '')
    for d, name in case['dirs']:
        os.makedirs(ctx.path(os.path.join(d, name)), exist_ok=True) if not os.path.exists(ctx.path(os.path.join(d, name))) else None
    stash = new_stash()
    asked = recipe if case['ask'] else sorted(texts)[0]
    for n, p in enumerate(added):
        stash.AddFile(p)
        if case['early']:
            stash.GetFiles(recipe, case['patterns'][0])
    stash.Finalize()
    # files pulled in by a file that assigns SRC_URI take part
    partof = [p for p in [asked] + links.get(asked, []) if any(line.startswith('SRC_URI') and line[7:8] in ' +:_' for line in texts[p].split('\n'))]
    dirs = {os.path.dirname(q) for p in partof for q in [p] + links.get(p, []) if texts[q]}
    info = ['%s: %r' % (os.path.relpath(p, ctx.dir), t) for p, t in texts.items()] + ['asked with %s' % os.path.relpath(asked, ctx.dir)]
    some = near = False
    tree = [os.path.join(d, n) for d, ds, fs in os.walk(ctx.dir) for n in ds + fs]
    for pattern in case['patterns']:
        want = sorted({p for p in tree if os.path.dirname(os.path.dirname(p)) in dirs and not os.path.basename(os.path.dirname(p)).startswith('.') and matches(pattern, os.path.basename(p))})
        got = stash.GetFiles(asked, pattern)
        same('files of %r' % pattern, [os.path.relpath(p, ctx.dir) for p in got], [os.path.relpath(p, ctx.dir) for p in want], *info)
        some |= bool(want)
        near |= bool({os.path.basename(p) for p in tree if p not in want} & {os.path.basename(p) for p in want})
    ctx.nt(some and near)
    ctx.label('SRC_URI' if partof else 'no SRC_URI')
    ctx.label('found' if some else 'nothing found')


CAMPAIGNS = [Campaign('search', CASE, check, 10000, 90000)]
