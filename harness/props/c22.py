"""C22: package names, dynamic packages and recipe kinds match the definitions."""
import re

from core import Campaign, default_constants, ensure, new_stash, same, st
from core import CONSTANTS

ID = 'C22'
TECHNIQUE = 'model-based property testing: statements composed of known names and patterns, spread over recipe, included file, class and append, against a direct evaluation with the standard regular expression module'
RULE = ('Two to nine statements over up to four linked files and an unrelated recipe; non-trivial if a name, pattern or kind stems from a linked file or an unlinked file would change the answer.')
ASSUMPTIONS = ['referenced variables are assigned once and plainly', 'package variables are not removed from', 'dynamic package patterns are valid regular expressions']

STD = ['', '-ptest', '-src', '-dbg', '-staticdev', '-dev', '-doc', '-locale']
PKG = ['${PN}', '${PN}-x', '${PN}-doc', 'x', 'lib${PN}1', '${BPN}-z', 'y-${PV}', '${FOO}', '${PN}-${FOO}', '${PN}${PN}', '${PN}-${UNKNOWN}', '${PACK}', 'a+b', '-', '${PN}-${BAR}', 'bar${prefix}']
PAT = ['^${PN}-x.*', '${PN}-.*', 'kernel-module-.*', '^x$', 'x', 'a|b', '[a-c]+-y', '${FOO}-.*', '.*', '^${PN}-locale-.*$', 'y.', '(x|y)-z', '^', '${BPN}-m?', 'x{2}', '^lib\\+\\+.*', '^${PN}-\\d+$', 'y\\.z']
ASK = ['x', 'xx', '${PN}', '${PN}-x', '${PN}-x1', '${PN}-locale-de', 'kernel-module-a', 'ab-y', 'b', 'other', '', 'foo-1', '${FOO}-q', 'y-z', 'a-y1', '${BPN}-', 'X', 'n${PN}-x', 'lib++-x', 'lib+', '${PN}-12', '${PN}-d', 'y.z', 'yxz']
OPS = [' = ', ' += ', ' ?= ', ' .= ', ' =+ ', ' := ', ':append = ', ':prepend = ', ':append:qemux86 = ', ':class-native = ', ' ??= ', '=']
file = st.sampled_from([0, 0, 1, 2, 3, 4])
wrap = st.sampled_from([' ', '  ', ' \\\n    ', '\t', ' \\\n'])


def stmt(kind, *parts):
    return st.tuples(st.just(kind), file, *parts).map(list)


images = default_constants()['images']
stmts = st.one_of(
    stmt('pkg', st.sampled_from(['PACKAGES', 'PACKAGES', 'PACKAGE_BEFORE_PN']), st.sampled_from(OPS), st.lists(st.sampled_from(PKG), max_size=4), wrap),
    stmt('pkg', st.sampled_from(['PACKAGES', 'PACKAGES', 'PACKAGE_BEFORE_PN']), st.sampled_from(OPS), st.lists(st.sampled_from(PKG), max_size=4), wrap),
    stmt('dyn', st.just('PACKAGES_DYNAMIC'), st.sampled_from(OPS), st.lists(st.sampled_from(PAT), max_size=3), wrap),
    stmt('image', st.sampled_from(images['known-variables'] + ['MY_IMAGE']), st.sampled_from(OPS), st.lists(st.sampled_from(['a', 'packagegroup', 'image']), max_size=2), wrap),
    stmt('inherit', st.sampled_from(['inherit ', 'inherit ', 'inherit_defer ', 'INHERIT += ']), st.lists(st.sampled_from(images['known-classes'] + ['packagegroup', 'packagegroup', 'images', 'native', 'packagegroup-x', 'PackageGroup', 'my-image', 'core', 'k2', 'IMAGE']), min_size=1, max_size=3), wrap),
    stmt('noise', st.sampled_from(['PACKAGES_FOO = "x"\n', 'PACKAGES[doc] = "p"\n', 'IMAGE_INSTALLED = "1"\n', 'EXTRA = "PACKAGES inherit image IMAGE_INSTALL"\n', '# inherit image\n', 'IMAGE_INSTALL[x] = "1"\n', 'unset IMAGE_INSTALL\n',
                                   'do_image() {\n    inherit image\n}\n', 'export IMAGE_FEATURESX\n', 'PACKAGES_DYNAMIC_X = ".*"\n', 'inherited = "image"\n'])))
case = st.fixed_dictionaries({'stmts': st.lists(stmts, min_size=2, max_size=9), 'recipe': st.sampled_from(['foo_1.0.bb', 'foo.bb', 'foo-bar_git.bb', 'nativesdk-foo_2.bb', 'a-native_1.bb']), 'links': st.integers(0, 15),
                              'inc': st.sampled_from(['require x.inc\n', 'include x.inc\n']), 'custom': st.booleans()})


def check(case, ctx):
    pn = case['recipe'].split('.bb')[0].split('_')[0]
    pv = (case['recipe'][:-3].split('_') + ['1.0'])[1]
    bpn = pn[10:] if pn.startswith('nativesdk-') else pn[:-7] if pn.endswith('-native') else pn
    links = case['links']
    # a class does not inherit itself
    stmts = [s for s in case['stmts'] if not (s[0] == 'inherit' and s[1] == 2 and 'k2' in s[3])]
    custom = ['my-image'] if case['custom'] else []
    if case['custom']:
        CONSTANTS.AddConstants({'images': {'known-classes': custom, 'known-variables': ['MY_IMAGE']}})
    files = ['l/recipes/' + case['recipe'], 'l/recipes/x.inc', 'l/classes/k2.bbclass', 'l/recipes/' + case['recipe'] + 'append', 'l/recipes/other_1.0.bb']
    text = ['FOO = "foo"\nBAR = "${FOO}r"\nPACK = "p1 p2"\n', '', '', '', 'FOO = "foo"\nBAR = "${FOO}r"\nPACK = "p1 p2"\n']
    scope = {0}
    if links & 1:
        text[0] += case['inc']
        scope.add(1)
    if links & 2:
        text[0] += 'inherit k2\n'
        scope.add(2)
    if links & 4:
        scope.add(3)
    for s in stmts:
        kind, n = s[:2]
        if kind == 'noise':
            text[n] += s[2]
        elif kind == 'inherit':
            if 'k2' in s[3]:
                if n in scope:
                    scope.add(2)
            arg = ' '.join(s[3]) if not s[4].strip() else s[4].join(s[3])
            text[n] += s[2] + (arg if s[2].startswith('inherit') else '"%s"' % arg) + '\n'
        else:
            text[n] += '%s%s"%s"\n' % (s[2], s[3], s[5].join(s[4]))
    if links & 8:
        text[4] += 'require x.inc\n'
    # links are settled now
    if any(s[0] == 'inherit' and 'k2' in s[3] and s[1] == 1 for s in stmts) and 1 in scope:
        scope.add(2)
    if any(s[0] == 'inherit' and 'k2' in s[3] and s[1] == 3 for s in stmts) and 3 in scope:
        scope.add(2)
    paths = [ctx.write(f, t) for f, t in zip(files, text)]
    ctx.write('l/conf/layer.conf', '')
    stash = new_stash()
    stash.AddFile(paths[0])
    if 3 in scope:
        stash.AddFile(paths[3])
    alone = links & 8 or any(s[0] == 'inherit' and 'k2' in s[3] and s[1] == 4 for s in stmts)
    if not alone:
        stash.AddFile(paths[4])
    stash.Finalize()
    info = ['%s: %r' % (f, t) for f, t in zip(files, text)] + ['in scope: %r' % sorted(scope)]
    ref = {'FOO': 'foo', 'BAR': 'foor', 'PACK': 'p1 p2', 'BPN': bpn, 'PV': pv, 'prefix': default_constants()['sets']['base'].get('prefix', '${prefix}')}

    def expand(t, more=None):
        return re.sub(r'\$\{(\w+)\}', lambda m: {**ref, **(more or {})}.get(m.group(1), m.group(0)), t)
    for strip in (False, True):
        want = set()
        for me in (pn, '${PN}'):
            want |= {me + x for x in STD}
            for s in stmts:
                if s[0] == 'pkg' and s[1] in scope:
                    for e in s[4]:
                        want |= set(expand(e).replace('${PN}', '' if strip else me).split())
                        if strip and not expand(e).replace('${PN}', ''):
                            want.add('')    # the name of the recipe itself, stripped
        same('package names%s' % (' stripped' if strip else ''), stash.GetValidPackageNames(paths[0], strippn=strip), want, *info)
    dyn = set()
    for s in stmts:
        if s[0] == 'dyn' and s[1] in scope:
            dyn |= {expand(e, {'PN': pn}) for e in s[4]}
    same('dynamic package patterns', stash.GetPackagesDynamic(paths[0]), dyn, *info)
    ensure(all(stash.GetPackagesDynamic(paths[0])), 'empty pattern')
    for a in ASK:
        name = expand(a, {'PN': pn})
        same('%r is a dynamic package' % name, stash.IsDynamicPackage(paths[0], a), any(re.match(p, name) for p in dyn), *info)

    def kinds(scope):
        inh = {c for s in stmts if s[0] == 'inherit' and s[1] in scope for c in s[3]}
        var = {s[2] for s in stmts if s[0] == 'image' and s[1] in scope}
        return (bool(inh & set(images['known-classes'] + custom)) or bool(var & set(images['known-variables'] + (['MY_IMAGE'] if case['custom'] else []))), 'packagegroup' in inh)
    got = (stash.IsImage(paths[0]), stash.IsPackageGroup(paths[0]))
    same('is an image, is a package group', got, kinds(scope), *info)
    same('same again', (stash.IsImage(paths[0]), stash.IsPackageGroup(paths[0])), got)
    if not alone:
        same('other recipe is an image, is a package group', (stash.IsImage(paths[4]), stash.IsPackageGroup(paths[4])), kinds({4}), *info)
    ctx.nt(kinds(scope) != kinds({0}) or kinds(set(range(5))) != kinds(scope) or any(s[0] in ('pkg', 'dyn') and s[1] and s[4] for s in stmts))
    ctx.label('image' if got[0] else 'no image')
    ctx.label('package group' if got[1] else 'no package group')


CAMPAIGNS = [Campaign('recipes', case, check, 8000, 70000)]
