"""C13: query results never go stale over any history of changes."""
import os

import tree
from common import describe
from core import CONSTANTS, Campaign, new_stash, reset_constants, same, st

ID = 'C13'
TECHNIQUE = 'stateful property testing: generated histories of changes and queries; each answer compared to a fresh stash that replays only the changes and asks the question first'
RULE = ('Histories of 4 to 16 steps (add a file, append or remove items, finalise, add, remove or override constants, one of 18 kinds of queries) on a generated project; non-trivial if a query is asked before and after a change and its answer differs.')
ASSUMPTIONS = ['items are changed through the stash only (no assignment to item attributes)', 'files on disk stay as they are during a history']

QUERIES = ['items', 'items', 'vars', 'nolink', 'attr', 'links', 'links', 'recipes', 'lone', 'conf', 'classes', 'dynamic', 'resources', 'packages', 'packages_strip', 'isdynamic', 'image',
           'group', 'files', 'expandvar', 'expandvar', 'expandterm', 'reduce', 'inclfrom', 'uri', 'helpers']
TEXT = ['A = "a"\n', 'A += "b"\n', 'B = "${A} x"\n', 'PACKAGES += "${PN}-q"\n', 'PACKAGES = "z-z"\n', 'SRC_URI = "file://a;name=n"\n', 'SRC_URI += "git://x;name=m"\n', 'IMAGE_INSTALL = "x"\n',
        'inherit packagegroup\n', 'inherit image\n', 'PACKAGES_DYNAMIC += "^${PN}-x.*"\n', 'PACKAGES_DYNAMIC = "^r-y"\n', 'unset A\n', 'A:append = " c"\n', 'A:remove = "a"\n', 'PN = "other"\n', '# note\n', 'do_x() {\n}\n']
CONST = [('Add', {'images': {'known-variables': ['A', 'PACKAGES'], 'known-classes': ['c', 'packagegroup']}}), ('Remove', {'images': {'known-variables': ['IMAGE_INSTALL', 'A']}}),
         ('Remove', {'images': {'known-classes': ['image', 'c', 'packagegroup']}}), ('Override', {'images': {'known-variables': ['SRC_URI']}}),
         ('Add', {'replacements': {'mirrors': {'git://x': 'svn://y/;name=k', 'file://': 'http://'}}}), ('Override', {'replacements': {'mirrors': {'git://x': 'hg://z', '://': '://m/'}}}),
         ('Remove', {'replacements': {'mirrors': ['git://x', '://']}}), ('Override', {'sets': {'base': {'A': 'base', 'PN': 'bpn', 'B': '${A}b'}}}), ('Override', {'sets': {'base': {'A': 'other'}}}),
         ('Remove', {'sets': {'base': ['A', 'PN']}}), ('Add', {'replacements': {'distros': ['dd'], 'machines': ['mm']}}), ('Remove', {'replacements': {'distros': ['dd', 'remove']}}),
         ('Add', {'ignore': {'classes': ['c', 'd'], 'include': ['i.inc']}})]
step = st.one_of(
    st.tuples(st.just('add'), st.integers(0, 12)), st.tuples(st.just('add'), st.integers(0, 12)),
    st.tuples(st.just('append'), st.integers(0, 40), st.sampled_from([1, 1, 2, 3])), st.tuples(st.just('remove'), st.integers(0, 40), st.sampled_from([1, 1, 2])),
    st.tuples(st.just('const'), st.integers(0, 20)), st.tuples(st.just('final')), *[st.tuples(st.just('q'), st.integers(0, 3), st.integers(0, 12))] * 5)
case = st.fixed_dictionaries({'proj': tree.project(text=st.sampled_from(TEXT), size=4, files=(2, 6), lo=1),
                              'conf': st.booleans(), 'steps': st.lists(step, min_size=4, max_size=16), 'focus': st.integers(0, 5),
                              'kinds': st.lists(st.sampled_from(sorted(set(QUERIES))), min_size=2, max_size=4), 'last': st.lists(st.tuples(st.sampled_from(QUERIES), st.integers(0, 12)), max_size=3)})


def where(x):
    return [os.path.basename(x.Origin or ''), x.InFileLine, x.Line, sorted(map(os.path.basename, x.IncludedFrom)), describe(x)]


def ask(stash, kind, f):
    if kind == 'items':
        return [where(x) for x in stash.GetItemsFor(filename=f)]
    if kind == 'vars':
        return [where(x) for x in stash.GetItemsFor(classifier='Variable')]
    if kind == 'nolink':
        return [where(x) for x in stash.GetItemsFor(filename=f, nolink=True)]
    if kind == 'attr':
        return [where(x) for x in stash.GetItemsFor(filename=f, classifier='Variable', attribute='VarName', attributeValue=['A', 'PACKAGES'])]
    if kind == 'reduce':
        return [where(x) for x in stash.GetItemsFor().reduce(filename=f, attribute='VarName')]
    if kind == 'inclfrom':
        return [where(x) for x in stash.GetItemsFor()]
    if kind == 'links':
        return sorted(stash.GetLinksForFile(f))
    if kind == 'recipes':
        return list(stash.GetRecipes())
    if kind == 'lone':
        return list(stash.GetLoneAppends())
    if kind == 'conf':
        return list(stash.GetConfFiles())
    if kind == 'classes':
        return list(stash.GetBBClasses())
    if kind == 'dynamic':
        return sorted(stash.GetPackagesDynamic(f))
    if kind == 'resources':
        return sorted(stash.GetValidNamedResources(f))
    if kind == 'packages':
        return sorted(stash.GetValidPackageNames(f))
    if kind == 'packages_strip':
        return sorted(stash.GetValidPackageNames(f, strippn=True))
    if kind == 'isdynamic':
        return [stash.IsDynamicPackage(f, n) for n in ('r-x1', 'r-y', 's-x', '${PN}-x')]
    if kind == 'image':
        return stash.IsImage(f)
    if kind == 'group':
        return stash.IsPackageGroup(f)
    if kind == 'files':
        return stash.GetFiles(f, '*.patch')
    if kind == 'expandvar':
        return stash.ExpandVar(filename=f)
    if kind == 'expandterm':
        return stash.ExpandTerm(f, '${A}-${B}-${PN}-${PV}')
    if kind == 'uri':
        return [stash.GetScrComponents(t) for t in ('git://x/a;name=b;c=d', 'file://q', 'http://h/f.tgz')]
    if kind == 'helpers':
        return [[x.GetDistroEntry(), x.GetMachineEntry()] for x in stash.GetItemsFor(filename=f, classifier=['Variable', 'Function'])]
    raise KeyError(kind)


class Run:
    """one stash going through the changes of a history"""

    def __init__(self, paths, donor):
        other = new_stash()
        self.donor = [x for p in donor for x in other.AddFile(p)]
        self.paths = paths
        self.stash = new_stash()
        self.pool = []       # items handed out by AddFile or appended, and not removed again
        self.spare = list(self.donor)

    def change(self, s):
        if s[0] == 'add':
            self.pool += self.stash.AddFile(self.paths[s[1] % len(self.paths)])
        elif s[0] == 'append':
            got = [self.spare.pop(s[1] % len(self.spare)) for _ in range(min(s[2], len(self.spare)))]
            if got:
                self.stash.Append(got[0] if len(got) == 1 else (tuple(got) if s[1] % 2 else got))
                self.pool += got
        elif s[0] == 'remove':
            got = [self.pool.pop(s[1] % len(self.pool)) for _ in range(min(s[2], len(self.pool)))]
            if got:
                self.stash.Remove(got[0] if len(got) == 1 else (tuple(got) if s[1] % 2 else got))
                self.spare += got
        elif s[0] == 'const':
            op, what = CONST[s[1] % len(CONST)]
            getattr(CONSTANTS, op + 'Constants')(what)
        else:
            self.stash.Finalize()


def check(case, ctx):
    proj = case['proj']
    paths = tree.write(proj, ctx)
    if case['conf']:
        ctx.write('l/conf/distro/dd.conf', '')
        paths.append(ctx.write('l/conf/x.conf', 'A = "conf"\n'))
    ctx.write('l/recipes/files/a.patch', '')
    ctx.write('l/classes/files/b.patch', '')
    donor = [ctx.write('m/recipes/r_1.0.bbappend', 'A += "donor"\nSRC_URI = "file://x;name=donor"\nPACKAGES += "dp"\nPACKAGES_DYNAMIC += "^s-x"\n'),
             ctx.write('m/conf/d.conf', 'B = "donor"\nIMAGE_INSTALL = "1"\n'), ctx.write('m/classes/c.bbclass', 'inherit packagegroup\nA:remove = "a"\n'),
             ctx.write('m/recipes/z_%.bbappend', 'A = "z"\n')]
    # files asked about: those of the project first, mostly the first recipe
    names = [paths[0]] * 3 + paths + donor[:2] + [ctx.path('l/none_1.bb')]
    reset_constants()
    run = Run(paths, donor)
    answers, changes = [], []
    for s in case['steps']:
        if s[0] == 'q':
            f = names[(s[2] + case['focus']) % len(names)] if s[2] % 2 else paths[0]
            kind = case['kinds'][s[1] % len(case['kinds'])]
            answers.append((len(changes), kind, f, ask(run.stash, kind, f)))
        else:
            run.change(s)
            changes.append(s)
    for kind, n in case['last']:
        f = names[n % len(names)]
        answers.append((len(changes), kind, f, ask(run.stash, kind, f)))
    # ask again what had been asked before
    for _, kind, f, _ in answers[:4]:
        answers.append((len(changes), kind, f, ask(run.stash, kind, f)))
    print_ = run.stash.FingerPrint
    # now, one after the other, the same questions without a history
    for n, kind, f, got in answers:
        reset_constants()
        fresh = Run(paths, donor)
        for s in changes[:n]:
            fresh.change(s)
        same('answer to %s for %s after %d changes' % (kind, os.path.basename(f), n), got, ask(fresh.stash, kind, f), changes[:n])
        if n == len(changes):
            same('fingerprint', print_, fresh.stash.FingerPrint)
    first = {}
    for n, kind, f, got in answers:
        if (kind, f) in first and first[kind, f] != got:
            ctx.nt()
            ctx.label('changed: ' + kind)
        first.setdefault((kind, f), got)


CAMPAIGNS = [Campaign('histories', case, check, 4500, 70000)]
