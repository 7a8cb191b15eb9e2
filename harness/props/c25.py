"""C25: stashes are independent of each other."""
import os

import core
import tree
from core import Campaign, new_stash, same, st
from props.c13 import QUERIES, ask

ID = 'C25'
TECHNIQUE = 'stateful differential property testing: interleaved histories of several stashes over common files; every answer of each stash compared to the one given when its own steps run alone'
RULE = ('Histories of six to twenty steps over two or three stashes with different options, that share files, some of them edited in between; non-trivial if at least two stashes hold the same file and one of them is changed or asked after the other.')
ASSUMPTIONS = ['items belong to one stash only', 'layers bring no distro or machine configuration, which would change the constants']

TEXT = st.one_of(st.sampled_from(tree.SIMPLE), st.sampled_from(['A = "${@bb.utils.contains(\'a\', \'b\', \'yes\', \'no\', d)}"\n', 'B = "${@oe.utils.conditional(\'a\', \'b\', \'${A}\', \'other\', d)}"\n', 'A:append = " x"\n', 'A_append = " y"\n', 'V = "${@bb.utils.contains(\'a\', \'b\', \'yes\', \'no\', d)}"\n', 'W = "${@foo(d)} ${A}"\n', 'PN = "pn"\n', 'unset A\n', 'A_x = "1"\n',
                                                            'PACKAGES =+ "p-${@oe.utils.conditional(\'X\', \'1\', \'pos\', \'neg\', d)}"\n', 'SRC_URI:append = " git://z;name=${@bb.utils.contains(\'a\', \'b\', \'t\', \'f\', d)}"\n']))
opts = st.fixed_dictionaries({'negative_inline': st.booleans(), 'new_style_override_syntax': st.booleans()})
who = st.integers(0, 2)
step = st.one_of(*[st.tuples(st.just('add'), who, st.integers(0, 9))] * 3, *[st.tuples(st.just('q'), who, st.sampled_from(QUERIES + ['everything', 'terms', 'terms', 'finger', 'builtin']), st.integers(0, 9))] * 3, st.tuples(st.just('fin'), who),
                 st.tuples(st.just('new'), who, opts), st.tuples(st.just('remove'), who, st.integers(0, 30)), st.tuples(st.just('spoil'), who, st.integers(0, 30), st.sampled_from(['line', 'from', 'list', 'raw', 'result'])),
                 st.tuples(st.just('append'), who, st.integers(0, 3)), st.tuples(st.just('edit'), st.none(), st.integers(0, 9), TEXT))
start = st.lists(st.tuples(st.just('add'), st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=5)
case = st.fixed_dictionaries({'start': start, 'proj': tree.project(text=TEXT, size=4, files=(2, 6), lo=1), 'opts': st.lists(opts, min_size=3, max_size=3), 'steps': st.lists(step, min_size=6, max_size=20), 'end': st.lists(st.sampled_from(QUERIES), min_size=2, max_size=4, unique=True)})


def everything(stash):
    return [[os.path.basename(x.Origin or ''), x.InFileLine, x.Line, sorted(map(os.path.basename, x.IncludedFrom)), str(x), core.canon(repr(sorted(x.GetAttributes().items(), key=lambda i: i[0]))) if x.CLASSIFIER != 'Inherit' else '',
             x.get_items() if hasattr(x, 'get_items') else None] for x in stash.GetItemsFor()]


class Player:
    def __init__(self, options, paths, donor):
        self.paths, self.donor = paths, donor
        self.new(options)

    def new(self, options):
        self.options = options
        self.stash = new_stash(**options)
        self.pool = []

    def do(self, s, end=()):
        if s[0] == 'new':
            self.new(s[2])
        elif s[0] == 'add':
            self.pool += self.stash.AddFile(self.paths[s[2] % len(self.paths)])
        elif s[0] == 'fin':
            self.stash.Finalize()
        elif s[0] == 'append':
            # items of their own, from a stash not used for anything else
            got = new_stash(**self.options).AddFile(self.donor[s[2] % len(self.donor)])
            self.stash.Append(got)
            self.pool += got
        elif s[0] == 'remove':
            if self.pool:
                self.stash.Remove(self.pool.pop(s[2] % len(self.pool)))
        elif s[0] == 'spoil':
            if not self.pool:
                return None
            x = self.pool[s[2] % len(self.pool)]
            if s[3] == 'line':
                x.Line += 1000
            elif s[3] == 'from':
                x.IncludedFrom = {'/spoiled'}
            elif s[3] == 'raw':
                x.RealRaw = 'spoiled'
            elif s[3] == 'result':
                got = self.stash.GetItemsFor()
                got.clear()
            else:
                got = x.get_items() if hasattr(x, 'get_items') else None
                if isinstance(got, list):
                    got.append('spoiled')
        elif s[0] == 'q':
            f = self.paths[s[3] % len(self.paths)]
            if s[2] == 'everything':
                return everything(self.stash)
            if s[2] == 'terms':
                return [self.stash.ExpandTerm(f, t) for t in ('${A} ${B} ${V} ${W}', '${C}${PN}${FOO}', '${FILE}')] + [self.stash.ExpandTerm(f, x.VarValueStripped, objref=x) for x in self.stash.GetItemsFor(filename=f, classifier='Variable')]
            if s[2] == 'finger':
                return self.stash.FingerPrint
            if s[2] == 'builtin':
                return [self.stash.GuessRecipeName(f), self.stash.GuessRecipeVersion(f), self.stash.GetLayerRoot(f), self.stash.FindLocalOrLayer('i0.inc', os.path.dirname(f)), self.stash.GetScrComponents('git://${GNU_MIRROR};name=x')]
            return ask(self.stash, s[2], f)
        else:
            res = [everything(self.stash), self.stash.FingerPrint]
            return res + [ask(self.stash, kind, f) for kind in end for f in self.paths[:3]] + [self.do(['q', 0, 'terms', 0])]
        return None


def check(case, ctx):
    paths = tree.write(case['proj'], ctx)
    donor = [ctx.write('m/recipes/r_1.0.bbappend', 'A += "donor"\nPACKAGES += "dp"\n'), ctx.write('m/conf/d.conf', 'B = "donor"\nIMAGE_INSTALL = "1"\n'), ctx.write('m/classes/c.bbclass', 'inherit packagegroup\n')]
    steps = [list(s) for s in case['start'] + case['steps']] + [['end', k] for k in (0, 1, 2)]

    def play(only=None):
        core.reset_sut()
        players = {}
        res = []
        tree.write(case['proj'], ctx)
        for s in steps:
            k = s[1]
            if s[0] == 'edit':
                # seen by whoever adds the file later on
                with open(paths[s[2] % len(paths)], 'a' if s[2] < 5 else 'w') as out:
                    out.write(s[3])
                continue
            if only is not None and k != only:
                continue
            if k not in players:
                players[k] = Player(case['opts'][k], paths, donor)
            res.append((k, s, players[k].do(s, case['end'])))
        return res
    together = play()
    for k in (0, 1, 2):
        alone = play(k)
        for (_, s, want), (_, _, got) in zip(alone, [x for x in together if x[0] == k]):
            same('answer of stash %d to %s between other stashes' % (k, s[:3]), got, want, *[repr(s) for s in steps])
    adds = [(s[1], s[2] % len(paths)) for s in steps if s[0] == 'add']
    files = [f for f in {f for _, f in adds} if len({k for k, g in adds if g == f}) > 1]
    ctx.nt(bool(files) and any(s[0] in ('spoil', 'remove', 'append', 'q', 'fin') for s in steps[[i for i, s in enumerate(steps) if s[0] == 'add'][0]:]))
    for s in steps:
        ctx.label(s[0])


CAMPAIGNS = [Campaign('histories', case, check, 4000, 60000)]
