"""C15: bbappends attach to exactly the recipes they name, in any loading order."""
import os

import assign
import bb
import tree
from core import Campaign, ensure, new_stash, same, st

ID = 'C15'
TECHNIQUE = 'model-based property testing: generated recipe and append names against a literal wildcard matcher, values against a reference evaluator, and agreement of differently ordered loads'
RULE = ('One to four recipes and one to four appends with names cut, wildcarded and altered from each other, loaded in two interleavings; non-trivial if an append holds a wildcard or a special character, and at least one pair '
        'matches while another does not.')
ASSUMPTIONS = ['several appends of one recipe take effect in the order they were added', 'appends hold at least one statement', 'includes of an append are its own']

piece = st.sampled_from(['r', 's', 'rr', '1', '0', '.', '_', '-', '+', 'x', '(', ')', '[a]', '^', '$', '*', '{2}', '|', '\\', '?', 'lib', '1.0', '_2', 'R', ' ', 'ä', '#', '\n', ''])
first = st.sampled_from(['r', 'r', 's', 'lib', 'x', 'R', '1', '+', '^r', '(r)'])
stem = st.builds(lambda a, b: a + ''.join(b), first, st.lists(piece, max_size=4))
simple_stem = st.sampled_from(['r_1.0', 'r_1.1', 'r_10', 'r', 's_1.0', 'rr_1.0', 'r-x_1.0', 'r_1.0_2', 'r_1x0', 'r_1.0.1'])
# how an append's name derives from a recipe's
derive = st.fixed_dictionaries({'of': st.integers(0, 3), 'how': st.sampled_from(['same', 'same', 'version', 'slice', 'slice', 'insert', 'twice', 'look', 'cut', 'cutfront', 'extend', 'all', 'front', 'case', 'other', 'end']),
                                'a': st.integers(0, 12), 'b': st.integers(0, 12), 'other': stem})
vals = assign.stmt.filter(lambda s: s.get('over', '') in ('', 'qemux86'))
body = st.lists(vals, min_size=1, max_size=3)
place = st.sampled_from(['l/recipes', 'l/recipes', 'm/recipes-a', 'm/r_1.0', 'n'])
case = st.fixed_dictionaries({
    'recipes': st.lists(st.tuples(place, st.one_of(simple_stem, stem), body), min_size=1, max_size=4, unique_by=lambda t: (t[0], t[1])),
    'appends': st.lists(st.tuples(place, derive, body, st.one_of(st.none(), body)), min_size=1, max_size=4),
    'mix': st.tuples(*[st.lists(st.integers(0, 8), min_size=4, max_size=4)] * 2), 'fin': st.booleans(), 'pad': bb.PADS})


def derived(d, stems):
    s = stems[d['of'] % len(stems)]
    a, b = sorted((d['a'] % (len(s) + 1), d['b'] % (len(s) + 1)))
    how = d['how']
    if how == 'version':
        return s.split('_')[0] + '_%'
    if how == 'slice':
        return s[:a] + '%' + s[b:]
    if how == 'insert':
        return s[:a] + '%' + s[a:]
    if how == 'twice':
        return s[:a // 2] + '%' + s[(a + 1) // 2:a] + '%' + s[b:]
    if how == 'look':
        c = {'.': 'x', 'x': '.', '+': '', '1': '0', 'r': '.', '_': '-', '-': '_', '0': '?', 's': '*'}
        return s[:a] + c.get(s[a:a + 1], '') + s[a + 1:]
    if how == 'cut':
        return s[:b] or s
    if how == 'cutfront':
        return s[a:] if s[a:] and s[a] != '.' else s
    if how == 'extend':
        return s + ['1', '.', '_2', 'x', '%', '_%'][a % 6]
    if how == 'all':
        return '%'
    if how == 'front':
        return '%' + s[a:]
    if how == 'end':
        return s[:b] + '%'
    if how == 'case':
        return s.swapcase()
    if how == 'other':
        return d['other']
    return s


def interleave(recs, apps, where):
    """appends keep their order, recipes are put in between"""
    res = list(apps)
    for r, w in zip(recs, where):
        res.insert(w % (len(res) + 1), r)
    return res


def report(stash, paths):
    res = {}
    for p in paths:
        res[p] = (sorted(set(stash.GetLinksForFile(p))), stash.ExpandVar(filename=p), [(x.Origin, x.InFileLine) for x in stash.GetItemsFor(filename=p)])
    return res


def check(case, ctx):
    recs, apps, bodies, extra = [], [], {}, {}
    for d in ('l', 'm', 'n'):
        ctx.write(d + '/conf/layer.conf', '')
    stems = [s for _, s, _ in case['recipes']]
    for where, s, b in case['recipes']:
        p = ctx.write('%s/%s.bb' % (where, s), bb.pad(case['pad']) + ''.join(assign.render(x) for x in b))
        recs.append(p)
        bodies[p] = b
    for i, (where, d, b, inc) in enumerate(case['appends']):
        s = derived(d, stems)
        if s.startswith('.') or '/' in s or not s:
            s = 'r'
        rel = '%s/%s.bbappend' % (where, s)
        p = ctx.path(rel)
        if p in apps:
            continue
        text = ''.join(assign.render(x) for x in b)
        bodies[p] = list(b)
        if inc:
            extra[p] = ctx.write('%s/own%d.inc' % (where, i), ''.join(assign.render(x) for x in inc))
            text += 'require own%d.inc\n' % i
            bodies[p] = list(b) + list(inc)
        ctx.write(rel, text)
        apps.append(p)

    def base(p):
        return os.path.splitext(os.path.basename(p))[0]
    applies = {r: [a for a in apps if tree.matches(base(a), base(r))] for r in recs}
    lone = sorted(a for a in apps if not any(a in v for v in applies.values()))
    seen = []
    for mix in case['mix']:
        order = interleave(recs, apps, mix)
        stash = new_stash()
        for p in order:
            stash.AddFile(p)
        info = [os.path.relpath(p, ctx.dir) for p in order]
        if case['fin']:
            stash.Finalize()
        same('appends without recipe', sorted(stash.GetLoneAppends()), lone, info)
        for r in recs:
            links = set(stash.GetLinksForFile(r))
            same('appends of %r' % os.path.basename(r), sorted(x for x in links if x.endswith('.bbappend')), sorted(applies[r]), info)
            if not case['fin']:
                ensure(not links - set(applies[r]), 'linked before finalising to', sorted(links))
            else:
                same('links of %r' % os.path.basename(r), sorted(links), sorted(applies[r] + [extra[a] for a in applies[r] if a in extra]), info)
                want = assign.evaluate([s for p in [r] + applies[r] for s in bodies[p]])
                got = stash.ExpandVar(filename=r)
                for k, v in want.items():
                    same('entries of %s in %r' % (k, os.path.basename(r)), got.get(k), v, info)
                own = [x.Line for x in stash.GetItemsFor(filename=r) if x.Origin == r]
                pos = [[x.Line for x in stash.GetItemsFor(filename=r) if x.Origin in (a, extra.get(a))] for a in applies[r]]
                for before, after in zip([own] + pos, pos):
                    ensure(max(before) < min(after), 'lines of an append are not behind what it is appended to', info, [own] + pos)
        for a in apps:
            ensure(not {x for x in stash.GetLinksForFile(a)} & set(recs), 'append linked to its recipe')
        if case['fin']:
            seen.append((stash.GetRecipes(), report(stash, recs + apps)))
    if case['fin'] and len(seen) == 2:
        same('report after loading in another order', seen[1], seen[0])
    hits = sum(len(v) for v in applies.values())
    ctx.nt(0 < hits < len(recs) * len(apps) and any(c in base(a) for a in apps for c in '%()[]^$*{|\\?+'))
    ctx.label('matching pairs: %d' % hits)
    ctx.label('lone' if lone else 'none lone')
    if extra:
        ctx.label('append with include')


CAMPAIGNS = [Campaign('names', case, check, 4000, 70000)]
