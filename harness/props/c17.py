"""C17: result lists behave like lists and never alter the stash."""
import copy
import os

import tree
from core import Campaign, ensure, new_stash, same, st

ID = 'C17'
TECHNIQUE = 'stateful model-based property testing: operation sequences on query results and lists derived from them, every list held against an ordinary list, the stash against its first answers'
RULE = ('Sequences of 5 to 30 list operations on several results of queries, slices, sums and copies of them, with queries in between; non-trivial if at least two lists that derive from each other are changed in place. Answers: two to ten queries of all kinds whose answers are changed in place before the same queries are asked again; non-trivial if at least three non-empty answers were changed.')
ASSUMPTIONS = ['append and remove take an item or a list, tuple or result list of items, the latter element by element (documented)']

n = st.integers(-7, 12)
h = st.integers(0, 9)
bound = st.one_of(st.none(), n)
sl = st.tuples(bound, bound, st.sampled_from([None, None, 1, 2, -1, -2])).map(list)
op = st.one_of(
    st.tuples(st.just('query'), st.integers(0, 5)),
    st.tuples(st.just('len'), h), st.tuples(st.just('get'), h, n), st.tuples(st.just('slice'), h, sl), st.tuples(st.just('iter'), h), st.tuples(st.just('in'), h, h, n),
    st.tuples(st.just('add'), h, h, st.sampled_from(['list', 'stash', 'tuple', 'gen'])), st.tuples(st.just('radd'), h, h, st.sampled_from(['list', 'list', 'self'])), st.tuples(st.just('iadd'), h, h, st.sampled_from(['list', 'stash', 'tuple', 'gen'])),
    st.tuples(st.just('append'), h, h, n), st.tuples(st.just('append_many'), h, h, st.sampled_from(['list', 'stash', 'tuple'])), st.tuples(st.just('extend'), h, h, st.sampled_from(['list', 'stash', 'tuple', 'gen'])),
    st.tuples(st.just('insert'), h, n, h, n), st.tuples(st.just('remove'), h, n), st.tuples(st.just('remove_many'), h, n, n, st.sampled_from(['list', 'stash', 'tuple'])), st.tuples(st.just('remove_none'), h, h, n),
    st.tuples(st.just('reduce'), h, st.integers(0, 5)), st.tuples(st.just('copy'), h, st.sampled_from(['copy', 'copy.copy', 'list', 'slice', 'ctor'])), st.tuples(st.just('set'), h, n, h, n), st.tuples(st.just('setslice'), h, sl, h),
    st.tuples(st.just('del'), h, n), st.tuples(st.just('delslice'), h, sl), st.tuples(st.just('pop'), h, bound), st.tuples(st.just('clear'), h), st.tuples(st.just('reverse'), h), st.tuples(st.just('mul'), h, st.integers(-1, 2)),
    st.tuples(st.just('index'), h, n), st.tuples(st.just('sort'), h), st.tuples(st.just('imul'), h, st.integers(0, 2)))
case = st.fixed_dictionaries({'proj': tree.project(files=(1, 3), size=5, lo=2), 'ops': st.lists(op, min_size=5, max_size=30)})
FILTERS = [{}, {'classifier': 'Variable'}, {'attribute': 'VarName', 'attributeValue': ['A', 'B']}, {'filename': 0}, {'filename': 0, 'nolink': True}, {'classifier': ['Function', 'Comment', 'Variable']}]


def check(case, ctx):
    paths = tree.write(case['proj'], ctx)
    stash = new_stash()
    for i in tree.tops(case['proj']):
        stash.AddFile(paths[i])
    stash.Finalize()
    everything = list(stash.GetItemsFor())
    ident = {id(x): '%s:%d' % (os.path.basename(x.Origin), x.InFileLine) for x in everything}

    def query(k):
        kw = dict(FILTERS[k % len(FILTERS)])
        if 'filename' in kw:
            kw['filename'] = paths[0]
        return kw
    first = [list(stash.GetItemsFor(**query(k))) for k in range(len(FILTERS))]
    sut = [stash.GetItemsFor(), stash.GetItemsFor(classifier='Variable')]
    mod = [list(x) for x in sut]
    kind = type(sut[0])
    changed = set()

    def new(s, m, what):
        ensure(isinstance(s, kind), '%s does not give a result list' % what, type(s))
        sut.append(s)
        mod.append(m)
        if len(sut) > 8:
            sut.pop(0)
            mod.pop(0)
            changed.clear()

    def wrap(i, how):
        """the contents of list i as another kind of iterable, for both sides"""
        if how == 'list':
            return list(sut[i]), list(mod[i])
        if how == 'tuple':
            return tuple(sut[i]), tuple(mod[i])
        if how == 'gen':
            return (x for x in list(sut[i])), (x for x in list(mod[i]))
        return sut[i], mod[i]

    def both(fs, fm, what):
        """apply to both, outcome or kind of error has to agree"""
        res = []
        for f in (fs, fm):
            try:
                res.append((None, f()))
            except (IndexError, ValueError, TypeError) as e:
                res.append((type(e).__name__, None))
        same(what + ': error', res[0][0], res[1][0])
        return res[0][1], res[1][1], res[0][0] is None

    def pick(i, k):
        return mod[i][k % len(mod[i])] if mod[i] else (everything[k % len(everything)] if everything else None)

    for o in case['ops']:
        name = o[0]
        i = o[1] % len(sut)
        s, m = sut[i], mod[i]
        if len(m) > 400:
            del s[10:]
            del m[10:]
        if name == 'query':
            new(stash.GetItemsFor(**query(o[1])), list(first[o[1] % len(FILTERS)]), 'query')
        elif name == 'len':
            same('length', len(s), len(m))
            same('truth', bool(s), bool(m))
        elif name == 'get':
            a, b, _ = both(lambda: s[o[2]], lambda: m[o[2]], 'index %d' % o[2])
            ensure(a is b, 'other item at index %d' % o[2])
        elif name == 'slice':
            new(s[slice(*o[2])], m[slice(*o[2])], 'slice')
        elif name == 'iter':
            ensure(all(x is y for x, y in zip(s, m)), 'iteration differs')
            ensure(all(x is y for x, y in zip(reversed(s), reversed(m))), 'reverse iteration differs')
        elif name == 'in':
            x = pick(o[2] % len(sut), o[3])
            same('membership', x in s, x in m)
            same('count', s.count(x), m.count(x))
        elif name == 'add':
            a, b = wrap(o[2] % len(sut), o[3])
            new(s + a, m + list(b), 'sum')
        elif name == 'radd':
            j = o[2] % len(sut)
            new((list(sut[j]) if o[3] == 'list' else sut[j]) + s, mod[j] + m, 'sum')
        elif name == 'iadd':
            a, b = wrap(o[2] % len(sut), o[3])
            s += a
            m += list(b)
            ensure(s is sut[i], '+= gives another list')
        elif name == 'append':
            x = pick(o[2] % len(sut), o[3])
            if x is not None:
                s.append(x)
                m.append(x)
        elif name == 'append_many':
            a, b = wrap(o[2] % len(sut), o[3])
            s.append(a)
            m.extend(list(b))
        elif name == 'extend':
            a, b = wrap(o[2] % len(sut), o[3])
            s.extend(a)
            m.extend(list(b))
        elif name == 'insert':
            x = pick(o[3] % len(sut), o[4])
            if x is not None:
                s.insert(o[2], x)
                m.insert(o[2], x)
        elif name == 'remove':
            if m:
                x = m[o[2] % len(m)]
                s.remove(x)
                m.remove(x)
        elif name == 'remove_none':
            x = pick(o[2] % len(sut), o[3])
            both(lambda: s.remove(x), lambda: m.remove(x), 'remove')
        elif name == 'remove_many':
            some = [m[k % len(m)] for k in {o[2] % len(m), o[3] % len(m)}] if m else []
            some = list({id(x): x for x in some}.values())
            s.remove(tuple(some) if o[4] == 'tuple' else kind(stash, some) if o[4] == 'stash' else some)
            for x in some:
                m.remove(x)
        elif name == 'reduce':
            kw = query(o[2])
            ensure(s.reduce(**kw) is s, 'reduce gives another list')
            keep = {id(x) for x in first[o[2] % len(FILTERS)]}
            want = {id(x): x for x in m if id(x) in keep}
            same('items left by reduce', sorted(ident[id(x)] for x in s), sorted(ident[k] for k in want))
            same('order left by reduce', [x.Line for x in s], sorted(x.Line for x in want.values()))
            m[:] = list(s)
        elif name == 'copy':
            how = o[2]
            t = s.copy() if how == 'copy' else copy.copy(s) if how == 'copy.copy' else kind(stash, list(s)) if how == 'list' else kind(stash, s) if how == 'ctor' else s[:]
            new(t, list(m), 'copy')
        elif name == 'set':
            x = pick(o[3] % len(sut), o[4])
            x = x or o[2]
            both(lambda: s.__setitem__(o[2], x), lambda: m.__setitem__(o[2], x), 'assignment')
        elif name == 'setslice':
            j = o[3] % len(sut)
            both(lambda: s.__setitem__(slice(*o[2]), list(sut[j])), lambda: m.__setitem__(slice(*o[2]), list(mod[j])), 'slice assignment')
        elif name == 'del':
            both(lambda: s.__delitem__(o[2]), lambda: m.__delitem__(o[2]), 'deletion')
        elif name == 'delslice':
            del s[slice(*o[2])]
            del m[slice(*o[2])]
        elif name == 'pop':
            a, b, _ = both(lambda: s.pop() if o[2] is None else s.pop(o[2]), lambda: m.pop() if o[2] is None else m.pop(o[2]), 'pop')
            ensure(a is b, 'pop gives another item')
        elif name == 'clear':
            s.clear()
            m.clear()
        elif name == 'reverse':
            s.reverse()
            m.reverse()
        elif name == 'mul':
            new(s * o[2] if o[1] % 2 else o[2] * s, m * o[2], 'product')
        elif name == 'imul':
            s *= o[2]
            m *= o[2]
        elif name == 'index':
            x = pick(i, o[2])
            both(lambda: s.index(x), lambda: m.index(x), 'index')
            if x in m:
                same('index', s.index(x), m.index(x))
        elif name == 'sort':
            s.sort(key=lambda x: (x.Origin, x.Line))
            m.sort(key=lambda x: (x.Origin, x.Line))
        if name in ('iadd', 'append', 'append_many', 'extend', 'insert', 'remove', 'remove_many', 'reduce', 'set', 'setslice', 'del', 'delslice', 'pop', 'clear', 'reverse', 'sort', 'imul'):
            changed.add(i)
            ctx.label(name)
        for k, (a, b) in enumerate(zip(sut, mod)):
            ensure(len(a) == len(b) and all(x is y for x, y in zip(a, b)), 'list %d differs from an ordinary list after %s' % (k, name),
                   'expected: %s' % [ident.get(id(x), repr(x)) for x in b], 'reported: %s' % [ident.get(id(x), repr(x)) for x in a])
            same('comparison with an ordinary list', a == b, True)
        now = stash.GetItemsFor()
        ensure(len(now) == len(everything) and all(x is y for x, y in zip(now, everything)), 'the stash holds other items after %s' % name)
    for k in range(len(FILTERS)):
        again = stash.GetItemsFor(**query(k))
        ensure(len(again) == len(first[k]) and all(x is y for x, y in zip(again, first[k])), 'query gives another answer after the lists were changed', FILTERS[k])
    ctx.nt(len(changed) > 1 and len(everything) > 2)


CALLS = [lambda s, f: s.GetRecipes(), lambda s, f: s.GetLoneAppends(), lambda s, f: s.GetConfFiles(), lambda s, f: s.GetBBClasses(), lambda s, f: s.GetLinksForFile(f), lambda s, f: s.GetFiles(f, '*'),
         lambda s, f: s.GetScrComponents('git://x/y;name=a;branch=b'), lambda s, f: s.SafeLineSplit('a b  c'), lambda s, f: s.GetValidPackageNames(f), lambda s, f: s.GetValidPackageNames(f, strippn=True),
         lambda s, f: s.GetValidNamedResources(f), lambda s, f: s.GetPackagesDynamic(f), lambda s, f: s.ExpandVar(filename=f), lambda s, f: s.GetItemsFor(filename=f), lambda s, f: s.GetItemsFor()]
TEXT = st.sampled_from([x for x in tree.SIMPLE if x[0] in 'AFPSI'])
answers = st.fixed_dictionaries({'proj': tree.project(files=(2, 5), size=4, lo=2, text=TEXT), 'lone': st.booleans(),
                                 'ops': st.lists(st.tuples(st.integers(0, len(CALLS) - 1), st.integers(0, 2), st.integers(0, 9)), min_size=2, max_size=10)})


def spoil(x, k):
    """change a container, and what it holds, in place; False if it cannot be changed"""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v, k)
        x.clear() if k % 3 == 0 else x.update(junk=['junk'])
    elif isinstance(x, set):
        x.clear() if k % 3 == 0 else x.add('junk') if k % 3 == 1 or not x else x.discard(sorted(x)[0])
    elif hasattr(x, 'insert'):
        x.clear() if k % 3 == 0 else x.insert(0, 'junk') if k % 3 == 1 or not x else x.pop()
    else:
        return False
    return True


def frozen(x):
    return [id(y) for y in x] if hasattr(x, 'reduce') else copy.deepcopy(x)


def check_answers(case, ctx):
    paths = tree.write(case['proj'], ctx)
    ctx.write('l/recipes/files/a.patch', '')
    added = [paths[i] for i in tree.tops(case['proj'])] + [ctx.write('l/conf/a.conf', 'X = "1"\n')]
    if case['lone']:
        added.append(ctx.write('l/recipes/none.bbappend', 'A = "1"\n'))
    stash = new_stash()
    for p in added:
        stash.AddFile(p)
    stash.Finalize()
    asked, changed = {}, 0
    for call, f, k in case['ops'] + case['ops']:
        f %= len(paths)
        got = CALLS[call](stash, paths[f])
        if (call, f) in asked:
            same('answer of query %d for %s asked again' % (call, os.path.basename(paths[f])), frozen(got), asked[call, f])
        else:
            asked[call, f] = frozen(got)
        changed += bool(got) and spoil(got, k)
    ctx.nt(changed > 2)


CAMPAIGNS = [Campaign('operations', case, check, 6000, 60000), Campaign('answers', answers, check_answers, 3000, 25000)]
