"""C09: unexpandable inline python survives expansion unchanged."""
import re

import bb
import inline
from core import Campaign, ensure, new_stash, same, st

ID = 'C09'
TECHNIQUE = 'property-based testing: generated variable graphs holding opaque inline blocks, oracle = textual substitution model'
RULE = ('Recipes of one to four variables whose values mix text, references to later variables, supported calls and opaque inline blocks (also repeated and multi-line ones); expanded as term, as variable and as '
        'package name; non-trivial if an opaque block is reached through another variable or stands next to another block.')
ASSUMPTIONS = ['referenced variables are assigned once, without an appending operator', 'opaque blocks name no variable known in the file', 'expanded variables are compared up to white space and line continuations', 'source text does not hold the internal stand-in itself']

HOLD = 'inlineblock'
NAMES = ['A', 'B', 'C', 'D']
seg = st.one_of(inline.text.map(lambda t: ['t', t]), st.sampled_from(NAMES).map(lambda n: ['r', n]), inline.opaque.map(lambda b: ['b', b['src']]), inline.opaque.map(lambda b: ['b', b['src']]),
                st.sampled_from(['foo(1)', 'foo(1)', 'x']).map(lambda e: ['b', '${@' + e + '}']),
                st.sampled_from([["${@bb.utils.contains('A', 'b', 'yes', 'no', d)}", 'yes', 'no'], ["${@oe.utils.ifelse(x, 'p', 'n')}", 'p', 'n']]).map(lambda b: ['s', b]),
                st.just(['b', "${@multi('a', \\\n   'b')}"]))
case = st.fixed_dictionaries({'vals': st.lists(st.lists(seg, max_size=5), min_size=1, max_size=4), 'neg': st.booleans(), 'ops': st.tuples(st.sampled_from(['=', '=', '+=', '.=', '=+', '=.']), *[st.sampled_from(['=', '?=', ':=', '??='])] * 3),
                              'query': st.sampled_from(NAMES), 'sub': st.sampled_from(['', '', ':append', ':prepend'])})


def src_of(segs, idx, n):
    """references only point to later variables, so that the definitions are acyclic"""
    res = 'v'
    for k, x in segs:
        if k == 'r':
            j = NAMES.index(x)
            res += '${' + x + '}' if idx < j < n else ''
        elif k == 's':
            res += x[0]
        else:
            res += x
    return res + 'v'


def expand(vals, idx, neg):
    res = 'v'
    for k, x in vals[idx]:
        if k == 'r':
            j = NAMES.index(x)
            res += expand(vals, j, neg) if idx < j < len(vals) else ''
        elif k == 's':
            res += x[2] if neg else x[1]
        else:
            res += x
    return res + 'v'


def norm(t):
    return ' '.join(t.replace('\\\n', ' ').replace('\x1b', ' ').split())


def check(case, ctx):
    vals, neg = case['vals'], case['neg']
    n = len(vals)
    lines = []
    for i in range(n):
        lines.append('%s %s "%s"\n' % (NAMES[i], case['ops'][i], src_of(vals[i], i, n)))
    path = ctx.write('r_1.0.bb', ''.join(lines))
    stash = new_stash(negative_inline=neg)
    items = stash.AddFile(path)
    stash.Finalize()
    for x, line in zip(items, lines):
        same('unprocessed text', x.RealRaw, line)
    full = stash.ExpandVar(path)
    for i in range(n):
        want = expand(vals, i, neg)
        appending = case['ops'][i] in ('+=', '.=', '=+', '=.')
        same('expanded entries of %s' % NAMES[i], norm(' '.join(full[NAMES[i]])), norm(want))
        same('single variable %s' % NAMES[i], norm(' '.join(stash.ExpandVar(path, attribute='VarName', attributeValue=NAMES[i])[NAMES[i]])), norm(want))
        same('own value of %s' % NAMES[i], norm(stash.ExpandTerm(path, items[i].VarValueStripped, objref=items[i])), norm(want))
        if not appending:
            same('term ${%s}' % NAMES[i], norm(stash.ExpandTerm(path, '<${%s}> ' % NAMES[i])), norm('<' + want + '> '))
            same('term ${%s} twice' % NAMES[i], norm(stash.ExpandTerm(path, '${%s} ${NOPE} ${%s}' % (NAMES[i], NAMES[i]))), norm(want + ' ${NOPE} ' + want))
        ops = sum(k == 'b' for k, _ in vals[i])
        ctx.nt(ops > 1 or (ops and any(k == 's' for k, _ in vals[i])) or ('${@' in want and '${@' not in src_of(vals[i], i, n)))
        ctx.label('opaque blocks %d' % min(4, want.count('${@')))
    for v in full.values():
        ensure(HOLD not in ' '.join(v), 'internal stand-in in an expanded value', v)
    # the same value as package list, dynamic packages and source
    for var, q in (('PACKAGES', lambda s, p: s.GetValidPackageNames(p)), ('PACKAGES_DYNAMIC', lambda s, p: s.GetPackagesDynamic(p)), ('SRC_URI', lambda s, p: s.GetValidNamedResources(p))):
        p = ctx.write(var + '_1.0.bb', ''.join(lines) + '%s = "git://x;name=%s"\n' % (var, src_of(vals[0], 0, n)))
        other = new_stash(negative_inline=neg)
        other.AddFile(p)
        ensure(not any(HOLD in x for x in q(other, p)), 'internal stand-in reported from ' + var, sorted(q(other, p)))


# operators on values that are opaque altogether
opseq = st.lists(st.tuples(st.sampled_from(['=', '+=', '.=', '=.', '=+', '?=', ':=', 'append', 'prepend']), st.sampled_from(['${@f(1)}', '${@f(2)}', 'x', '${@g(3)}', 'y${@f(1)}z', '${@f(1)}${@f(2)}'])), min_size=1, max_size=6)


def check_ops(case, ctx):
    cur = None
    text = ''
    late = []
    for op, tok in case:
        if op in ('append', 'prepend'):
            late.append((op, tok))
            text += 'V:%s = " %s "\n' % (op, tok)
            continue
        text += 'V %s " %s "\n' % (op, tok)
        tok = ' ' + tok + ' '
        if op in ('=', ':='):
            cur = tok
        elif op == '?=':
            cur = tok if cur is None else cur
        elif op in ('+=', '.='):
            cur = (cur or '') + tok
        else:
            cur = tok + (cur or '')
    for op, tok in late:
        cur = (cur or '') + ' ' + tok + ' ' if op == 'append' else ' ' + tok + ' ' + (cur or '')
    path = ctx.write('o_1.0.bb', text)
    stash = new_stash()
    stash.AddFile(path)
    same('expanded entries', stash.ExpandVar(path)['V'], (cur or '').split())
    ctx.nt(len(case) > 1 and '${@' in text)



# single entries of a list
piece = st.one_of(st.sampled_from(['a', 'b-c', 'file://x.patch', ';y=1', '${W}', '${NOPE}', '/d', '-x']).map(lambda t: ['t', t]), inline.opaque.map(lambda b: ['b', b['src']]), st.sampled_from(['${@foo(1)}', '${@multi("a", 2)}']).map(lambda t: ['b', t]))
entries = st.fixed_dictionaries({'e': st.lists(st.lists(piece, min_size=1, max_size=3), min_size=1, max_size=5), 'op': st.sampled_from(['=', '=', '+=', '?=', ':append'])})


def check_entries(case, ctx, strict=False):
    words = [''.join(x for _, x in e) for e in case['e']]
    plain = [''.join('w1' if x == '${W}' else x for _, x in e) for e in case['e']]
    path = ctx.write('e_1.0.bb', 'W = "w1"\n%s "%s"\n' % ('E:append =' if case['op'] == ':append' else 'E ' + case['op'], ' '.join(words)))
    stash = new_stash()
    item = stash.AddFile(path)[1]
    got = item.get_items()
    same('number of entries', len(got), len(words))
    whole = norm(' '.join(plain))
    for g, e, want in zip(got, case['e'], plain):
        res = norm(stash.ExpandTerm(path, g, objref=item))
        if not any(k == 'b' for k, _ in e):
            same('entry', g, ''.join(x for _, x in e))
            same('expanded entry %r' % want, res, norm(want))
        elif strict or res != whole:
            same('expanded entry %r' % want, res, norm(want))
    ctx.nt(len(words) > 1 and any(k == 'b' for e in case['e'] for k, _ in e) and any(all(k == 't' for k, _ in e) for e in case['e']))


def check_entries_strict(case, ctx):
    check_entries(case, ctx, strict=True)


CAMPAIGNS = [Campaign('graphs', case, check, 7000, 60000), Campaign('operators', opseq, check_ops, 3000, 15000), Campaign('entries', entries, check_entries, 800, 12000),
             # replays known findings only: an entry never expands to more than itself
             Campaign('entries-exact', entries, check_entries_strict, 0, 0)]
