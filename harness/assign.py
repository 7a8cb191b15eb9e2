"""Sequences of assignments, their layouts over files, and a reference evaluator of BitBake's operators."""
from hypothesis import strategies as st

from bb import OPS

VARS = ['A', 'B', 'FOO', 'Foo']
ANY = st.sampled_from(['A', 'A', 'B', 'B', 'FOO', 'Foo'])
OVER = ['', '', '', '', 'qemux86', 'class-target', '${PN}']
TOK = ['a', 'b', 'c', 'x', 'x86', 'a', 'b-1', 'ab', 'file://x.patch;y=1', '--with-q', 'b', 'cb', 'a\\.b', '\\d', 'A', 'X86', 'aB']
_gap = st.sampled_from([' ', ' ', '  ', '\t'])


@st.composite
def raw_value(draw):
    """text between the quotes of a value and how it is laid out over lines"""
    toks = draw(st.one_of(*[st.lists(st.sampled_from(TOK), max_size=4)] * 9, st.lists(st.sampled_from(TOK), max_size=24)))
    lead = draw(st.sampled_from(['', '', ' ', '  ']))
    trail = draw(st.sampled_from(['', '', ' ', '  ']))
    gaps = draw(st.lists(_gap, min_size=4, max_size=4))
    text = lead
    for i, t in enumerate(toks):
        text += (gaps[i % 4] if i else '') + t
    return text + trail


stmt = st.one_of(
    st.fixed_dictionaries({'k': st.just('set'), 'var': ANY, 'over': st.sampled_from(OVER), 'op': st.sampled_from(OPS), 'mod': st.just(''), 'val': raw_value()}),
    st.fixed_dictionaries({'k': st.just('set'), 'var': ANY, 'over': st.sampled_from(OVER), 'op': st.sampled_from(OPS), 'mod': st.just(''), 'val': raw_value()}),
    st.fixed_dictionaries({'k': st.just('set'), 'var': ANY, 'over': st.sampled_from(OVER), 'op': st.just('='),
                           'mod': st.sampled_from(['append', 'append', 'prepend', 'remove', 'remove']), 'first': st.booleans(), 'val': raw_value()}),
    st.fixed_dictionaries({'k': st.just('unset'), 'var': ANY, 'over': st.sampled_from(['', '', '', 'qemux86', 'class-target']), 'flag': st.sampled_from(['', '', '', 'doc'])}),
)
# how one statement is written down
style = st.fixed_dictionaries({'pre': st.sampled_from(['', ' ', ' ', '  ', '\t']), 'post': st.sampled_from(['', ' ', ' ', '\t']), 'q': st.sampled_from(['"', '"', "'"]),
                               'cont': st.integers(0, 3), 'trail': st.sampled_from(['', '', ' '])})
PLAIN = {'pre': ' ', 'post': ' ', 'q': '"', 'cont': 0, 'trail': ''}


def name(s, delim):
    parts = [s['var']]
    if s.get('mod'):
        parts += [s['mod'], s['over']] if s.get('first') else [s['over'], s['mod']]
    else:
        parts.append(s['over'])
    return delim.join(x for x in parts if x)


def key(s, delim):
    return delim.join(x for x in (s['var'], s['over']) if x)


def relayout(text, cont):
    """the same entries over several lines: breaks inserted next to white space"""
    if not cont:
        return text
    out = ''
    n = 0
    for i, c in enumerate(text):
        out += c
        if c in ' \t' and (i + 1 < len(text)) and text[i + 1] not in ' \t':
            n += 1
            if n % cont == 0:
                out += ('\\ \n' if cont == 3 else '\\\n') + ('    ' if cont == 2 else '')
    return out


def render(s, delim=':', how=None):
    how = how or PLAIN
    if s['k'] == 'unset':
        return 'unset ' + key(s, delim) + ('[%s]' % s['flag'] if s['flag'] else '') + '\n'
    pre = how['pre']
    return name(s, delim) + pre + s['op'] + how['post'] + how['q'] + relayout(s['val'], how['cont']) + how['q'] + how['trail'] + '\n'


def texts(stmts, delim=':'):
    """text per variable before entries are removed; stmts in the order they take effect"""
    cur, weak, seen = {}, {}, []
    for s in stmts:
        k = key(s, delim)
        if s['k'] == 'unset':
            if not s['flag']:
                cur.pop(k, None)
                weak.pop(k, None)
                if k in seen:
                    seen.remove(k)
            continue
        if k not in seen:
            seen.append(k)
        if s['mod']:
            continue
        v, op = s['val'], s['op']
        if op in ('=', ':='):
            cur[k] = v
        elif op == '?=':
            cur.setdefault(k, v)
        elif op == '??=':
            weak[k] = v
        elif op == '+=':
            cur[k] = cur.get(k, '') + ' ' + v
        elif op == '=+':
            cur[k] = v + ' ' + cur.get(k, '')
        elif op == '.=':
            cur[k] = cur.get(k, '') + v
        elif op == '=.':
            cur[k] = v + cur.get(k, '')
    for k, v in weak.items():
        cur.setdefault(k, v)
    for s in stmts:
        if s['k'] == 'set' and s['mod'] in ('append', 'prepend'):
            k = key(s, delim)
            if s['mod'] == 'append':
                cur[k] = cur.get(k, '') + s['val']
            else:
                cur[k] = s['val'] + cur.get(k, '')
    return cur


def removals(stmts, delim=':'):
    return [(key(s, delim), s['val']) for s in stmts if s['k'] == 'set' and s['mod'] == 'remove']


def evaluate(stmts, delim=':'):
    """entries per variable by BitBake's rules; stmts in the order they take effect"""
    res = {k: v.split() for k, v in texts(stmts, delim).items()}
    for k, v in removals(stmts, delim):
        gone = v.split()
        res[k] = [x for x in res.get(k, []) if x not in gone]
    return res
