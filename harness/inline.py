"""Generators for inline python blocks."""
from hypothesis import strategies as st

from bb import chars

_safe = 'abcdxyzABX019-_./+=~%'
# an argument string: anything but the quote itself and line ends; braces stay balanced
_argtext = st.one_of(
    st.sampled_from(['x11', '', 'a b', 'DISTRO_FEATURES', '-Wl,-z,now', '${X}', '--with-a', '(x)', 'a, b', "$(pwd)", '--enable-x=a,b', ' lead', 'trail ', 'foo-or-bar.inc', '1', '0', '{a}', 'a;b', '#',
                     'x)', '(y', 'd', ', ', 'not a', 'file://a.patch;apply=no', 'd)', 'A,b,c', 'a\\.b', '\\d+', '--with-something=long --and-more,x (y) ${X} ${NOPE}/z;a=b # c']),
    chars(_safe + ' ,', 0, 8))


@st.composite
def strarg(draw):
    t = draw(_argtext)
    q = draw(st.sampled_from(['"', "'", "'", "'"]))
    other = "'" if q == '"' else '"'
    if t and draw(st.integers(0, 9)) == 0:
        t = draw(st.sampled_from(['k', '', ''])) + other + t + other + draw(st.sampled_from(['k', '', '']))
    elif draw(st.integers(0, 19)) == 0:
        t = draw(st.sampled_from([other, other + t, t + other, other + other]))
    return {'src': q + t + q, 'val': t}


anyarg = st.one_of(strarg(), strarg(), st.sampled_from(['True', '1', 'x', "d.getVar('NOPE')", "d.getVar('X', True)", 'f(a, b)']).map(lambda t: {'src': t, 'val': t}))
_c = st.sampled_from([', ', ', ', ', ', ',', ' , ', ',  ', '\t,'])
_p = st.sampled_from(['', '', '', '', ' '])
# helper: (argument kinds, index of true, index of false, default true, default false)
HELPERS = {
    'bb.utils.contains': (['a', 'a', 's', 's', 'd'], 2, 3),
    'bb.utils.contains_any': (['a', 'a', 's', 's', 'd'], 2, 3),
    'bb.utils.filter': (['s', 'a', 'd'], 0, None),
    'oe.utils.conditional': (['a', 'a', 's', 's', 'd'], 2, 3),
    'oe.utils.ifelse': (['cond', 's', 's'], 1, 2),
    'oe.utils.any_distro_features': (['d', 'a'], None, None),
    'oe.utils.all_distro_features': (['d', 'a'], None, None),
    'oe.utils.any_distro_features/3': (['d', 'a', 'n'], 2, None),
    'oe.utils.all_distro_features/3': (['d', 'a', 'n'], 2, None),
    'oe.utils.any_distro_features/4': (['d', 'a', 'n', 's'], 2, 3),
    'oe.utils.all_distro_features/4': (['d', 'a', 'n', 's'], 2, 3),
    'oe.utils.vartrue': (['a', 's', 's', 'd'], 1, 2),
    'oe.utils.less_or_equal': (['a', 'a', 's', 's', 'd'], 2, 3),
    'oe.utils.version_less_or_equal': (['a', 'a', 's', 's', 'd'], 2, 3),
    'oe.utils.both_contain': (['a', 'a', 's', 'd'], 2, None),
}
_cond = st.sampled_from(["d.getVar('X') == 'all'", 'x', "a != 'b,c'", "foo(d)", "True", "'x' in d.getVar('Y', True)", "not x"]).map(lambda t: {'src': t, 'val': t})
_d = st.just({'src': 'd', 'val': 'd'})
# branches that are no strings: literals, references, something to compute
_other = st.one_of(st.sampled_from(['True', 'False', '1', '0', 'None', '-1', '2.5']).map(lambda t: {'src': t, 'val': t}),
                   st.sampled_from(['X', 'NOPE']).map(lambda t: {'src': "d.getVar('%s')" % t, 'val': '${%s}' % t}),
                   st.sampled_from(['foo(d)', 'x', "'a' if x else 'b'", "'a' + 'b'", "d.getVar('X') or ''", "d.getVar('X').lower()", '[]', "'%s' % x", "('a')[0]", '1 + 1', "'a' 'b'", "x['a']"]).map(lambda t: {'src': t, 'val': None}))


@st.composite
def branch(draw, deep):
    k = draw(st.integers(0, 11)) if deep else 0
    if k == 1:
        return draw(_other)
    if k in (2, 3):
        # another call, at most three within each other
        c = draw(call(deep - 1))
        return {'src': c['src'][3:-1].strip(), 'val': c['pos'], 'neg': c['neg']}
    return draw(strarg())


def picked(arg, neg):
    return arg.get('neg') if neg and 'neg' in arg else arg['val']


@st.composite
def call(draw, deep=2):
    name = draw(st.sampled_from(sorted(HELPERS)))
    kinds, t, f = HELPERS[name]
    args = []
    for k in kinds:
        if k == 'd':
            args.append({'src': 'd', 'val': 'd'})
        elif k == 'cond':
            args.append(draw(_cond))
        elif k == 's':
            args.append(draw(branch(deep)))
        elif k == 'n':
            args.append(draw(branch(deep)))
        else:
            args.append(draw(anyarg))
    src = name.split('/')[0] + '(' + draw(_p)
    for i, a in enumerate(args):
        src += (draw(_c) if i else '') + a['src']
    src += draw(_p) + ')'
    default_t = '1' if 'distro_features' in name else ''
    return {'src': '${@' + draw(_p) + src + draw(_p) + '}', 'pos': picked(args[t], False) if t is not None else default_t,
            'neg': picked(args[f], True) if f is not None else '', 'fn': name}


@st.composite
def getvar(draw):
    var = draw(st.sampled_from(['X', 'FOO_BAR', 'B:append', 'S', 'do-x']))
    q = draw(st.sampled_from(["'", '"']))
    extra = draw(st.sampled_from(['', '', '', ', True', ', False', ',True', ', expand=True', ' , expand = False', ', 1']))
    src = '${@' + draw(_p) + 'd.getVar(' + draw(_p) + q + var + q + extra + draw(_p) + ')' + draw(_p) + '}'
    return {'src': src, 'pos': '${' + var + '}', 'neg': '${' + var + '}', 'fn': 'd.getVar'}


# expressions that cannot be evaluated; none of them mentions something known
_opaque_expr = st.sampled_from(["foo(d)", "bar('a', 'b')", "'a' if x else 'b'", "1 + 2", "x", "{'a': 'b'}['a']", "bb.utils.contains('A', 'b')", "oe.utils.conditional('A')", "d.getVarFlag('A', 'b')",
                                "d.getVar('NOPE') or 'x'", "d.getVar('NOPE').lower()", "bb.utils.to_boolean('A', d)", "oe.utils.foo('x', d)", "", "bb.data.inherits_class('native', d)",
                                "d.getVar('NOPE', True) + d.getVar('NOPE2')", "'%s' % x", "[x for x in y]", "f(\"a\")", "foo('${NOPE}')", "' '.join(a)", "bb.utils.contains_any('A', 'b', 'c')", "oe.utils.ifelse(x)",
                                "bb.utils.vercmp_string('1', '2')", "g('()')", "a[1:2]", "lambda: 0", "d.setVar('A', 'b')", "foo", "x1b", "re.sub('\\.', '', v)", "'a\\tb'.x()", "d.getVar(NOPE)"])


@st.composite
def malformed(draw):
    """calls of the helpers with too few or too many arguments, or of another name"""
    name = draw(st.sampled_from(sorted(HELPERS)))
    kinds, _, _ = HELPERS[name]
    name, n = name.split('/')[0], len(kinds)
    how = draw(st.sampled_from(['few', 'few', 'many', 'suffix', 'noparen', 'none']))
    if how == 'many':
        n = 7
    elif how == 'few':
        n = draw(st.integers(0, {'oe.utils.any_distro_features': 1, 'oe.utils.all_distro_features': 1}.get(name, n - 1)))
    args = [draw(_plainarg)['src'] for _ in range(n)]
    if how == 'noparen':
        return '%s' % name
    if how == 'none':
        return '%s[%s]' % (name, ', '.join(args))
    return '%s%s(%s)' % (name, draw(st.sampled_from(['_x', '2', 's', '.x'])) if how == 'suffix' else '', ', '.join(args))


# something made of the result of a call
_made = st.builds(lambda c, t: t.replace('@', c['src'][3:-1].strip()), call(1), st.sampled_from(["@ + 'z'", "'z' + @", "@.upper()", "x(@)", "x('a', @)", "[@]", "@ or 'x'", "'x' if @ else 'y'", "'@' if x else @", "not @", "@ == 'x'", "@[0]", "f'{@}'", "@, @", "d.getVar(@)", "@ # x"]))

_plainarg = st.one_of(strarg().filter(lambda a: not any(c in a['src'] for c in '()${},')), st.sampled_from(['d', 'True', 'x', '1']).map(lambda t: {'src': t, 'val': t}))
_opaque_expr = st.one_of(_opaque_expr, _opaque_expr, _opaque_expr, malformed(), _made)
opaque = st.builds(lambda e, n, p: {'src': '${@' + p + e + (n if e else '') + '}', 'pos': None, 'neg': None, 'fn': 'opaque'}, _opaque_expr, st.sampled_from(['', '', '', ' + "1"', '#a', ' + h(2)']), _p)

text = st.one_of(st.sampled_from(['', ' ', ' a ', 'foo', 'a\\.b ', '\\1', ' ${NOPE} ', 'x=', '; ', '/usr/', ' -', '{', '}', '(', '"x"'][:-1]), chars(_safe + ' ', 0, 5))
