"""Generators for BitBake text together with what each statement has to be reported as.

A statement is a JSON-able dict {"k": kind, ...pieces...}.  render(stmt) gives its text (complete
lines), expect(stmt, newmode) what an independent reading of the pieces says about it.  Nothing in
here looks at the code under test.
"""
import textwrap

from hypothesis import strategies as st

ESC = '\x1b'
MODIFIERS = ('append', 'prepend', 'remove')
FUNC_MARKER = ('append', 'prepend', 'remove', 'class-native', 'class-nativesdk', 'class-cross', 'class-target')
OPS = ['=', '+=', '?=', '??=', ':=', '.=', '=+', '=.']

# ---------------------------------------------------------------- small pieces

_ws = st.sampled_from([*['', ' ', ' ', ' ', '  ', '\t', ' \t '] * 4, ' ' * 17, '\t' * 9])
_ws1 = st.sampled_from([*[' ', ' ', ' ', '  ', '\t', '   ', ' \t'] * 4, ' ' * 17, '\t' * 9])


def chars(alphabet, lo=0, hi=6):
    few = st.lists(st.sampled_from(alphabet), min_size=lo, max_size=hi)
    return st.one_of(*[few] * 15, st.lists(st.sampled_from(alphabet), min_size=lo, max_size=hi + 40)).map(''.join)


_UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
_LOW = 'abcdefghijklmnopqrstuvwxyz'
_DIG = '0123456789'

upper_chunk = st.builds(lambda a, b, c: a + b + c, st.sampled_from(_UP), chars(_UP + _DIG, 0, 4),
                        st.sampled_from([''] * 12 + ['-X', '.B', '+', '~', '/Y', '-1', '++']))
KNOWN_BASES = ['SRC_URI', 'DEPENDS', 'PACKAGES', 'FILES', 'RDEPENDS', 'PACKAGECONFIG', 'EXTRA_OECONF', 'S', 'LICENSE',
               'A', 'FOO', 'PV', 'CFLAGS', 'INSANE_SKIP', 'IMAGE_INSTALL', 'B', 'LIC_FILES_CHKSUM', 'PREFERRED_PROVIDER']
base_name = st.one_of(
    st.sampled_from(KNOWN_BASES),
    st.lists(upper_chunk, min_size=1, max_size=3).map('_'.join),
    st.sampled_from(['FOO__BAR', '_PRIV', 'A__B', '__X', 'FOO.BAR', 'FOO_A-B', 'prefix', 'bindir', 'x', 'A/B', 'C~D', 'G+']),
)
# only meaningful where ':' delimits
base_name_new = st.one_of(base_name, st.sampled_from(['base_libdir', 'do_x', 'foo_bar', 'my_var_1', 'A_b']))
override = st.sampled_from(['append', 'prepend', 'remove', 'append', 'class-native', 'class-target', 'class-cross',
                            'class-nativesdk', 'qemux86', 'qemuall', 'mips64', 'poky', 'nodistro', 'x86-64', '${PN}', '${PN}-dev',
                            '${MACHINE}', 'libstdc++', 'machine', 'libc-musl', '1', 'poky-tiny', '${PN}-doc-x', 'task-install',
                            'pn-foo', 'arm', 'a', 'x', 'x1b', 'class-foo', 'machine-x', 'append-x'])
_subs = st.lists(override, max_size=3)

# value tokens hold neither white space, the quote character, a backslash at their end nor an inline block
_TOK = _LOW + _UP + _DIG + "-_./:;=+,~@%&*()[]<>!?|#^{}$`"
token = st.one_of(
    st.sampled_from(['a', 'b', 'foo', 'bar-1.0', 'x', 'x1', 'x86', '${PN}', '${PN}-dev', '${B}/x', 'file://a.patch;striplevel=1',
                     'git://x.org/y.git;protocol=https;branch=main', '--with-x=y', '-Dfoo=bar', '#1', 'a=b', 'v1.0', '(=', '1.0)',
                     '(>=1.2)', '&', '|', 'GPL-2.0-only', '{', '}', '${', '$', 'append', ':=', '+=', '[x]', '()', 'remove']),
    chars(_TOK, 1, 8).filter(lambda s: '${@' not in s),
    st.sampled_from(['ä', 'ß€', '名', 'é1']),
    st.sampled_from(['a\\.b', '\\d+', 's/\\./x/', '\\x41', 'c\\nd', '\\x1b', '\\\\.', '\\$x']),
)


# white space that does not end a line
def pad(n):
    """a function of n lines: moves whatever follows far down the file at little cost"""
    return 'do_pad() {\n' + '\n' * (n - 2) + '}\n' if n else ''


PADS = st.sampled_from([0] * 20 + [8, 95, 995, 9990])
RARE_WS = ['a\x0cb', 'c\x85d', 'e\u2028f', 'g\xa0h', 'i\x0bj', '\u3000', '\x0c']


def _tok_for(quote):
    other = "'" if quote == '"' else '"'
    return st.one_of(token, token, token, st.sampled_from([other, 'a' + other + 'b', other + other, 'it' + other + 's', *RARE_WS]))


@st.composite
def value(draw, maxlines=4, quote=None, tok=None):
    """a quoted value as list of lines, each line is the text between quotes/continuations"""
    quote = quote or draw(st.sampled_from(['"', '"', '"', "'"]))
    tok = tok or _tok_for(quote)
    nlines = draw(st.sampled_from([1, 1, 1, 1, 2, 3, maxlines]))
    lines = []
    for i in range(nlines):
        toks = draw(st.lists(tok, max_size=4 if nlines == 1 else 3))
        sep = draw(_ws1)
        text = sep.join(toks)
        lead = draw(_ws)
        last = i == nlines - 1
        if last:
            trail = draw(_ws)
        else:
            # a continuation sits right behind white space or the opening quote
            trail = draw(_ws1) if (i or text or lead) else draw(_ws)
        lines.append(lead + text + trail)
    # outermost characters: never the own quote nor, for a single quoted value, ambiguous ends
    return {'q': quote, 'lines': lines, 'ct': draw(st.sampled_from(['', '', '', '', ' ', '\t ']))}


def value_text(v):
    return v['q'] + ('\\' + v.get('ct', '') + '\n').join(v['lines']) + v['q']


def value_raw(v):
    """the value as reported: continuation characters become ESC"""
    return v['q'] + value_inner(v) + v['q']


def value_inner(v):
    return (ESC + v.get('ct', '')).join(v['lines'])


def value_tokens(v):
    return [t for line in v['lines'] for t in line.split()]


def noesc(text):
    return text.replace(ESC, '')


# ---------------------------------------------------------------- names

def name_of(stmt, style=None):
    style = style or stmt['style']
    return style.join([stmt['base']] + stmt['subs'])


def needs_ws(name):
    return name[-1] in '+.?:'


# ---------------------------------------------------------------- statements

@st.composite
def var_stmt(draw, styles=('_', ':'), subs=_subs, bases=None, ops=None, val=None):
    style = draw(st.sampled_from(list(styles)))
    base = draw(bases or (base_name_new if style == ':' else base_name))
    s = {'k': 'var', 'style': style, 'base': base, 'subs': draw(subs),
         'op': draw(ops or st.sampled_from(OPS)), 'pre': draw(_ws), 'post': draw(_ws),
         'v': draw(val or value()), 'trail': draw(st.sampled_from(['', '', '', ' ', '\t']))}
    if bases is None and draw(st.integers(0, 15)) == 9:
        # package hooks are the only lower case names that take an override in the old syntax, and only the package
        s['base'] = draw(st.sampled_from(['pkg_postinst', 'pkg_prerm', 'pkg_preinst_x']))
        if style == '_':
            s['subs'] = draw(st.lists(st.sampled_from(['${PN}', '${PN}', '${PN}-dev', '${PN}-doc-x']), max_size=2))
    elif style == ':' and not s['subs'] and not _old_ok(base):
        # would be read differently before the new syntax was seen
        s['subs'] = ['append']
    if needs_ws(name_of(s)) and not s['pre']:
        s['pre'] = ' '
    return s


def _old_ok(base):
    return all(not c or not (c[0].islower() or c[0].isdigit() or c[0] in '{}$') for c in base.split('_')[1:])


@st.composite
def flag_stmt(draw, names=None):
    name = draw(names or st.one_of(
        base_name, st.sampled_from(['do_compile', 'do_install', 'FOO:class-native', 'do_x_append', '${PN}_x', 'SRC_URI', 'PACKAGECONFIG'])))
    return {'k': 'flag', 'lead': draw(st.sampled_from(['', '', '', '  ', '\t'])), 'name': name,
            'flag': draw(st.one_of(st.sampled_from(['depends', 'vardeps', 'sha256sum', 'md5sum', 'noexec', 'x11', 'a-b.c', 'a/b', 'u@v', 'c++', '_x']),
                                   chars(_LOW + _DIG + '-_.', 1, 6))),
            'op': draw(st.sampled_from(OPS)), 'pre': draw(_ws), 'post': draw(_ws), 'v': draw(value()),
            'trail': draw(st.sampled_from(['', '', ' ']))}


FUNC_KNOWN = []   # functions/known of the default constants is empty; C04 sets it explicitly
func_base = st.one_of(
    st.sampled_from(['do_compile', 'do_install', 'do_fetch', 'my_func', 'pythonfoo', 'fakerootfoo', 'python_x', 'pkg_postinst', 'do_a-b',
                     'x', 'base_do_compile', 'do_install+', 'a.b', 'do_deploy', 'do__x', 'fakeroot_me', 'defoo', 'inherit_x', 'addtask_foo',
                     'export_x', 'unset_it', 'include_x', 'do_compile_ptest_base', 'autotools_do_configure', 'do_foo_do_foo', 'do_install_do']),
    st.lists(chars(_LOW + _UP + _DIG, 1, 5), min_size=1, max_size=3).map('_'.join).filter(
        lambda s: not any(c in FUNC_MARKER for c in s.split('_'))),
)
_func_first = st.sampled_from(list(FUNC_MARKER) + ['append', 'prepend'])
_func_more = st.sampled_from(['append', 'prepend', 'class-target', 'qemux86', '${PN}', 'poky', '${PN}-dev', 'libc-musl', 'a', 'machine', 'remove'])

_body_word = st.sampled_from(['echo', 'install -d', '${D}', '"${B}/x"', 'if [ x ]; then', 'fi', "'a b'", '$x', 'oe_runmake', 'cp', 'def x():',
                              'python foo()', 'do_x()', 'FOO = "1"', '#c', 'x=1', 'd.setVar("A", "b")', 'bb.note("x")', 'inherit foo',
                              'include a.inc', 'case', 'for x in $y; do', 'done', '%s', '&&', '|| true', 'return', 'ä', ':', 'a[1] = "2"', '"x"',
                              'EXPORT_FUNCTIONS a', 'export A="b"', 'addtask foo', 'unset x', "'", '"', '()', '( )', 's/\\./x/', '\\d', '"\\x1b"', 'a\\nb', 'a\x0cb', 'c\u2028d', 'e\x85f'])


@st.composite
def func_body(draw):
    """body lines, the nesting of braces in it stays balanced"""
    lines = []
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 5, 7]))
    depth = 0
    i = 0
    while i < n:
        i += 1
        kind = draw(st.sampled_from(['plain'] * 8 + ['blank', 'open', 'close', 'cont', 'onel', 'col0', 'wsonly']))
        ind = draw(st.sampled_from(['    ', '    ', '\t', '  ', '        '])) + '  ' * depth
        words = ' '.join(draw(st.lists(_body_word, min_size=1, max_size=3)))
        if kind == 'blank':
            lines.append('')
        elif kind == 'wsonly':
            lines.append('   ')
        elif kind == 'open':
            lines.append(ind + words + ' {')
            depth += 1
        elif kind == 'close' and depth:
            depth -= 1
            lines.append(ind + draw(st.sampled_from(['}', '}', '} > x', '};'])))
        elif kind == 'cont':
            lines.append(ind + words + ' \\')
            lines.append(ind + 'more')
        elif kind == 'onel':
            lines.append(ind + 'f() { ' + words + '; }')
        elif kind == 'col0':
            lines.append(words)
        else:
            lines.append(ind + words)
    while depth:
        depth -= 1
        lines.append('    ' + '  ' * depth + '}')
    lines = [x for x in lines]
    extra = draw(st.sampled_from([None] * 10 + ['    echo "{"', "    sed -e 's/}//' x", '    echo "}"']))
    if extra:
        # unbalanced braces in a string are fine as long as no later line starts with a brace
        pos = max([j + 1 for j, x in enumerate(lines) if x.lstrip().startswith('}')] or [0])
        lines.insert(draw(st.integers(pos, len(lines))), extra)
    return lines


# bodies of functions written in one line
_one_line = st.one_of(*[st.none()] * 6, st.sampled_from([' :; ', ' echo "a"; ', '', ' ', ' f() { x; }; f ', 'return 1', '\ttrue\t', '  pass  ', ' ${D} ', ' a = {} ', " '}' ", ' # x ', ' ; ', ' (x) ']))


@st.composite
def func_stmt(draw, styles=('_', ':')):
    style = draw(st.sampled_from(list(styles)))
    prefix = draw(st.sampled_from(['', '', '', 'python ', 'python ', 'fakeroot ', 'fakeroot python ', 'python fakeroot ', 'python\t', 'fakeroot  ', 'python  ']))
    anon = 'python' in prefix and 'fakeroot' not in prefix and draw(st.integers(0, 3)) == 0
    if anon:
        base = draw(st.sampled_from(['', '__anonymous']))
        subs = []
        if not base:
            prefix = draw(st.sampled_from(['python ', 'python', 'python\t']))
    else:
        base = draw(func_base)
        first = _func_first if style == '_' else st.one_of(_func_first, _func_more)
        subs = draw(st.one_of(st.just([]), st.tuples(first, st.lists(_func_more, max_size=2)).map(lambda t: [t[0]] + t[1])))
    one, body = draw(_one_line), draw(func_body())
    ends = ['}', '}', '}', '} ', '}  ', '}\t']
    if one is None and sum(x.count('{') - x.count('}') for x in body) == 0:    # else the brace is found at the start of a line only
        ends += ['  }', '\t}', '    } ']
    return {'k': 'func', 'style': style, 'prefix': prefix, 'base': base, 'subs': subs,
            'ws1': draw(st.sampled_from(['', '', ' ', '  '])) if base else draw(st.sampled_from(['', ' '])),
            'par': draw(st.sampled_from(['()', '()', '()', '( )'])), 'ws2': draw(st.sampled_from([' ', ' ', '', '  ', '\t'])),
            'one': one, 'body': body, 'end': draw(st.sampled_from(ends))}


@st.composite
def def_stmt(draw):
    name = draw(st.one_of(st.sampled_from(['foo', 'get_x', 'Foo', 'x1', '_priv', 'do_x', 'GetIt']), chars(_LOW + _UP + '_', 1, 6)))
    args = draw(st.sampled_from(['d', '', 'a, b', 'd, x=1', "x='a:b'", '*args, **kwargs', 'd: object']))
    ret = draw(st.sampled_from(['', '', '', ' -> str', '  -> dict', '->int', '\t->  str']))
    lines = []
    for _ in range(draw(st.integers(0, 5))):
        kind = draw(st.sampled_from(['plain', 'plain', 'plain', 'blank', 'brace']))
        if kind == 'blank':
            lines.append(draw(st.sampled_from(['', '   '])))
        else:
            ind = draw(st.sampled_from(['    ', '        ', '\t', ' ']))
            words = ' '.join(draw(st.lists(_body_word, min_size=1, max_size=3)))
            lines.append(ind + (words if kind == 'plain' else 'x = {'))
    return {'k': 'def', 'name': name, 'args': args, 'ret': ret, 'ws': draw(st.sampled_from(['', '', ' ', '  '])), 'tail': draw(st.sampled_from(['', '', '', ' ', '  # x', ' return 1'])),
            'col': draw(st.sampled_from(['', '', '', ' '])), 'ws2': draw(st.sampled_from([' ', ' ', '  ', '\t'])), 'lines': lines}


_ctext = st.lists(st.sampled_from(['foo', 'A = "b"', 'inherit x', '(', ')', '{', '}', 'do_x() {', '"', "'", 'python () {', '#', 'ä', 'def f():',
                                   'x', '1', '${X}', '!!!', '-', 'include b.inc', ':', 'p\x0cq', 'r\u2028A = "b"', 's\x85']), max_size=4).map(' '.join)


@st.composite
def comment_stmt(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    if n == 1 and draw(st.integers(0, 4)) == 0:
        return {'k': 'comment', 'lines': [draw(st.sampled_from(['  ', '\t', ' '])) + '#' + draw(_ctext)]}
    return {'k': 'comment', 'lines': ['#' * draw(st.sampled_from([1, 1, 1, 2, 5])) + draw(st.sampled_from(['', ' ', ' '])) + draw(_ctext)
                                      for _ in range(n)]}


_TASKNAME = st.one_of(st.sampled_from(['do_compile', 'foo', 'do_install', 'beforehand', 'after_x', 'do_before', 'do_after_x', 'x-y', 'before_me',
                                       'aftermath', 'do_build', 'pkg_x', 'do-x', 'do_pkg_preinst', 'my_pkg_postinst', 'x_pkg_prerm_y', 'un-pkg_postrm']),
                      chars(_LOW + '_', 1, 7)).filter(lambda s: s not in ('before', 'after') and not s.startswith(
                          ('pkg_preinst', 'pkg_postinst', 'pkg_prerm', 'pkg_postrm')))
_COMMENT = st.sampled_from(['', '', '', '# note', '#x', '# before foo', '# a # b', '#'])
_CLASSNAME = st.one_of(st.sampled_from(['autotools', 'foo', 'pkgconfig', 'python3native', 'cmake', 'x', '${X}', 'a-b', 'image_types', 'x11_y', 'Foo', 'a.b', 'sub/k']),
                       chars(_LOW + '-_', 1, 6).map(lambda s: 'q' + s))
_PATHNAME = st.one_of(st.sampled_from(['foo.inc', 'recipes/a.inc', '${PN}.inc', 'a+b.inc', 'x~1.inc', 'a@b.inc', '../b.inc', '${BPN}-${PV}.inc', 'conf/x.conf', 'foo_bar.inc', 'Foo_1.inc']),
                      chars(_LOW + _DIG + '-./', 1, 7).map(lambda s: 'm' + s + '.inc'))


def _sep_list(item, lo=1, hi=4):
    return st.one_of(*[st.lists(item, min_size=lo, max_size=hi)] * 15, st.lists(item, min_size=lo, max_size=hi + 14))


@st.composite
def addtask_stmt(draw):
    parts = draw(st.sampled_from([[], ['before'], ['after'], ['before', 'after'], ['after', 'before']]))
    return {'k': 'addtask', 'lead': draw(st.sampled_from(['', '', '', '  '])), 'ws': draw(_ws1), 'name': draw(_TASKNAME),
            'parts': [[p, draw(_ws1), draw(_sep_list(_TASKNAME, 1, 3)), draw(_ws1), draw(_ws1)] for p in parts],
            'cws': draw(_ws1), 'comment': draw(_COMMENT)}


@st.composite
def simple_stmt(draw, kinds=None):
    k = draw(st.sampled_from(kinds or ['include', 'require', 'inherit', 'inherit', 'inherit_defer', 'inherit_glob', 'export', 'export_noval', 'deltask',
                                       'unset', 'exportfunc', 'addpylib', 'addfragments', 'include_all']))
    lead = draw(st.sampled_from(['', '', '', '  ', '\t']))
    ws = draw(_ws1)
    end = draw(st.sampled_from(['', '', '', ' ', '\t']))
    if k in ('include', 'require'):
        return {'k': k, 'lead': lead, 'ws': ws, 'name': draw(_PATHNAME), 'end': end}
    if k in ('inherit', 'inherit_defer'):
        return {'k': k, 'lead': draw(st.sampled_from(['', '', '', ' '])), 'ws': ws, 'classes': draw(_sep_list(_CLASSNAME)),
                'sep': draw(st.sampled_from([' ', ' ', '  ', '\t', ' ' * 11, ' \\\n', ' \\\n    ', ' \\\n\t'])), 'end': end}
    if k == 'inherit_glob':
        return {'k': k, 'op': draw(st.sampled_from(OPS)), 'pre': draw(_ws), 'post': draw(_ws), 'q': draw(st.sampled_from(['"', "'"])),
                'classes': draw(_sep_list(_CLASSNAME, draw(st.integers(0, 1)))), 'sep': draw(st.sampled_from([' ', '  ', ' \\\n  '])),
                'in1': draw(_ws), 'in2': draw(_ws), 'end': end}
    if k == 'export':
        return {'k': k, 'lead': lead, 'ws': ws, 'name': draw(st.sampled_from(['FOO', 'PATH', 'A_B', 'foo', 'X1', 'CC_x', 'A-b', 'A.b', '${X}_Y', 'A+b', 'A/b~', 'PKG_CONFIG_SYSROOT_DIR', 'a_rather_long_name-x1'])), 'op': draw(st.sampled_from(OPS)),
                'pre': draw(_ws), 'post': draw(_ws), 'v': draw(value(maxlines=2)), 'end': end}
    if k == 'export_noval':
        return {'k': k, 'lead': lead, 'ws': ws, 'name': draw(st.sampled_from(['FOO', 'PATH', 'A_B', 'foo', 'X1', 'A-b', 'A.b', '${X}_Y', 'A+b', 'A/b~', 'PKG_CONFIG_SYSROOT_DIR', 'a_rather_long_name-x1'])), 'end': end}
    if k == 'deltask':
        return {'k': k, 'lead': lead, 'ws': ws, 'name': draw(_TASKNAME), 'cws': draw(_ws1), 'comment': draw(_COMMENT)}
    if k == 'unset':
        return {'k': k, 'lead': lead, 'ws': ws, 'name': draw(st.sampled_from(['FOO', 'A_B', 'foo', 'BAR:append', 'X_append', 'A-b', 'do_x', 'C+', 'D.e', '${PN}', 'PACKAGECONFIG_CONFARGS:append:class-native', 'some_long_var-name.x'])),
                'flag': draw(st.sampled_from(['', '', 'depends', 'a-b.c', 'x', 'vardepsexclude', 'a_long-flag.name1'])), 'end': end}
    if k == 'exportfunc':
        return {'k': k, 'ws': ws, 'names': draw(_sep_list(_TASKNAME)), 'sep': draw(st.sampled_from([' ', '  ', '\t', ' \\\n  '])), 'end': end}
    if k == 'addpylib':
        return {'k': k, 'lead': lead, 'ws': ws, 'path': '${LAYERDIR}/' + draw(st.sampled_from(['lib', 'lib/x', 'a-b', 'x.y', 'lib/python/some-layer/x_1'])), 'ws2': draw(_ws1),
                'ns': draw(st.sampled_from(['oe', 'bblayers', 'x_y', 'Z', 'a_long_namespace_1', 'oe.x'])), 'end': end}
    if k == 'addfragments':
        return {'k': k, 'ws': ws, 'path': draw(st.sampled_from(['conf/fragments', 'a/b', 'x', 'conf/deep/fragments-of/x_1.y'])), 'ws2': draw(_ws1),
                'var': draw(st.sampled_from(['OE_FRAGMENTS', 'X', 'MY_OWN_FRAGMENTS_1'])), 'ws3': draw(_ws1),
                'flagged': draw(st.sampled_from(['OE_FRAGMENTS_METADATA_VARS', 'A', 'A OE_FRAGMENTS_BUILTIN', 'A B'])), 'end': end}
    return {'k': 'include_all', 'ws': ws, 'file': draw(st.sampled_from(['conf/x.conf', '${X}', 'a.inc', 'conf/distro/include/maintainers.inc']))}


@st.composite
def filler_stmt(draw):
    if draw(st.integers(0, 2)):
        return {'k': 'blank', 'text': draw(st.sampled_from(['', '', '', '  ', '\t']))}
    return {'k': 'unknown', 'text': draw(st.sampled_from(['addhandler foo', 'foo bar', '???', 'if x', '%', 'a', 'BBFILES', '}', ')', '"', "'x'", '[a]',
                                                          '${X}', 'defx', '%define', '<<<<<<< HEAD', 'addhandler x_y', '- a', '*', '= b'][:-1]))}


def any_stmt(styles=('_', ':')):
    return st.one_of(var_stmt(styles), var_stmt(styles), var_stmt(styles), flag_stmt(), func_stmt(styles), func_stmt(styles), def_stmt(),
                     comment_stmt(), simple_stmt(), simple_stmt(), addtask_stmt(), filler_stmt())


# ---------------------------------------------------------------- rendering

def render(s):
    k = s['k']
    if k == 'var':
        return name_of(s) + s['pre'] + s['op'] + s['post'] + value_text(s['v']) + s['trail'] + '\n'
    if k == 'flag':
        return s['lead'] + s['name'] + '[' + s['flag'] + ']' + s['pre'] + s['op'] + s['post'] + value_text(s['v']) + s['trail'] + '\n'
    if k == 'func' and s.get('one') is not None:
        return s['prefix'] + s['style'].join([s['base']] + s['subs']) + s['ws1'] + s['par'] + s['ws2'] + '{' + s['one'] + s['end'] + '\n'
    if k == 'func':
        return (s['prefix'] + s['style'].join([s['base']] + s['subs']) + s['ws1'] + s['par'] + s['ws2'] + '{\n'
                + ''.join(x + '\n' for x in s['body']) + s['end'] + '\n')
    if k == 'def':
        return ('def' + s['ws2'] + s['name'] + s['ws'] + '(' + s['args'] + ')' + s['ret'] + s['col'] + ':' + s['tail'] + '\n' + ''.join(x + '\n' for x in s['lines']))
    if k == 'comment':
        return ''.join(x + '\n' for x in s['lines'])
    if k in ('include', 'require'):
        return s['lead'] + k + s['ws'] + s['name'] + s['end'] + '\n'
    if k in ('inherit', 'inherit_defer'):
        return s['lead'] + k + s['ws'] + s['sep'].join(s['classes']) + s['end'] + '\n'
    if k == 'inherit_glob':
        return 'INHERIT' + s['pre'] + s['op'] + s['post'] + s['q'] + s['in1'] + s['sep'].join(s['classes']) + s['in2'] + s['q'] + s['end'] + '\n'
    if k == 'export':
        return s['lead'] + 'export' + s['ws'] + s['name'] + s['pre'] + s['op'] + s['post'] + value_text(s['v']) + s['end'] + '\n'
    if k == 'export_noval':
        return s['lead'] + 'export' + s['ws'] + s['name'] + s['end'] + '\n'
    if k == 'addtask':
        res = s['lead'] + 'addtask' + s['ws'] + s['name']
        for p, sep, names, a, b in s['parts']:
            res += a + p + b + sep.join(names)
        return res + (s['cws'] + s['comment'] if s['comment'] else '') + '\n'
    if k == 'deltask':
        return s['lead'] + 'deltask' + s['ws'] + s['name'] + (s['cws'] + s['comment'] if s['comment'] else '') + '\n'
    if k == 'unset':
        return s['lead'] + 'unset' + s['ws'] + s['name'] + ('[' + s['flag'] + ']' if s['flag'] else '') + s['end'] + '\n'
    if k == 'exportfunc':
        return 'EXPORT_FUNCTIONS' + s['ws'] + s['sep'].join(s['names']) + s['end'] + '\n'
    if k == 'addpylib':
        return s['lead'] + 'addpylib' + s['ws'] + s['path'] + s['ws2'] + s['ns'] + s['end'] + '\n'
    if k == 'addfragments':
        return 'addfragments' + s['ws'] + s['path'] + s['ws2'] + s['var'] + s['ws3'] + s['flagged'] + s['end'] + '\n'
    if k == 'include_all':
        return 'include_all' + s['ws'] + s['file'] + '\n'
    if k in ('blank', 'unknown'):
        return s['text'] + '\n'
    raise KeyError(k)


def switches(s):
    """does this statement make the rest of the file use the new override syntax"""
    return s['k'] in ('var', 'func') and s['style'] == ':' and bool(s['subs'])


def split_name(stmt, new):
    """(name, overrides, delimiter) of a variable, `new`: syntax in force before the statement"""
    if stmt['style'] == ':' and stmt['subs']:
        return stmt['base'], list(stmt['subs']), ':'
    if new:
        return name_of(stmt), [], ':'
    return stmt['base'], list(stmt['subs']), '_'


def strip_quotes(raw):
    return raw[1:-1]


def expect(s, new):
    """expected report: {"kind", "attrs", "items"}; attrs maps public property to value"""
    k = s['k']
    if k == 'var':
        name, subs, delim = split_name(s, new)
        value_ = value_raw(s['v']) + s['trail']
        return {'kind': 'Variable', 'attrs': {
            'VarName': name, 'RawVarName': name, 'SubItem': delim.join(subs), 'SubItems': subs, 'OverrideDelimiter': delim,
            'IsNewStyleOverrideSyntax': delim == ':',
            'VarNameComplete': delim.join([name] + subs),
            'VarNameCompleteNoModifiers': delim.join([name] + [x for x in subs if x not in MODIFIERS]),
            'VarOp': s['pre'] + s['op'] + s['post'], 'VarValue': value_, 'VarValueStripped': value_inner(s['v'])},
            'items': value_tokens(s['v'])}
    if k == 'flag':
        return {'kind': 'FlagAssignment', 'attrs': {
            'VarName': s['name'], 'Flag': s['flag'], 'VarOp': s['pre'] + s['op'] + s['post'], 'Value': value_raw(s['v']) + s['trail'],
            'ValueStripped': value_inner(s['v'])}, 'items': [s['name'], s['flag'], s['pre'] + s['op'] + s['post'], value_inner(s['v'])]}
    if k == 'func':
        if s['style'] == ':' and s['subs']:
            name, subs, delim = s['base'], s['subs'], ':'
        elif new:
            name, subs, delim = '_'.join([s['base']] + s['subs']), [], ':'
        else:
            name, subs, delim = s['base'], s['subs'], '_'
        one = s.get('one')
        raw = textwrap.dedent('\n' + ''.join(x + '\n' for x in s['body'])) if one is None else textwrap.dedent(one)
        return {'kind': 'Function', 'attrs': {
            'FuncName': name, 'SubItem': delim.join(subs), 'SubItems': subs, 'FuncNameComplete': delim.join([name] + subs),
            'IsPython': 'python' in s['prefix'], 'IsFakeroot': 'fakeroot' in s['prefix'], 'OverrideDelimiter': delim,
            'FuncBodyRaw': raw, 'FuncBody': ''.join(x[:-1] + ESC if x.endswith('\\') else x for x in s['body']) if one is None else one}, 'items': raw.split('\n')}
    if k == 'def':
        return {'kind': 'PythonBlock', 'attrs': {'FuncName': s['name']}, 'items': render(s).split('\n')}
    if k == 'comment':
        return {'kind': 'Comment', 'attrs': {}, 'items': render(s).split('\n')}
    if k in ('include', 'require'):
        return {'kind': 'Include', 'attrs': {'IncName': s['name'], 'Statement': k}, 'items': [s['name'], k]}
    if k in ('inherit', 'inherit_defer'):
        return {'kind': 'Inherit', 'attrs': {'Statement': k, 'Class': s['sep'].replace('\\\n', ESC).join(s['classes']) + s['end']}, 'items': s['classes']}
    if k == 'inherit_glob':
        return {'kind': 'Inherit', 'attrs': {'Statement': 'INHERIT', 'Class': s['in1'] + s['sep'].replace('\\\n', ESC).join(s['classes']) + s['in2']},
                'items': s['classes']}
    if k == 'export':
        return {'kind': 'Export', 'attrs': {'Name': s['name'], 'Value': value_inner(s['v'])}, 'items': [s['name'], value_inner(s['v'])]}
    if k == 'export_noval':
        return {'kind': 'Export', 'attrs': {'Name': s['name'], 'Value': ''}, 'items': [s['name'], '']}
    if k == 'addtask':
        parts = {p: names for p, _, names, _, _ in s['parts']}
        return {'kind': 'TaskAdd', 'attrs': {'FuncName': s['name'], 'Before': parts.get('before', []), 'After': parts.get('after', []),
                                             'Comment': s['comment']},
                'items': [s['name']] + parts.get('before', []) + parts.get('after', [])}
    if k == 'deltask':
        return {'kind': 'TaskDel', 'attrs': {'FuncName': s['name'], 'Comment': s['comment']}, 'items': [s['name']]}
    if k == 'unset':
        return {'kind': 'Unset', 'attrs': {'VarName': s['name'], 'Flag': s['flag']}, 'items': [s['name'], s['flag']]}
    if k == 'exportfunc':
        return {'kind': 'FunctionExports', 'attrs': {}, 'items': s['names']}
    if k == 'addpylib':
        return {'kind': 'AddPylib', 'attrs': {'Path': s['path'], 'Namespace': s['ns']}, 'items': [s['path'], s['ns']]}
    if k == 'addfragments':
        return {'kind': 'AddFragements', 'attrs': {'Path': s['path'], 'Variable': s['var'], 'Flagged': s['flagged']},
                'items': [s['path'], s['var'], s['flagged']]}
    if k == 'include_all':
        return {'kind': 'IncludeAll', 'attrs': {'File': s['file']}, 'items': [s['file']]}
    if k in ('blank', 'unknown'):
        return {'kind': 'Item', 'attrs': {}, 'items': None}
    raise KeyError(k)


# ---------------------------------------------------------------- files

def _glues(prev, s):
    """would s be swallowed by, or merged with, the statement before it"""
    text = render(s)
    if prev['k'] == 'def':
        return text.strip() == '' or text[0] in ' \t' or text[0] == '\n'
    if prev['k'] == 'comment':
        return s['k'] == 'comment' and prev['lines'][0].startswith('#') and s['lines'][0].startswith('#')
    return False


def legalise(stmts):
    """drop statements that would not stand on their own in this position"""
    res = []
    for s in stmts:
        if res and _glues(res[-1], s):
            continue
        res.append(s)
    return res


def document(stmt=None, lo=0, hi=8):
    return st.lists(stmt if stmt is not None else any_stmt(), min_size=lo, max_size=hi).map(legalise)


def text_of(stmts, eof_newline=True):
    res = ''.join(render(s) for s in stmts)
    if not eof_newline and res.endswith('\n'):
        res = res[:-1]
    return res


def expected_items(stmts, new=False):
    """list of (expected report, first line, text)"""
    res = []
    line = 1
    for s in stmts:
        text = render(s)
        res.append((expect(s, new), line, text))
        line += text.count('\n')
        new = new or switches(s)
    return res
