"""C01: parsing is lossless."""
import bb
from core import Campaign, ensure, new_stash, same, st

ID = 'C01'
TECHNIQUE = 'property-based testing: grammar-aware and fragment-soup files against a lossless-concatenation and line-number oracle'
RULE = ('Files are (a) generated statement sequences, cut at a random character and/or with characters inserted, replaced or dropped, and '
        '(b) soups of syntactic fragments; a case is non-trivial if more than one item is reported and some item spans several lines '
        'or holds an inline block.')
ASSUMPTIONS = ['text files end their lines with LF, CRLF or CR',
               'lines are those of the text file, i.e. what universal newline reading yields']

FRAG = ['A', 'FOO', '_append', ':append', ' = ', ' += ', '="', '"', "'", '\\', '\\\n', '\n', '\n', '\n', '\n', '  ', '\t', '#', '# c\n', 'def f(d):\n',
        '    x\n', 'python ', 'fakeroot ', 'do_x', '()', '() {\n', '{', '}', '}\n', '\n}\n', '${@', '${@d.getVar("A")}', '${X}', 'inherit a', 'include b.inc',
        'require ${X}', 'addtask x before y', 'unset A', 'export A="b"', 'EXPORT_FUNCTIONS x', '!!!inlineblock!!!', '\x1b', 'x1b', '\x0c', '\x0b', '\x85',
        '\u2028', '\r\n', '\r', '\x00', 'ä', '${@bb.utils.contains("A", "b", "c", "d", d)}', '${@foo(1)}', '${@bb.utils.contains("A","b","${@x}","",d)}', '[x]', ' ',
        '\udcff', '\udcc3', 'deltask x', 'addpylib ${LAYERDIR}/lib x', '\ufeff', 'INHERIT += "a"', '\\ \n', '%', ')', '(']
soup = st.lists(st.one_of(st.sampled_from(FRAG), st.sampled_from(FRAG), st.sampled_from(FRAG),
                          st.text(st.characters(exclude_categories=['Cs']), max_size=3)), max_size=30).map(''.join)

edit = st.tuples(st.integers(0, 400), st.sampled_from(['cut', 'drop', 'ins', 'ins', 'dup']), st.sampled_from(FRAG))


def mutate(text, edits):
    for pos, op, frag in edits:
        pos = pos % (len(text) + 1)
        if op == 'cut':
            text = text[:pos]
        elif op == 'drop':
            text = text[:pos] + text[pos + 1:]
        elif op == 'ins':
            text = text[:pos] + frag + text[pos:]
        else:
            end = text.find('\n', pos) + 1
            text = text[:end] + text[pos:end] + text[end:]
    return text


inlined = st.sampled_from(['A = "x ${@d.getVar(\'B\')} y"\n', 'A = "${@foo(\'}\')} b"\n', 'A = "${@bb.utils.contains(\'A\', \'b\', \'c\', \'d\', d)} \\\n  b"\n',
                           'A = "${@x} ${@x}"\n', 'A = "!!!inlineblock!!! ${@x}"\n', 'A[x] = "${@{1: 2}}"\n', 'inherit ${@bb.utils.filter("A", "b", d)}\n',
                           'do_x() {\n  ${@foo}\n}\n', 'A = "${@open"\n'])
structured = st.builds(lambda docs, inl, edits: mutate(''.join(bb.text_of(d) + i for d, i in zip(docs, inl + [''] * 9)), edits),
                       st.lists(bb.document(hi=5), min_size=1, max_size=3), st.lists(inlined, max_size=3), st.lists(edit, max_size=4))

ext = st.sampled_from(['a_1.0.bb', 'a.inc', 'b.bbclass', 'l.conf', 'x_%.bbappend', 'noext'])
opts = st.fixed_dictionaries({'name': ext, 'pad': bb.PADS, 'neg': st.booleans(), 'new': st.booleans(), 'off': st.sampled_from([0, 0, 0, 1, 17]), 'nl': st.sampled_from(['\n', '\n', '\r\n', '\r'])})


def case_of(text):
    return st.builds(lambda t, o: dict(o, text=t), text, opts)


def check(case, ctx):
    text = case['text']
    text = bb.pad(case['pad']) + text
    if case['nl'] != '\n':
        text = text.replace('\r', '').replace('\n', case['nl'])
    data = text.encode('utf-8', 'surrogateescape')
    path = ctx.write('d/' + case['name'], data)
    # bytes that aren't valid UTF-8 stay what they are
    norm = data.decode('utf-8', 'surrogateescape').replace('\r\n', '\n').replace('\r', '\n')
    stash = new_stash(negative_inline=case['neg'], new_style_override_syntax=case['new'])
    items = stash.AddFile(path, lineOffset=case['off'])
    same('concatenated raw text', ''.join(x.RealRaw for x in items), norm)
    line = 1
    for x in items:
        same('in-file line of %r' % x.RealRaw, x.InFileLine, line)
        same('overall line of %r' % x.RealRaw, x.Line, line + case['off'])
        same('origin of %r' % x.RealRaw, x.Origin, path)
        ensure(x.RealRaw != '', 'item without text', repr(x))
        line += x.RealRaw.count('\n')
    # the same through a query, which orders by line
    again = stash.GetItemsFor(filename=path, nolink=True)
    same('concatenated raw text of the query', ''.join(x.RealRaw for x in again), norm)
    ctx.nt(len(items) > 1 and any(x.RealRaw.count('\n') > 1 or x.InlineBlocks for x in items))
    for x in items:
        ctx.label(x.CLASSIFIER)
        if x.InlineBlocks:
            ctx.label('inline')
    if norm and not norm.endswith('\n'):
        ctx.label('no final newline')


CAMPAIGNS = [
    Campaign('structured', case_of(structured), check, 6000, 160000),
    Campaign('soup', case_of(soup), check, 8000, 200000),
]
