"""C32: the items of a file are its statements, one each and of the right kind."""
import bb
from common import compare_document
from core import Campaign, ensure, new_stash, same, st

ID = 'C32'
TECHNIQUE = 'property-based testing: grammar-generated files of all statements, comments, blank lines and near misses of statements, oracle = the list of pieces the text was built from'
RULE = ('Files of one to ten pieces of any kind in both override syntaxes, two of five being comments or lines that nearly are a statement; non-trivial if there are at least three kinds, or a near miss or a comment between other statements.')
ASSUMPTIONS = ['statements are complete; a def helper owns the blank and indented lines following it, adjacent comment lines form one comment', 'near misses do not start with def and a blank']

KEYWORDS = {'inherit': 'foo', 'inherit_defer': 'foo', 'include': 'a.inc', 'require': 'a.inc', 'include_all': 'a.conf', 'addtask': 'do_x after do_y', 'deltask': 'do_x', 'export': 'FOO', 'unset': 'FOO',
            'EXPORT_FUNCTIONS': 'do_x', 'addpylib': '${LAYERDIR}/lib oe', 'addfragments': 'conf/fragments A B'}
_alt = [w.swapcase() + ' ' + op for w, op in KEYWORDS.items()]
near = st.one_of(
    st.tuples(st.sampled_from(sorted(KEYWORDS)), st.sampled_from(['x', '-', '1', '.', ':'])).map(lambda t: t[0] + t[1] + ' ' + KEYWORDS[t[0]]),
    st.tuples(st.sampled_from(sorted(KEYWORDS)), st.sampled_from(['x', '-', '1', '_', '"', '$', '@ '])).map(lambda t: t[1] + t[0] + ' ' + KEYWORDS[t[0]]),
    st.sampled_from(sorted(KEYWORDS)),
    st.sampled_from(sorted(set(KEYWORDS) - {'EXPORT_FUNCTIONS'})).map(lambda w: w + ' '),
    st.sampled_from(_alt),
    st.sampled_from(['addpylib lib oe', 'addpylib${LAYERDIR}/lib oe', 'A [x] = "b"', 'A[x] "b"', 'addpylib ${LAYERDIR}/lib', 'addfragments a b', 'define x', 'xdef y(d):', 'Def y(d):', 'do_x()', 'do_x() }', 'do_x( {', 'python {', '= "x"', '"A" = "b"', 'A B = "c"', '@A = "x"', 'A ! = "x"',
                     'A[x = "b"', 'A[] = "b"', 'A[x y] = "b"', 'A[x]', 'A ?', 'A :', 'A', '()', '{', '}', '${A}', '/* x */', '// x', '; x', '- # x', '"# x"', 'x #', "'''", 'addhandler x', 'fakeroot do_x()'])).map(lambda t: {'k': 'unknown', 'text': t})
doc = bb.document(st.one_of(bb.any_stmt(), bb.any_stmt(), bb.any_stmt(), bb.comment_stmt(), near), lo=1, hi=10)
case = st.fixed_dictionaries({'doc': doc, 'new': st.booleans(), 'neg': st.booleans(), 'eof': st.booleans(), 'name': st.sampled_from(['a_1.0.bb', 'a.inc', 'k.bbclass', 'l.conf', 'a.bbappend', 'a_%.bbappend', 'README', 'x.bb.txt'])})


def check(case, ctx):
    doc = case['doc']
    path = ctx.write(case['name'], bb.text_of(doc, case['eof']))
    stash = new_stash(new_style_override_syntax=case['new'], negative_inline=case['neg'])
    items = stash.AddFile(path)
    compare_document(items, doc, case['new'], case['eof'])
    for x in items:
        same('type of the item of %r' % x.RealRaw, type(x).__name__, x.CLASSIFIER)
        same('file of %r' % x.RealRaw, x.Origin, path)
        same('class flag of %r' % x.RealRaw, x.IsFromClass, path.endswith('.bbclass'))
        same('append flag of %r' % x.RealRaw, x.IsFromAppend(), path.endswith('.bbappend'))
        if x.CLASSIFIER == 'Item':
            same('words of %r' % x.RealRaw, x.get_items(), x.RealRaw.split())
    # the same by the query
    same('items of the file', [(x.CLASSIFIER, x.RealRaw) for x in stash.GetItemsFor(filename=path)], [(x.CLASSIFIER, x.RealRaw) for x in items])
    kinds = {s['k'] for s in doc}
    ensure(len({x.InFileLine for x in items}) == len(items), 'two items start in the same line', [(x.InFileLine, x.RealRaw) for x in items])
    for k in kinds:
        ctx.label(k)
    ctx.nt(len(kinds) > 2 or (len(doc) > 2 and {'unknown', 'comment'} & {s['k'] for s in doc[1:-1]}))


CAMPAIGNS = [Campaign('documents', case, check, 6000, 100000)]
