"""C04: functions and python helpers are reported exactly."""
import bb
from common import compare_item
from core import CONSTANTS, Campaign, ensure, new_stash, same, st

ID = 'C04'
TECHNIQUE = 'property-based testing: grammar-generated functions rendered to text among decoys, oracle = the pieces the text was built from'
RULE = ('Files of functions, def helpers and decoys (comments and values mentioning functions) in both override syntaxes, with and without configured known functions; non-trivial if a function '
        'has at least two body lines or an override and another statement follows it.')
ASSUMPTIONS = ['function bodies have balanced braces, apart from unbalanced ones in strings not followed by lines starting with a closing brace',
               'in the old override syntax overrides follow an append/prepend/remove/class marker or a configured known function']

mention = st.sampled_from(['A = "do_x() {"\n', '# do_x() {\n', 'A = "python () { }"\n', '#python x() {\n', 'A = "b \\\n  do_x() { \\\n"\n', 'B = "def x():"\n', 'A[x] = "f() {}"\n', "C = 'x(){ '\n"]).map(
    lambda t: {'k': 'raw', 'text': t})
doc = st.lists(st.one_of(bb.func_stmt(), bb.func_stmt(), bb.func_stmt(), bb.def_stmt(), bb.def_stmt(), bb.var_stmt(), bb.comment_stmt(), bb.filler_stmt(), bb.addtask_stmt(),
                         bb.simple_stmt(), mention), min_size=1, max_size=9)
case = st.fixed_dictionaries({'doc': doc, 'new': st.booleans(), 'name': st.sampled_from(['a_1.0.bb', 'a.inc', 'k.bbclass', 'l.conf', 'a.bbappend']), 'eof': st.booleans()})


def _legal(doc):
    res = []
    for s in doc:
        if s['k'] == 'raw':
            if res and res[-1]['k'] == 'comment' and s['text'][0] == '#':
                continue
            if res and res[-1]['k'] == 'raw' and s['text'][0] == res[-1]['text'][0] == '#':
                continue
        elif res and res[-1]['k'] == 'raw':
            if res[-1]['text'][0] == '#' and s['k'] == 'comment':
                continue
        elif res and bb._glues(res[-1], s):
            continue
        res.append(s)
    return res


def check(case, ctx):
    doc = _legal(case['doc'])
    new = case['new']
    text, want, line = '', [], 1
    for i, s in enumerate(doc):
        t = s['text'] if s['k'] == 'raw' else bb.render(s)
        last = i == len(doc) - 1
        if s['k'] in ('func', 'def'):
            exp = bb.expect(s, new)
            if last and not case['eof'] and s['k'] == 'def':
                exp['items'] = t[:-1].split('\n')
            want.append((exp, line, t[:-1] if last and not case['eof'] else t, s))
        if s['k'] != 'raw':
            new = new or bb.switches(s)
        line += t.count('\n')
        text += t
    if not case['eof'] and text:
        text = text[:-1]
    path = ctx.write(case['name'], text)
    stash = new_stash(new_style_override_syntax=case['new'])
    items = stash.AddFile(path)
    got = [x for x in items if x.CLASSIFIER in ('Function', 'PythonBlock')]
    for x, (exp, line, t, _) in zip(got, want):
        compare_item(x, exp, line, t)
    same('reported functions', [x.RealRaw for x in got], [w[2] for w in want])
    for _, _, _, s in want:
        if s['k'] == 'func':
            ctx.label('prefix ' + ' '.join(s['prefix'].split()))
            ctx.label('overrides %d%s' % (len(s['subs']), s['style']))
            ctx.label('body lines %d' % min(5, len(s['body'])) if s['one'] is None else 'body in the line of the name')
            ctx.nt((len(s['body']) > 1 or s['subs']) and s is not doc[-1])
        else:
            ctx.label('def')


KNOWN = ['do_install', 'do_compile', 'pkg_postinst', 'my_long_func']


def check_known(case, ctx):
    CONSTANTS.AddConstants({'functions': {'known': KNOWN}})
    name = case['style'].join([case['base']] + case['subs'])
    path = ctx.write('a.bb', '%s%s() {\n    x\n}\nA = "1"\n' % (case['prefix'], name))
    stash = new_stash(new_style_override_syntax=case['style'] == ':')
    f = stash.AddFile(path)[0]
    same('function name of %r' % name, f.FuncName, case['base'])
    same('overrides of %r' % name, f.SubItems, case['subs'])
    same('override text of %r' % name, f.SubItem, case['style'].join(case['subs']))
    same('complete name of %r' % name, f.FuncNameComplete, name)
    ensure(f.FuncBodyRaw.strip() == 'x', 'body', f.FuncBodyRaw)
    ctx.nt(bool(case['subs']))


known = st.fixed_dictionaries({'base': st.sampled_from(KNOWN), 'style': st.sampled_from(['_', ':']), 'prefix': st.sampled_from(['', 'python ', 'fakeroot ']),
                               'subs': st.lists(st.sampled_from(['append', 'prepend', 'qemux86', 'poky', '${PN}', 'class-target', 'class-nativesdk', 'remove', 'install', 'a-b', 'do', '${PN}-x']), max_size=3)})

CAMPAIGNS = [Campaign('documents', case, check, 8000, 150000), Campaign('known', known, check_known, 800, 6000)]
