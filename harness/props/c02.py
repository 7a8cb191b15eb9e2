"""C02: any content and layout is parsed without exception or endless work."""
import bb
from common import accessors, exercise
from core import Campaign, new_stash, st
from props.c01 import FRAG, edit, inlined, mutate

ID = 'C02'
TECHNIQUE = 'fuzzing with structured generators (Hypothesis): arbitrary contents, layouts, truncations; oracle: every public call returns within a CPU bound'
NOTE = 'Nesting of includes and of variable references is limited to a dozen levels in generated cases.'
RULE = ('File sets of one to five files in a layer tree holding mutated statement sequences or fragment soups that include, require and inherit '
        'each other, cycles and missing or ignored names included; non-trivial if at least two files were read or at least three kinds of items reported.')
ASSUMPTIONS = ['include and reference nesting stays below the interpreter recursion limit',
               'a case burning more than 30 s of CPU counts as endless']

NAMES = ['recipes/a_1.0.bb', 'recipes/a.inc', 'recipes/b.inc', 'classes/k.bbclass', 'classes/m.bbclass', 'conf/layer.conf', 'recipes/a_%.bbappend', 'recipes/b_2.bb',
         'conf/distro/dd.conf', 'recipes/noext', 'recipes/x_1_2_.bb', 'classes-global/g.bbclass', 'recipes/%.bbappend', '_.bb', 'recipes/a_1.0.bbappend', 'conf/machine/mm.conf']
links = st.sampled_from(['include a.inc\n', 'require b.inc\n', 'include recipes/a.inc\n', 'require recipes/b.inc\n', 'inherit k\n', 'inherit m k\n', 'inherit k g\n',
                         'include nope.inc\n', 'inherit nope\n', 'require a_1.0.bb\n', 'include .\n', 'require ..\n', 'include ${PN}.inc\n', 'inherit ${A}\n', 'require ${A}\n',
                         'INHERIT += "k m"\n', 'INHERIT = ""\n', 'inherit_defer m\n', 'include ./a.inc\n', 'require ../recipes/b.inc\n', 'include a_%.bbappend\n',
                         'require conf/layer.conf\n', 'inherit ${@bb.utils.contains("A", "b", "k", "m", d)}\n', 'include_all a.inc\n', 'require classes/k.bbclass\n',
                         'inherit ignored\n', 'include ignored.inc\n', 'inherit \n', 'include\n', 'require ${A}/b.inc\n', 'inherit k \\\n  m\n'])
selfref = st.sampled_from(['A = "${A}"\n', 'A = "${B}"\n', 'B = "${A} ${C}"\n', 'C = "${B}${B}"\n', 'A = "${@d.getVar(\'B\')}"\n', 'B = "${@foo(\'${A}\')}"\n', 'PACKAGES = "${A} ["\n',
                           'PACKAGES_DYNAMIC += "^(a+)+$ *x ["\n', 'SRC_URI = "file://${A};name=${B} http://[x git://a;b;=c"\n', 'A = "${@oe.utils.read_file(\'${B}\')}"\n', 'PN = "${PN}"\n',
                           'A:append = " ${@foo}"\n', 'A:remove = "${A}"\n', 'unset A\n', 'A_append = " b"\n', '${A} = "${B}"\n', 'PACKAGES =. "${PN}-x "\n', 'B = "${FILE} ${THISDIR}"\n',
                           'A = "${@oe.utils.read_file(\'${FILE}\')}"\n', 'PV = "${PV}"\n', 'MLPREFIX = "${MLPREFIX}"\n', 'A ?= "x"\n', 'A ??= "${@"\n', 'A = "!!!inlineblock!!! ${B}"\n'])

content = st.one_of(
    st.lists(st.one_of(links, links, selfref, inlined, bb.any_stmt().map(bb.render)), max_size=7).map(''.join),
    st.builds(mutate, st.lists(st.one_of(links, selfref, inlined, bb.any_stmt().map(bb.render)), max_size=6).map(''.join), st.lists(edit, max_size=4)),
    st.lists(st.one_of(st.sampled_from(FRAG), links, selfref, st.text(st.characters(exclude_categories=['Cs']), max_size=3)), max_size=20).map(''.join),
)
layout = st.fixed_dictionaries({
    'files': st.lists(st.tuples(st.sampled_from(NAMES), content), min_size=1, max_size=5, unique_by=lambda t: t[0]),
    'add': st.lists(st.sampled_from(['0', '1', '2', '3', '4', '0', '1', 'missing_1.bb', '.', 'recipes', '']), min_size=1, max_size=6),
    'layer': st.booleans(), 'neg': st.booleans(), 'new': st.booleans(), 'fin': st.sampled_from([0, 1, 1, 1, 2]), 'query_between': st.booleans()})


def check_layout(case, ctx):
    from core import CONSTANTS
    files = [(n, t) for n, t in case['files']]
    if case['layer'] and 'conf/layer.conf' not in dict(files):
        ctx.write('conf/layer.conf', '')
    paths = [ctx.write(n, t.encode('utf-8', 'surrogateescape')) for n, t in files]
    CONSTANTS.OverrideConstants({'ignore': {'classes': ['ignored', 'm'], 'include': ['ignored.inc']}})
    stash = new_stash(negative_inline=case['neg'], new_style_override_syntax=case['new'])
    added = []
    for a in case['add']:
        p = paths[int(a) % len(paths)] if a.isdigit() else (ctx.path(a) if a and a != '\x00' else a)
        try:
            stash.AddFile(p)
        except ValueError:
            if '\x00' not in p:
                raise
        added.append(p)
        if case['query_between'] and '\x00' not in p:
            exercise(stash, [p], deep=False)
    for _ in range(case['fin']):
        stash.Finalize()
    exercise(stash, sorted({p for p in paths + added if '\x00' not in p}))
    items = stash.GetItemsFor()
    kinds = {x.CLASSIFIER for x in items}
    for x in items:
        for b in x.IncludedFrom:
            b.__len__()
    for k in kinds:
        ctx.label(k)
    n = len({x.Origin for x in items})
    ctx.label('files read: %d' % n)
    ctx.nt(n > 1 or len(kinds) > 2)


def check_truncate(case, ctx):
    text = (bb.text_of(case['doc']) + case['tail']).encode('utf-8', 'surrogateescape')
    n = len(text)
    stash = new_stash()
    for i in range(max(0, n - 250), n + 1):
        path = ctx.write('t%d.bb' % i, text[:i])
        for x in stash.AddFile(path):
            accessors(x)
    ctx.nt(n > 20)


def check_repeat(case, ctx):
    text = case['head'] + case['frag'] * case['n'] + case['tail']
    path = ctx.write('r_1.0.bb', text.encode('utf-8', 'surrogateescape'))
    stash = new_stash()
    for x in stash.AddFile(path):
        accessors(x)
    stash.Finalize()
    exercise(stash, [path])
    ctx.nt(len(text) > 50)


repeat = st.fixed_dictionaries({'head': st.sampled_from(['', 'A = "', 'A', 'inherit ', 'addtask x ', 'do_x() {\n', 'export ', 'A = "${@', 'python ', '# ', 'def f(', 'unset ', 'A[', 'INHERIT = "',
                                                         'A = "${@bb.utils.contains(', 'A = "${@oe.utils.any_distro_features(', 'PACKAGES = "', 'EXPORT_FUNCTIONS ', 'A = "${@d.getVar(']),
                                'frag': st.one_of(st.sampled_from(FRAG), st.lists(st.sampled_from(FRAG), min_size=2, max_size=3).map(''.join),
                                                  st.sampled_from([',', 'before ', 'after ', ' x', '${A}', '(', 'a,', '"', 'a b', '_a', '-', '=', ' = ', '}{', '${', ':a', '\t ', 'fakeroot python ', 'x=']),
                                               st.sampled_from(['require r_1.0.bb\n', 'include r_1.0.bb\n', 'require ${PN}_1.0.bb\nA = "1"\n', 'inherit r_1.0\n'])),
                                'n': st.sampled_from([2, 10, 30, 60, 120]), 'tail': st.sampled_from(['', '"\n', '\n', ')}"\n', '}\n', '!\n', '\\', '[', ' #'])})

CAMPAIGNS = [
    Campaign('layouts', layout, check_layout, 3200, 60000),
    Campaign('truncation', st.fixed_dictionaries({'doc': bb.document(hi=3), 'tail': st.one_of(st.just(''), inlined)}), check_truncate, 200, 4000),
    Campaign('repetition', repeat, check_repeat, 900, 15000),
]
