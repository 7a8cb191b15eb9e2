"""C05: directives are reported with all their operands."""
import bb
from common import compare_item
from core import Campaign, new_stash, same, st

ID = 'C05'
TECHNIQUE = 'property-based testing: grammar-generated directives rendered to text, oracle = the operands the text was built from'
RULE = ('Files of one to ten directives with every spacing, among other statements; non-trivial if a directive has at least two operands or a comment.')
ASSUMPTIONS = ['one task per addtask/deltask', 'included files and classes named here do not exist (resolution is C20)']

KINDS = {'Include', 'Inherit', 'Export', 'TaskAdd', 'TaskDel', 'Unset', 'FunctionExports', 'AddPylib', 'AddFragements', 'IncludeAll'}
MINE = {'include', 'require', 'inherit', 'inherit_defer', 'inherit_glob', 'export', 'export_noval', 'addtask', 'deltask', 'unset', 'exportfunc', 'addpylib', 'addfragments', 'include_all'}
doc = bb.document(st.one_of(bb.simple_stmt(), bb.simple_stmt(), bb.simple_stmt(), bb.addtask_stmt(), bb.any_stmt()), lo=1, hi=10)
case = st.fixed_dictionaries({'doc': doc, 'new': st.booleans(), 'name': st.sampled_from(['w_1.0.bb', 'w_2.0.inc', 'k.bbclass', 'l.conf', 'w.bbappend']), 'eof': st.booleans()})


def check(case, ctx):
    doc = case['doc']
    path = ctx.write('sub/' + case['name'], bb.text_of(doc, case['eof']))
    stash = new_stash(new_style_override_syntax=case['new'])
    items = stash.AddFile(path)
    got = [x for x in items if x.CLASSIFIER in KINDS]
    want = bb.expected_items(doc, case['new'])
    picked = [w for s, w in zip(doc, want) if s['k'] in MINE]
    for x, (exp, line, text) in zip(got, picked):
        compare_item(x, exp, line, None)
        if exp['kind'] == 'Include':
            same('resolved file of %r' % text, x.FileIncluded, '')
        if exp['kind'] == 'Inherit':
            same('resolved classes of %r' % text, len(x.FilePaths), 0)
        if exp['kind'] == 'FunctionExports':
            stem = case['name'].rsplit('.', 1)[0]
            same('functions in class scope of %r' % text, x.get_items_unaliased(), [stem + '-' + n for n in exp['items']])
            same('names of %r' % text, x.FuncNames.replace('\x1b', ' ').split(), exp['items'])
    same('reported directives', [x.RealRaw.rstrip('\n') for x in got], [w[2].rstrip('\n') for w in picked])
    for s in doc:
        if s['k'] in MINE:
            ctx.label(s['k'])
            ctx.nt(len(s.get('parts', [])) > 1 or s.get('comment') or len(s.get('classes', s.get('names', []))) > 1 or s['k'] in ('export', 'addpylib', 'addfragments'))


CAMPAIGNS = [Campaign('documents', case, check, 8000, 150000)]
