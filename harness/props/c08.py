"""C08: supported inline python conditionals expand to the selected branch."""
import bb
import inline
from core import Campaign, ensure, new_stash, oelint_parser, same, st

ID = 'C08'
TECHNIQUE = 'property-based testing: generated helper calls with known branches embedded in statements, oracle = the argument the call was built from'
RULE = ('Values and other statements holding one to four, seldom up to fourteen, inline blocks between text, each a supported helper call or d.getVar with generated arguments and spacing, or an unsupported expression; '
        'non-trivial if a supported call has an argument with a comma, blank, bracket or reference, or if there is more than one block.')
ASSUMPTIONS = ['a block holds exactly one call', 'arguments hold no line break; parentheses occur inside of quotes or balanced']

block = st.one_of(inline.call(), inline.call(), inline.call(), inline.getvar(), inline.opaque)
kinds = st.sampled_from(['var', 'var', 'var', 'append', 'flag', 'export', 'func', 'inherit', 'comment', 'bare'])
case = st.fixed_dictionaries({'kind': kinds, 'parts': st.one_of(*[st.lists(st.tuples(inline.text, block), min_size=1, max_size=4)] * 9, st.lists(st.tuples(inline.text, block), min_size=5, max_size=14)), 'tail': inline.text, 'neg': st.booleans(), 'q': st.sampled_from(['"', '"', "'"]),
                              'op': st.sampled_from(bb.OPS)})
HOLD = '!!!inlineblock!!!'
WRAP = {'var': ('A_B {op} {q}', '{q}'), 'append': ('A:append = {q}', '{q}'), 'flag': ('A[x] {op} {q}', '{q}'), 'export': ('export A = {q}', '{q}'), 'func': ('do_x() {{\n    echo ', '\n}}'),
        'inherit': ('inherit a ', ''), 'comment': ('# ', ''), 'bare': ('', '')}


def check(case, ctx):
    neg = case['neg']
    kind = case['kind']
    src = want = ''
    known = True
    for text, b in case['parts']:
        if kind == 'inherit':
            text = text.replace('{', '').replace('}', '')
        src += text + b['src']
        res = b['neg'] if neg else b['pos']
        got = oelint_parser.inlinerep.inlinerep(b['src'], neg)
        same('replacement of %r' % b['src'], got, res)
        same('replacement of %r without naming a branch' % b['src'], oelint_parser.inlinerep.inlinerep(b['src']), b['pos'])
        want += text + (HOLD if res is None else res)
        known &= res is not None
        ctx.label(b['fn'])
        ctx.nt(res is not None and any(c in b['src'].split('(', 1)[-1][:-2] for c in ',') and len(b['src']) > 20)
    ctx.nt(len(case['parts']) > 1)
    src += case['tail']
    want += case['tail']
    head, foot = (x.format(q=case['q'], op=case['op']) for x in WRAP[kind])
    if kind in ('var', 'append', 'flag', 'export'):
        # the outermost characters are not to be taken for the quotes of the value
        src, want = 'v' + src + 'v', 'v' + want + 'v'
    if kind == 'bare':
        src, want = '%' + src, '%' + want
    body = head + src + foot + '\n'
    path = ctx.write('a_1.0.bb', body)
    stash = new_stash(negative_inline=neg)
    items = stash.AddFile(path)
    same('number of items', len(items), 1)
    x = items[0]
    same('unprocessed text', x.RealRaw, body)
    same('text with blocks replaced', x.Raw, head + want + foot + '\n')
    same('replaced blocks', [b[0] for b in x.InlineBlocks], [b['src'] for _, b in case['parts']])
    if kind in ('var', 'append'):
        same('kind', x.CLASSIFIER, 'Variable')
        same('value', x.VarValue, case['q'] + want + case['q'])
        same('stripped value', x.VarValueStripped, want)
    elif kind == 'flag':
        same('value', x.ValueStripped, want)
    elif kind == 'export':
        same('value', x.Value, want)
    elif kind == 'inherit':
        same('classes', x.Class, 'a ' + want)
    elif kind == 'func':
        same('body', x.FuncBodyRaw.strip(), ('echo ' + want).strip())
    if kind in ('var', 'append') and known and '${' not in want:
        same('expanded value', stash.ExpandTerm(path, x.VarValue), case['q'] + want + case['q'])
        same('expanded variable', stash.ExpandVar(path, attribute='VarName', attributeValue=x.VarName).get(x.VarNameCompleteNoModifiers), want.split())
    ctx.label(kind)


CAMPAIGNS = [Campaign('blocks', case, check, 7000, 120000)]
