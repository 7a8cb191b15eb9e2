"""C30: an edited item reports the edit, and nothing else changes."""
import bb
from common import describe
from core import Campaign, ensure, new_stash, same, st

ID = 'C30'
TECHNIQUE = 'metamorphic property testing: items are edited to what another version of the file holds; reports, queries and expansions have to agree with that version loaded afresh'
RULE = ('Files of one to eight variables and functions in two versions that differ in some values and bodies; the first is loaded and its items are edited to the second, lines included; non-trivial if a value, and not every item, is edited. '
        'Settings: one to eight single assignments of arbitrary text to items of any kind, every attribute of every item compared after each; non-trivial if two kinds of attributes were set.')
ASSUMPTIONS = ['values hold no inline python (its blocks are not editable)', 'queries are asked after the edits (answers to filters on attributes are kept)', 'the unindented function body is not editable']

bases = st.sampled_from(['A', 'A', 'B', 'PACKAGES', 'SRC_URI', 'PACKAGES_DYNAMIC', 'IMAGE_INSTALL', 'FILES'])
tok = st.one_of(st.sampled_from(['a', 'b', '${A}', '${B}-x', '${PN}', 'file://x;name=n', 'git://y;name=${PN}', '^q.*', 'x86']), bb.token)
pair = st.one_of(
    st.tuples(bb.var_stmt(bases=bases, subs=st.lists(st.sampled_from(['append', 'remove', 'prepend', 'qemux86']), max_size=2), val=bb.value(tok=tok)), bb.value(tok=tok), st.booleans()),
    st.tuples(bb.var_stmt(bases=bases, val=bb.value(tok=tok)), bb.value(tok=tok), st.booleans()),
    st.tuples(bb.func_stmt().map(lambda s: dict(s, end=s['end'].lstrip())), bb.func_body(), st.booleans()))
case = st.fixed_dictionaries({'pairs': st.lists(pair, min_size=1, max_size=8), 'move': st.permutations(list(range(8))), 'moved': st.booleans()})
SKIP = ('FuncBodyRaw',)


def other(stmt, new, edit):
    if not edit:
        return stmt
    if stmt['k'] == 'func':
        return dict(stmt, body=new)
    # the quote character is part of the value
    return dict(stmt, v=new)


def report(stash, rec):
    return {'expanded': stash.ExpandVar(filename=rec), 'packages': stash.GetValidPackageNames(rec), 'resources': stash.GetValidNamedResources(rec), 'dynamic': stash.GetPackagesDynamic(rec),
            'terms': [stash.ExpandTerm(rec, t) for t in ('${A}', '${B}', '<${SRC_URI}>')], 'image': stash.IsImage(rec), 'order': [(x.CLASSIFIER, x.InFileLine) for x in stash.GetItemsFor(filename=rec)],
            'values': [x.VarValue for x in stash.GetItemsFor(filename=rec, classifier='Variable', attribute='VarName', attributeValue=['A', 'PACKAGES'])]}


def look(x):
    res = {k: v for k, v in describe(x).items() if k not in SKIP}
    if x.CLASSIFIER == 'Variable':
        res['entries'] = x.get_items()
        res['versioned'] = x.get_items(versioned=True)
        res['multi'] = x.IsMultiLine()
        res['append'] = x.IsAppend(), x.AppendOperation(), x.IsImmediateModify()
    return res


def check(case, ctx):
    pairs = [(s, other(s, n, e), e and other(s, n, e) != s) for s, n, e in case['pairs']]
    ctx.write('p/conf/layer.conf', '')
    one = ctx.write('p/a/r_1.0.bb', bb.text_of([s for s, _, _ in pairs]))
    two = ctx.write('p/b/r_1.0.bb', bb.text_of([t for _, t, _ in pairs]))
    sa, sb = new_stash(), new_stash()
    ia, ib = sa.AddFile(one), sb.AddFile(two)
    sa.Finalize()
    sb.Finalize()
    ensure(len(ia) == len(ib) == len(pairs), 'not one item per statement')
    before = [look(x) for x in ia]
    raw = [getattr(x, 'FuncBodyRaw', None) for x in ia]
    infile = [x.InFileLine for x in ia]
    for i, (a, b) in enumerate(zip(ia, ib)):
        if pairs[i][2]:
            if a.CLASSIFIER == 'Variable':
                a.VarValue = b.VarValue
            else:
                a.FuncBody = b.FuncBody
            a.Raw = b.Raw
            a.RealRaw = b.RealRaw
        a.Line = b.Line
    for i, (a, b) in enumerate(zip(ia, ib)):
        text = bb.render(pairs[i][0])
        same('overall line of %r' % text, a.Line, b.Line)
        same('in-file line of %r' % text, a.InFileLine, infile[i])
        same('unindented body of %r' % text, getattr(a, 'FuncBodyRaw', None), raw[i])
        same('report of %r' % text, look(a), look(b) if pairs[i][2] else before[i])
        ensure(a.GetAttributes()['RealRaw'] == b.RealRaw and a.GetAttributes()['Line'] == b.Line, 'attributes of %r are not those of the edited item' % text)
    want, got = report(sb, two), report(sa, one)
    order = [c for c, _ in want.pop('order')]
    same('order of kinds', [c for c, _ in got.pop('order')], order)
    for k in want:
        same(k + ' after the edits', got[k], want[k])
    if case['moved']:
        # overall lines decide on the order
        fresh = new_stash()
        items = fresh.AddFile(one)
        fresh.Finalize()
        rank = [case['move'].index(i) for i in range(8)]
        for i, x in enumerate(items):
            x.Line = 10 + rank[i]
        order = sorted(range(len(items)), key=lambda i: rank[i])
        ensure([id(x) for x in fresh.GetItemsFor()] == [id(items[i]) for i in order], 'items are not in the order of their lines')
        ctx.label('moved')
    edited = [e for _, _, e in pairs]
    ctx.nt(any(e and s['k'] == 'var' for s, _, e in pairs) and not all(edited))


words = st.one_of(st.sampled_from(['', '"a b"', "'x'", 'A = "2"\n', '"a \x1b b"', '{', '    x\n', 'a\nb\n', '"${A}"', 'a \\\n b', '"']), bb.token, st.text(alphabet='ab"\' \n\\{}', max_size=6))
setting = st.fixed_dictionaries({'item': st.integers(0, 11), 'attr': st.sampled_from(['Raw', 'RealRaw', 'Line', 'VarValue', 'VarValue', 'FuncBody']), 'text': words, 'line': st.integers(1, 40)})
settings = st.fixed_dictionaries({'doc': st.lists(bb.any_stmt(), min_size=1, max_size=5), 'set': st.lists(setting, min_size=1, max_size=8)})
DERIVED = {'VarValue': ['VarValueStripped'], 'FuncBody': ['FuncBodyStripped']}


def check_settings(case, ctx):
    """each assignment alone, of any text to items of any kind"""
    stash = new_stash()
    items = stash.AddFile(ctx.write('p/r_1.0.bb', bb.text_of(case['doc'])))
    stash.Finalize()
    every = [dict(x.GetAttributes()) for x in items]
    hit = set()
    for s in case['set']:
        x = items[s['item'] % len(items)]
        state = every[s['item'] % len(items)]
        if s['attr'] not in state:
            continue
        new = s['line'] if s['attr'] == 'Line' else s['text']
        setattr(x, s['attr'], new)
        state[s['attr']] = new
        hit.add(s['attr'])
        if s['attr'] == 'VarValue':
            t = new.strip()
            state['VarValueStripped'] = t[1:-1] if len(t) > 1 and t[0] == t[-1] == "'" else t.strip('"')
        if s['attr'] == 'FuncBody':
            state['FuncBodyStripped'] = ''.join(c for c in new if c not in '{}\n').strip()
        for i, (y, want) in enumerate(zip(items, every)):
            got = y.GetAttributes()
            for k in want:
                same('%s of item %d after setting %s of item %d' % (k, i, s['attr'], s['item'] % len(items)), got[k], want[k], bb.text_of(case['doc']))
                same('%s read directly' % k, getattr(y, k), want[k])
        if x.CLASSIFIER == 'Variable':
            same('entries', x.get_items(), [w for w in state['VarValueStripped'].replace('\x1b', ' ').split() if w])
            same('spans lines', x.IsMultiLine(), '\x1b' in x.Raw or '\\\n' in x.Raw or any(ln.rstrip(' \t').endswith('\\') for ln in x.Raw.split('\n')[:-1]))
        elif x.CLASSIFIER in ('Comment', 'PythonBlock'):
            same('lines', x.get_items(), state['Raw'].split('\n'))
    order = sorted(range(len(items)), key=lambda i: every[i]['Line'])
    ensure([id(x) for x in stash.GetItemsFor()] == [id(items[i]) for i in order], 'items are not in the order of their lines')
    ctx.nt(len(hit) > 1)
    ctx.label('%d kinds of edits' % len(hit))


CAMPAIGNS = [Campaign('edits', case, check, 4000, 60000), Campaign('settings', settings, check_settings, 4000, 60000)]
