"""C12: queries return exactly the items matching all filters, in line order."""
import os

import oelint_parser.cls_item as cls_item
import tree
from core import Campaign, ensure, new_stash, same, st

ID = 'C12'
TECHNIQUE = 'model-based property testing: generated projects and filter combinations against a brute-force filter over all items, composition of filters as metamorphic relation'
RULE = ('Filters over file, kind, attribute and value (single, list, tuple, set or absent; values taken from reported items or foreign) asked of a generated project; non-trivial if the answer is neither empty nor everything '
        'and at least two filters are set.')
ASSUMPTIONS = ['values to filter for are hashable', 'an empty single value counts as no filter', 'links are judged by the layout of the project, at most two steps away, after finalising']

KINDS = {c.CLASSIFIER: c for c in vars(cls_item).values() if isinstance(c, type) and issubclass(c, cls_item.Item)}
# the names a kind itself exports, and those of the base class (overrides only exist for variables and functions)
ATTRS = {k: sorted({getattr(c, a) for a in vars(c) if a.startswith('ATTR_')} - {'SubItem'} | {'Line', 'Raw', 'Origin'} | ({'SubItem'} if k in ('Variable', 'Function') else set()))
         for k, c in KINDS.items()}
# constant of the kind -> attribute it stands for
EXPORTED = {
    'Item': {'ATTR_LINE': 'Line', 'ATTR_RAW': 'Raw', 'ATTR_ORIGIN': 'Origin', 'ATTR_SUB': 'SubItem'},
    'Variable': {'ATTR_VAR': 'VarName', 'ATTR_VARVAL': 'VarValue', 'ATTR_VARRAW': 'RawVarName', 'ATTR_VARVALSTRIPPED': 'VarValueStripped'},
    'Comment': {},
    'Include': {'ATTR_INCNAME': 'IncName', 'ATTR_STATEMENT': 'Statement', 'ATTR_FILEINCLUDED': 'FileIncluded'},
    'Export': {'ATTR_NAME': 'Name', 'ATTR_STATEMENT': 'Value'},
    'Function': {'ATTR_FUNCNAME': 'FuncName', 'ATTR_FUNCBODY': 'FuncBody'},
    'PythonBlock': {'ATTR_FUNCNAME': 'FuncName'},
    'FlagAssignment': {'ATTR_NAME': 'VarName', 'ATTR_FLAG': 'Flag', 'ATTR_VARVAL': 'Value', 'ATTR_VARVAL_STRIPPED': 'ValueStripped', 'ATTR_VAROP': 'VarOp'},
    'FunctionExports': {'ATTR_FUNCNAME': 'FuncNames'},
    'TaskAdd': {'ATTR_FUNCNAME': 'FuncName', 'ATTR_BEFORE': 'Before', 'ATTR_AFTER': 'After', 'ATTR_COMMENT': 'Comment'},
    'TaskDel': {'ATTR_FUNCNAME': 'FuncName', 'ATTR_COMMENT': 'Comment'},
    'MissingFile': {'ATTR_FILENAME': 'Filename', 'ATTR_STATEMENT': 'Statement'},
    'AddPylib': {'ATTR_PATH': 'Path', 'ATTR_NAMESPACE': 'Namespace'},
    'AddFragements': {'ATTR_PATH': 'Path', 'ATTR_VARIABLE': 'Variable', 'ATTR_FLAGGED': 'Flagged'},
    'IncludeAll': {'ATTR_FILE': 'File'},
    'Inherit': {'ATTR_STATEMENT': 'Statement', 'ATTR_CLASS': 'Class'},
    'Unset': {'ATTR_VARNAME': 'VarName', 'ATTR_FLAG': 'Flag'},
}
RARE = ['include_all a.conf\n', 'include_all b\n', 'addfragments a B C\n', 'addfragments a X Y\n', 'addpylib l n\n', 'addpylib l m\n', 'unset A\n', 'unset A[x]\n', 'A[x] = "1"\n', 'B[x] += "2"\n', 'deltask a\n', 'EXPORT_FUNCTIONS a b\n', 'export A\n', 'export B = "1"\n', 'def f(d):\n    x\n\n']
ALL_ATTRS = sorted({a for v in ATTRS.values() for a in v} | {'InFileLine', 'RealRaw', 'VarOp', 'IsPython', 'SubItems', 'OverrideDelimiter', 'Nope', 'get_items', '__class__', 'IsFromClass', 'VarNameComplete'})
shape = st.sampled_from(['one', 'one', 'list', 'tuple', 'set', 'none', 'none', 'none'])
kind = st.sampled_from(sorted(KINDS) + ['Variable'] * 9 + ['Function', 'Nope', 'variable', 'Comment', 'Export', 'Item'])
query = st.fixed_dictionaries({
    'like': st.integers(-1, 60), 'like_attr': st.integers(0, 40),
    'file': st.one_of(st.none(), st.integers(0, 9), st.integers(0, 9)), 'nolink': st.booleans(),
    'ck': shape, 'classifier': st.lists(kind, min_size=1, max_size=3),
    'ak': shape, 'attribute': st.lists(st.sampled_from(ALL_ATTRS + ['VarName'] * 6 + ['FuncName', 'Origin', 'Line', 'SubItem', 'VarOp', 'SubItem']), min_size=1, max_size=3),
    'vk': shape, 'value': st.lists(st.one_of(st.integers(0, 60), st.integers(0, 60), st.integers(0, 60), st.sampled_from(['A', 'B', '', 'x', True, False, 1, 'do_x', None])), min_size=1, max_size=3)})
case = st.fixed_dictionaries({'proj': tree.project(text=st.one_of(st.sampled_from(tree.SIMPLE), tree.random_text(), st.sampled_from(RARE)), files=(3, 7), lo=1, size=6), 'rot': st.integers(0, 5), 'fin': st.booleans(), 'confs': st.lists(st.sampled_from(['l/conf/a.conf', 'l/recipes/x.conf', 'm/b.bb.conf']), max_size=2),
                              'queries': st.lists(query, min_size=2, max_size=6)})


def shaped(kind, vals):
    if kind == 'none':
        return None, []
    if kind == 'one':
        return vals[0], [vals[0]] if vals[0] is not None else []
    return {'list': list, 'tuple': tuple, 'set': set}[kind](vals), vals


def public(item, name):
    """(has, value) of a public property"""
    if name.startswith('_') or not isinstance(getattr(type(item), name, None), property):
        return False, None
    return True, getattr(item, name)


def check(case, ctx):
    proj = case['proj']
    paths = tree.write(proj, ctx)
    top = tree.tops(proj)
    top = top[case['rot'] % len(top):] + top[:case['rot'] % len(top)]
    stash = new_stash()
    for i in top:
        stash.AddFile(paths[i])
    confs = [ctx.write(n, 'CONF = "1"\n') for n in case['confs']]
    for p in confs:
        stash.AddFile(p)
    if case['fin']:
        stash.Finalize()
    everything = list(stash.GetItemsFor())
    ensure(len({id(x) for x in everything}) == len(everything), 'items reported more than once')
    graph = tree.direct(proj, top)
    loaded = sorted(paths[i] for i in graph)
    filled = [p for p in loaded if os.path.getsize(p)]
    same('recipes of the stash', stash.GetRecipes(), [p for p in loaded if p.endswith('.bb')])
    same('configuration files of the stash', stash.GetConfFiles(), sorted(set(confs) | {p for p in filled if p.endswith('.conf')}))
    same('classes of the stash', [p for p in stash.GetBBClasses() if os.path.getsize(p)], [p for p in filled if p.endswith('.bbclass')])
    same('appends without recipe', stash.GetLoneAppends(), [p for p in filled if p.endswith('.bbappend') and not any(
        q.endswith('.bb') and tree.matches(os.path.basename(p)[:-9], os.path.basename(q)[:-3]) for q in loaded)])
    for p in ('', None):
        same('links of no file', stash.GetLinksForFile(p), [])
    near = {}
    for i, p in enumerate(paths):
        dist = tree.depth(graph, i)
        near[p] = {paths[k] for k, d in dist.items() if d <= (2 if case['fin'] else 1)}
        near[p, 'far'] = any(d > (2 if case['fin'] else 1) for d in dist.values())
    paths = paths + sorted(set(confs))
    lines = [x.Line for x in everything]
    same('order of all items', lines, sorted(lines))

    def model(items, file, nolink, kinds, attrs, vals):
        res = []
        for x in items:
            if file and x.Origin != file and (nolink or x.Origin not in near.get(file, ())):
                continue
            if kinds and x.CLASSIFIER not in kinds:
                continue
            if attrs:
                got = [public(x, a) for a in attrs]
                if not any(h and (not vals or any(type(w) in (str, int, bool, type(None)) and v == w for w in vals)) for h, v in got):
                    continue
            res.append(x)
        return res

    def compare(what, got, want, **kw):
        ids = [id(x) for x in got]
        ensure(len(ids) == len(set(ids)), what + ': item reported more than once', kw)
        names = [(x.CLASSIFIER, os.path.basename(x.Origin), x.InFileLine) for x in got]
        wnames = [(x.CLASSIFIER, os.path.basename(x.Origin), x.InFileLine) for x in want]
        same(what, sorted(names), sorted(wnames), kw)
        ensure(set(ids) == {id(x) for x in want}, what + ': other items than expected', kw)
        pos = [x.Line for x in got]
        same(what + ': order', pos, sorted(pos), kw)

    for q in case['queries']:
        file = None
        if q['like'] >= 0 and everything:
            # a question this very item is an answer to
            like = everything[q['like'] % len(everything)]
            own = [a for a in ALL_ATTRS if public(like, a)[0] and isinstance(public(like, a)[1], (str, int))]
            name = own[q['like_attr'] % len(own)]
            q = dict(q, classifier=q['classifier'][:1] + [like.CLASSIFIER] if q['ck'] != 'one' else [like.CLASSIFIER],
                     attribute=q['attribute'][:1] + [name] if q['ak'] != 'one' else [name],
                     value=q['value'][:1] + [public(like, name)[1]] if q['vk'] != 'one' else [public(like, name)[1]],
                     file=None if q['file'] is None else paths.index(like.Origin))
            q['value'] = [v if type(v) is not int or isinstance(public(like, name)[1], int) else str(v) for v in q['value']]
        if q['file'] is not None:
            file = (paths + [ctx.path('l/recipes/other_1.bb')])[q['file'] % (len(paths) + 1)]
            if near.get((file, 'far')) and not q['nolink']:
                file = None
        vals = [public(everything[v % len(everything)], q['attribute'][i % len(q['attribute'])])[1] if type(v) is int and v > 1 and everything and q['like'] < 0 else v
                for i, v in enumerate(q['value'])]
        vals = [v if isinstance(v, (str, int, bool, type(None))) else 'x' for v in vals]
        carg, cset = shaped(q['ck'], q['classifier'])
        aarg, aset = shaped(q['ak'], q['attribute'])
        varg, vset = shaped(q['vk'], vals)
        kw = dict(filename=file, nolink=q['nolink'], classifier=carg, attribute=aarg, attributeValue=varg)
        want = model(everything, file, q['nolink'], cset, aset, vset)
        got = stash.GetItemsFor(**kw)
        compare('query', got, want, **kw)
        filters = bool(file) + bool(cset) + bool(aset) + bool(aset and vset)
        ctx.nt(filters > 1 and 0 < len(want) < len(everything))
        ctx.label('filters: %d' % filters)
        # reducing: lists, tuples, lists with repetitions, results in place
        compare('reduced list', stash.Reduce(everything[::-1], **kw), want, **kw)
        compare('reduced list with repetitions', stash.Reduce(tuple(everything + everything[:3]), **kw), want, **kw)
        lst = stash.GetItemsFor()
        back = lst.reduce(**kw)
        ensure(back is lst, 'reduce does not return the list itself')
        compare('list reduced in place', lst, want, **kw)
        # filters combine by intersection
        part = stash.GetItemsFor(filename=file, nolink=q['nolink'])
        compare('stepwise filter', stash.Reduce(part, classifier=carg, attribute=aarg, attributeValue=varg), want, **kw)
        part = stash.GetItemsFor(classifier=carg)
        compare('stepwise filter', stash.Reduce(part, filename=file, nolink=q['nolink'], attribute=aarg, attributeValue=varg), want, **kw)
    # the exported attribute names of every kind work as filter
    for x in everything[:12]:
        for name, attr in {**EXPORTED['Item'], **EXPORTED.get(x.CLASSIFIER, {})}.items():
            if name == 'ATTR_SUB' and x.CLASSIFIER not in ('Variable', 'Function'):
                continue
            const = getattr(type(x), name, None)
            ensure(const is not None, '%s has no %s' % (x.CLASSIFIER, name))
            v = getattr(x, attr)
            got = stash.GetItemsFor(classifier=x.CLASSIFIER, attribute=const, attributeValue=[v] if isinstance(v, (str, int)) else None)
            compare('kind %s by %s' % (x.CLASSIFIER, name), got, [y for y in everything if y.CLASSIFIER == x.CLASSIFIER and (getattr(y, attr) == v or not isinstance(v, (str, int)))])
    for k in {x.CLASSIFIER for x in everything}:
        of = [x for x in everything if x.CLASSIFIER == k]
        for a in ATTRS[k]:
            compare('kind %s with attribute %s' % (k, a), stash.GetItemsFor(classifier=k, attribute=a), of)
            v = getattr(of[0], a)
            if isinstance(v, (str, int)):
                compare('kind %s with %s = %r' % (k, a, v), stash.GetItemsFor(classifier=k, attribute=a, attributeValue=v), [x for x in of if getattr(x, a) == v])
    ctx.label('items: %d' % (len(everything) // 10 * 10))


CAMPAIGNS = [Campaign('filters', case, check, 2000, 40000)]
