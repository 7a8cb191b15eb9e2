"""C31: items built by hand report what parsed ones do."""
import oelint_parser.cls_item as cls_item
import bb
import inline
from common import METHODS
from core import Campaign, new_stash, same, st

ID = 'C31'
TECHNIQUE = 'differential property testing: every item parsed from a generated file is built again from its pieces by the public constructors; reports, queries and expansions of both have to agree'
RULE = ('Files of one to eight statements of all kinds; each item is rebuilt with positional or named arguments, optional ones left out where they are not needed, and put into a stash of its own; '
        'non-trivial if two kinds and an optional argument left out take part. Missing files (never parsed): one to six items put into a stash with two recipes or none; non-trivial with two items and the recipes.')
ASSUMPTIONS = ['an item put into a stash by hand has no links; only reports that need none are compared']

# kind: (argument, how to get it, value it may be left out for)
PIECES = {
    'Variable': [('name', 'VarNameComplete'), ('value', 'VarValue'), ('operator', 'VarOp')],
    'FlagAssignment': [('name', 'VarName'), ('ident', 'Flag'), ('value', 'Value'), ('varop', 'VarOp')],
    'Function': [('name', 'FuncNameComplete'), ('body', 'FuncBody'), ('python', 'IsPython', False), ('fakeroot', 'IsFakeroot', False)],
    'PythonBlock': [('name', 'FuncName')],
    'FunctionExports': [('name', 'FuncNames')],
    'Include': [('incname', 'IncName'), ('fileincluded', 'FileIncluded'), ('statement', 'Statement')],
    'Export': [('name', 'Name'), ('value', 'Value')],
    'TaskAdd': [('name', 'FuncName'), ('before', 'Before', []), ('after', 'After', []), ('comment', 'Comment', '')],
    'TaskDel': [('name', 'FuncName'), ('comment', 'Comment')],
    'AddPylib': [('path', 'Path'), ('namespace', 'Namespace')],
    'AddFragements': [('path', 'Path'), ('variable', 'Variable'), ('flagged', 'Flagged')],
    'IncludeAll': [('file', 'File')],
    'Inherit': [('statement', 'Statement'), ('classes', 'Class'), ('inherit_file_paths', 'FilePaths', {})],
    'Unset': [('name', 'VarName'), ('flag', 'Flag', '')],
}
COMMON = [('origin', 'Origin'), ('line', 'Line'), ('infileline', 'InFileLine'), ('rawtext', 'Raw'), ('realraw', 'RealRaw'), ('inline_blocks', 'InlineBlocks')]
tok = st.one_of(bb.token, st.sampled_from(['${A}', '${PN}-x', 'git://a;name=n']), inline.call().map(lambda b: b['src']).filter(lambda t: '"' not in t and '\n' not in t), st.just('${@foo(d)}'))
stmt = st.one_of(bb.any_stmt(), bb.var_stmt(bases=st.sampled_from(['A', 'PACKAGES', 'SRC_URI', 'FILES']), val=bb.value(tok=tok, quote='"')), bb.func_stmt(), bb.simple_stmt(), bb.addtask_stmt())
case = st.fixed_dictionaries({'doc': bb.document(stmt, 1, 8), 'named': st.lists(st.booleans(), min_size=8, max_size=8), 'short': st.booleans(), 'bare': st.integers(0, 2), 'new': st.booleans(), 'each': st.booleans(), 'rev': st.booleans()})


def rebuild(x, named, short, bare):
    T = getattr(cls_item, type(x).__name__)
    given, left = [], 0
    for name, attr, *default in PIECES.get(x.CLASSIFIER, []):
        v = getattr(x, attr)
        if short and default and (v == default[0] or (default[0] == {} and not v)):
            left += 1
            continue
        if name in ('before', 'after'):
            v = ' '.join(v)
        given.append((name, v))
    # unprocessed text that is the processed one need not be repeated
    common = [(n, getattr(x, a) if n != 'realraw' or bare == 0 or x.RealRaw != x.Raw else ['', None][bare - 1]) for n, a in COMMON] + [('new_style_override_syntax', x.IsNewStyleOverrideSyntax)]
    if named or left:
        return T(**dict(given + common)), left
    return T(*[v for _, v in given], **dict(common)), left


def look(x):
    # GetAttributes of both at the same time, order of names left open
    res = dict(x.GetAttributes())
    res.pop('IncludedFrom')
    for m in METHODS:
        f = getattr(x, m, None)
        if f is not None and m != 'GetAttributes':
            res[m + '()'] = f()
    return {'kind': (x.CLASSIFIER, type(x).__name__), **res}


def report(stash, path):
    res = {'values ' + k: v for k, v in stash.ExpandVar(filename=path).items()}
    res.update({'term': stash.ExpandTerm(path, '${A}|${PACKAGES}|${SRC_URI}|${FILES}'), 'packages': stash.GetValidPackageNames(path), 'resources': stash.GetValidNamedResources(path), 'image': stash.IsImage(path),
                'group': stash.IsPackageGroup(path), 'dynamic': stash.GetPackagesDynamic(path), 'variables': [look(x) for x in stash.GetItemsFor(filename=path, classifier='Variable')],
                'named': [look(x) for x in stash.GetItemsFor(attribute='VarName', attributeValue=['A', 'FILES'])]})
    return res


def check(case, ctx):
    text = bb.text_of(case['doc'])
    path = ctx.write('r_1.0.bb', text)
    stash = new_stash(new_style_override_syntax=case['new'])
    items = list(stash.AddFile(path))
    again, left = [], 0
    for i, x in enumerate(items):
        y, n = rebuild(x, case['named'][i % 8], case['short'], case['bare'])
        left += n
        again.append(y)
        a, b = look(x), look(y)
        for k in a:
            same('%s of item built like %r' % (k, x.RealRaw), b.get(k), a[k])
    other = new_stash()
    if case['rev']:
        again.reverse()
    if case['each']:
        for y in again:
            other.Append(y)
    else:
        other.Append(again)
    same('all items', [look(x) for x in other.GetItemsFor()], [look(x) for x in items], text)
    want, got = report(stash, path), report(other, path)
    for k in want:
        same(k, got.get(k), want[k], text)
    ctx.nt(left and len({x.CLASSIFIER for x in items}) > 1)
    for x in items:
        ctx.label(x.CLASSIFIER)


# the one kind that is never parsed
names = st.sampled_from(['x.inc', 'a b.inc', 'recipes/${PN}.inc', '', 'x'])
miss_case = st.fixed_dictionaries({'items': st.lists(st.tuples(names, st.sampled_from(['include', 'require']), st.sampled_from(['r', 's']), st.integers(1, 9), st.booleans(), st.booleans()), min_size=1, max_size=6), 'text': st.booleans()})


def check_miss(case, ctx):
    stash = new_stash()
    files = {n: ctx.write(n + '_1.0.bb', 'A = "1"\nB = "2"\n') for n in 'rs'}
    if case['text']:
        for f in files.values():
            stash.AddFile(f)
    have = []
    for name, statement, where, line, pos, new in case['items']:
        common = dict(origin=files[where], line=line, infileline=line, inline_blocks=[], new_style_override_syntax=new)
        x = cls_item.MissingFile(name, statement, **common) if pos else cls_item.MissingFile(statement=statement, filename=name, **common)
        same('report', (x.CLASSIFIER, x.Filename, x.Statement, list(x.get_items()), x.Raw, x.RealRaw, x.Line, x.InFileLine, x.Origin, x.IsNewStyleOverrideSyntax, x.OverrideDelimiter, x.IncludedFrom),
             ('MissingFile', name, statement, [name, statement], '', '', line, line, files[where], new, ':' if new else '_', set()))
        attrs = x.GetAttributes()
        same('attributes', (attrs['Filename'], attrs['Statement'], attrs['Line']), (name, statement, line))
        stash.Append(x)
        have.append(x)
    stash.Finalize()
    by_line = sorted(have, key=lambda x: x.Line)
    same('all of the kind', list(stash.GetItemsFor(classifier=cls_item.MissingFile.CLASSIFIER)), by_line)
    for w, f in files.items():
        same('all in one file', list(stash.GetItemsFor(filename=f, classifier='MissingFile')), [x for x in by_line if x.Origin == f])
        same('other items', [x.VarName for x in stash.GetItemsFor(filename=f, classifier='Variable')], ['A', 'B'] if case['text'] else [])
        if case['text']:
            for x in have:
                same('included from', x.IncludedFrom, {x.Origin})
    for a, v in {('Statement', x[1]) for x in case['items']} | {('Filename', x[0]) for x in case['items']}:
        same('by %s' % a, list(stash.GetItemsFor(attribute=a, attributeValue=v)), [x for x in by_line if getattr(x, a) == v])
    ctx.nt(len(have) > 1 and case['text'])


CAMPAIGNS = [Campaign('rebuilt', case, check, 4000, 60000), Campaign('missing', miss_case, check_miss, 600, 6000)]
