"""Comparison helpers shared by the property modules."""
import bb
from core import Violation, ensure, same

WEAK = {'FuncBody'}   # compared without continuation marks and outer white space


def describe(item):
    """the public report of an item without positions"""
    res = {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in item.GetAttributes().items()}
    for k in ('Line', 'InFileLine', 'Origin', 'IncludedFrom', 'FilePaths'):
        res.pop(k, None)
    if res.get('FilePaths') == {}:
        res.pop('FilePaths')
    return {'kind': item.CLASSIFIER, **res}


def compare_item(item, want, line, text, where='', only=None):
    """compare one reported item to the expectation"""
    same(where + 'kind of item for %r' % text, item.CLASSIFIER, want['kind'])
    for k, v in want['attrs'].items():
        got = getattr(item, k)
        if k in WEAK:
            same('%s%s of %r' % (where, k, text), bb.noesc(got).strip(), bb.noesc(v).strip())
        else:
            same('%s%s of %r' % (where, k, text), got, v)
    if want['items'] is not None:
        same('%sentries of %r' % (where, text), item.get_items(), want['items'])
    if text is not None:
        same('%sraw text' % where, item.RealRaw, text)
    if line is not None:
        same('%sline of %r' % (where, text), item.InFileLine, line)


def compare_document(items, stmts, new=False, eof_newline=True, where=''):
    want = bb.expected_items(stmts, new)
    items = list(items)
    for i, (exp, line, text) in enumerate(want):
        if i == len(want) - 1 and not eof_newline and text.endswith('\n'):
            text = text[:-1]
            if text == '':
                want = want[:-1]
                break
            if exp['kind'] == 'PythonBlock' or exp['kind'] == 'Comment':
                exp = dict(exp, items=text.split('\n'))
        if i >= len(items):
            raise Violation('%sno item reported for %r' % (where, text))
        compare_item(items[i], exp, line, text, where)
    ensure(len(items) == len(want), '%smore items reported than statements written: %r' % (where, items[len(want):]))


METHODS = ['get_items', 'IsFromAppend', 'GetAttributes', 'IsAppend', 'AppendOperation', 'IsMultiLine', 'GetDistroEntry', 'GetMachineEntry',
           'GetClassOverride', 'IsImmediateModify', 'get_items_unaliased']


def accessors(item):
    """call everything an item offers"""
    res = {k: v for k, v in item.GetAttributes().items()}
    for m in METHODS:
        func = getattr(item, m, None)
        if func is not None:
            res[m] = func()
    if item.CLASSIFIER == 'Variable':
        res['versioned'] = item.get_items(versioned=True)
        res['override'] = item.get_items(override='"a b"')
    repr(item)
    return res


def exercise(stash, files, deep=True):
    """every query, expansion and accessor; returns nothing, only has to come back"""
    items = stash.GetItemsFor()
    for x in items:
        accessors(x)
    for x in (stash.GetRecipes(), stash.GetLoneAppends(), stash.GetConfFiles(), stash.GetBBClasses(), stash.FingerPrint):
        x.__len__()
    stash.ExpandVar()
    for f in files:
        for kw in ({}, {'nolink': True}, {'classifier': 'Variable'}, {'classifier': ['Variable', 'Function'], 'nolink': True},
                   {'classifier': 'Variable', 'attribute': 'VarName', 'attributeValue': ['A', 'SRC_URI']}, {'attribute': 'Flag'}):
            got = stash.GetItemsFor(filename=f, **kw)
            got.reduce(filename=f, classifier='Variable')
        stash.GetLinksForFile(f)
        stash.ExpandVar(filename=f)
        stash.ExpandVar(filename=f, attribute='VarName', attributeValue='A', nolink=True)
        stash.GetValidPackageNames(f)
        stash.GetValidPackageNames(f, strippn=True)
        stash.GetValidNamedResources(f)
        stash.IsImage(f)
        stash.IsPackageGroup(f)
        stash.GetPackagesDynamic(f)
        for n in ('a', 'x-dev', '${PN}-x'):
            stash.IsDynamicPackage(f, n)
        stash.GetFiles(f, '*.patch')
        stash.GetLayerRoot(f)
        stash.FindLocalOrLayer('a.inc', f)
        stash.GuessRecipeName(f)
        stash.GuessBaseRecipeName(f)
        stash.GuessRecipeVersion(f)
        if deep:
            for x in stash.GetItemsFor(filename=f, classifier='Variable'):
                stash.ExpandTerm(f, x.VarValue, objref=x)
                stash.ExpandTerm(f, x.VarValueStripped, spare=['A'])
                for t in x.get_items()[:6]:
                    stash.GetScrComponents(t)
                stash.SafeLineSplit(x.VarValue)
