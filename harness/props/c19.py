"""C19: constants can be added, removed and overridden without side effects."""
import copy

from core import CONSTANTS, Campaign, default_constants, ensure, same, st
from oelint_parser.constants import Constants

ID = 'C19'
TECHNIQUE = 'stateful model-based property testing: histories of add, remove and override on nested constants against a flat map of paths, with all dictionaries handed in watched for changes'
RULE = ('Histories of one to eight operations with dictionaries naming up to twelve paths each of a schema of lists and texts up to five levels deep, on the default, an empty or a given database; '
        'non-trivial if an operation changes an entry an earlier one created or changed.')
ASSUMPTIONS = ['an operation names an entry with a value of the kind (mapping, list, text) stored there', 'texts are not added to existing texts', 'keys hold no slash']

LIST, TEXT = 'list', 'text'
SCHEMA = {'functions': {'known': LIST, 'order': LIST}, 'replacements': {'distros': LIST, 'machines': LIST, 'mirrors': {'${A}': TEXT, '${B}': TEXT, '${DEBIAN_MIRROR}': TEXT, '${GNOME_MIRROR}': TEXT}},
          'sets': {'base': {'prefix': TEXT, 'bindir': TEXT, 'MY': TEXT, 'libdir': TEXT}}, 'images': {'known-classes': LIST, 'known-variables': LIST}, 'ignore': {'classes': LIST, 'include': LIST},
          'variables': {'known': LIST}, 'custom': {'a': {'b': {'c': LIST, 'd': TEXT, 'e': {'f': LIST}}, 'known': LIST}, 'l': LIST, 't': TEXT}, 'top': LIST, 'word': TEXT}
ACCESS = {'FunctionsKnown': 'functions/known', 'FunctionsOrder': 'functions/order', 'MirrorsKnown': 'replacements/mirrors', 'VariablesKnown': 'variables/known', 'DistrosKnown': 'replacements/distros',
          'MachinesKnown': 'replacements/machines', 'ImagesClasses': 'images/known-classes', 'ImagesVariables': 'images/known-variables', 'SetsBase': 'sets/base', 'ClassIgnore': 'ignore/classes', 'IncludeIgnore': 'ignore/include'}


def leaves(node, path=()):
    for k, v in node.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


PATHS = list(leaves(SCHEMA))
words = st.lists(st.sampled_from(['a', 'b', 'ab', 'do_fetch', 'do_install', 'image', 'poky', 'x', '', 'core-image', 'IMAGE_INSTALL']), max_size=4)
entry = st.tuples(st.integers(0, len(PATHS) - 1), words, st.sampled_from(['', 'x', '/usr', 'http://x']))
op = st.fixed_dictionaries({'op': st.sampled_from(['add', 'add', 'remove', 'override']), 'entries': st.lists(entry, min_size=1, max_size=6), 'keys': st.lists(st.tuples(st.sampled_from(['replacements/mirrors', 'sets/base', 'custom', 'custom/a', '']),
                            st.lists(st.sampled_from(['${A}', '${DEBIAN_MIRROR}', 'prefix', 'libdir', 'b', 'a', 'l', 'nope', 'known', 'top', 'sets']), max_size=2)), max_size=1), 'empty': st.sampled_from(['', '', '', 'functions', 'custom', 'new'])})
case = st.fixed_dictionaries({'start': st.sampled_from(['default', 'default', 'empty', 'given', 'global']), 'given': st.lists(entry, max_size=5), 'ops': st.lists(op, min_size=1, max_size=8), 'again': st.booleans()})


def nest(flat):
    res = {}
    for path, v in flat.items():
        cur = res
        for k in path[:-1]:
            cur = cur.setdefault(k, {})
        cur[path[-1]] = v
    return res


def entries_of(lst):
    return {PATHS[i][0]: (list(w) if PATHS[i][1] == LIST else t) for i, w, t in lst}


def check(case, ctx):
    handed = []

    def hand(d):
        handed.append((d, copy.deepcopy(d)))
        return d
    given = nest(entries_of(case['given']))
    start = case['start']
    if start == 'global':
        db, model = CONSTANTS, dict(leaves(default_constants()))
    elif start == 'default':
        db, model = Constants(), dict(leaves(default_constants()))
    else:
        db, model = Constants(hand(given if start == 'given' else {})), (dict(leaves(given)) if start == 'given' else {})
    model = copy.deepcopy(model)
    other = Constants(hand(given))
    touched = set()

    def compare(when):
        for path in [p for p, _ in PATHS] + list(model):
            for n in range(1, len(path) + 1):
                want = nest({k: v for k, v in model.items() if k[:n] == path[:n]})
                for k in path[:n]:
                    want = want.get(k, {}) if isinstance(want, dict) else {}
                got = db.GetByPath('/'.join(path[:n]))
                if isinstance(got, dict):
                    got = prune(got)
                same('%s after %s' % ('/'.join(path[:n]), when), got, want)
                same('path with slash at the end', db.GetByPath('/'.join(path[:n]) + '/'), db.GetByPath('/'.join(path[:n])))
            same('path below an entry', db.GetByPath('/'.join(path) + '/nope/more'), {})
        same('absent path', db.GetByPath('nope/nothing'), {})
        for attr, path in ACCESS.items():
            same(attr + ' and its path', getattr(db, attr), db.GetByPath(path))
        for d, keep in handed:
            same('dictionary handed in, after ' + when, d, keep)
        same('unrelated constants after ' + when, dict(leaves(given)), {p: other.GetByPath('/'.join(p)) for p, _ in leaves(given)})

    def prune(d):
        res = {k: prune(v) if isinstance(v, dict) else v for k, v in d.items()}
        return {k: v for k, v in res.items() if v != {}}

    compare('start')
    for o in case['ops']:
        ents = entries_of(o['entries'])
        what = o['op']
        if what == 'add':
            # texts are only created
            ents = {p: v for p, v in ents.items() if isinstance(v, list) or p not in model}
            arg = nest(ents)
            if o['empty']:
                arg.setdefault(o['empty'], {})
            db.AddConstants(hand(arg))
            for p, v in ents.items():
                model[p] = model[p] + v if p in model else v
        elif what == 'override':
            arg = nest(ents)
            if o['empty']:
                arg.setdefault(o['empty'], {})
            db.OverrideConstants(hand(arg))
            model.update(copy.deepcopy(ents))
        else:
            arg = nest(ents)
            for where, keys in o['keys']:
                # a list naming keys of a mapping
                prefix = tuple(where.split('/')) if where else ()
                if not prefix or any(k[:len(prefix)] == prefix for k in ents):
                    continue
                cur = arg
                for k in prefix[:-1]:
                    cur = cur.setdefault(k, {})
                cur[prefix[-1]] = list(keys)
                ctx.label('keys removed')
                for p in [p for p in model if p[:len(prefix)] == prefix and p[len(prefix)] in keys]:
                    del model[p]
            db.RemoveConstants(hand(arg))
            for p, v in ents.items():
                if p in model:
                    if isinstance(v, list):
                        model[p] = [x for x in model[p] if x not in v]
                    else:
                        del model[p]
        model = copy.deepcopy(model)
        ctx.nt(bool(touched & set(ents)))
        touched |= set(ents)
        ctx.label(what)
        compare(what)
        if case['again']:
            # later changes of what was handed in stay without effect
            def spoil(d):
                for k in list(d):
                    if isinstance(d[k], dict):
                        spoil(d[k])
                    elif isinstance(d[k], list):
                        d[k].append('spoiled')
                    else:
                        d[k] = 'spoiled'
                d['spoiled'] = ['x']
            keep = copy.deepcopy(handed[-1][0])
            spoil(handed[-1][0])
            handed.pop()
            handed.append((copy.deepcopy(keep), keep))
            compare(what + ' and changing what was handed in')
            same('spoiled', db.GetByPath('spoiled'), {})
    fresh = Constants()
    for p, v in leaves(default_constants()):
        same('fresh constants: ' + '/'.join(p), fresh.GetByPath('/'.join(p)), v)


CAMPAIGNS = [Campaign('histories', case, check, 4000, 70000)]
