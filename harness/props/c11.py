"""C11: reference expansion substitutes known variables fully and leaves others alone."""
import re

from core import CONSTANTS, Campaign, ensure, new_stash, same, st

ID = 'C11'
TECHNIQUE = 'model-based property testing: generated acyclic variable graphs over linked files against a substitution model; metamorphic repeat and termination checks on cyclic graphs'
RULE = ('Variable graphs of one to seven assignments by any operator in a recipe, its include, class and append and an unrelated recipe, with configured base constants, expanded in terms mixing known, unknown, builtin and spared '
        'references; non-trivial if a reference expands over at least two levels or a spared or unknown reference stands beside a known one. Files read: terms of one to five pieces with blocks reading present and missing files; non-trivial if a present file is read next to something else. Levels: up to forty variables each naming the next ones several times, also in circles; non-trivial from sixteen levels and two names on.')
ASSUMPTIONS = ['a known variable has a plain assignment in the scope (without override, if there is any such), only extended variables are unknown', 'names of references hold no closing brace, text holds no unfinished reference']

NAMES = ['A', 'B', 'C', 'D', 'E', 'AA', 'A-B', 'x']
BUILTIN = ['PN', 'PV', 'BPN', 'FILE', 'THISDIR']
QUOTED = ['FILE', 'THISDIR']
BASE = ['BASE1', 'BASE2', 'P', 'SOLIBS', 'BP', 'MLPREFIX']
PLAIN = ['=', '?=', ':=', '??=']
UNKNOWN = ['NOPE', 'Z', 'A_B', 'PNX']
_lit = st.sampled_from(['', 'a', ' ', '/', 'foo bar', '-', '$ ', '{', '}', '$x', '%', 'x', '.', '#', ':', ';y=1', '$$.', '{}', '(', ')', '\\.', '\\1', '\\g<0>', 'a\\nb'])
ref = st.sampled_from(NAMES + NAMES + BUILTIN + BASE + UNKNOWN)
seg = st.one_of(_lit.map(lambda t: ['t', t]), ref.map(lambda n: ['r', n]), ref.map(lambda n: ['r', n]), ref.map(lambda n: ['g', n]),
                st.tuples(ref, st.sampled_from([", True", ", False", ",True", " , False", ", True ", " "])).map(lambda t: ['g', t[0], t[1]]))
# references whose name is made of references
nested = st.lists(st.one_of(st.sampled_from(['A', 'B', 'A-', '-B', '-', 'x', '', 'BASE', '1', 'P', 'PN']).map(lambda t: ['t', t]), st.sampled_from(NAMES + ['PN', 'PV', 'BASE1', 'NOPE']).map(lambda n: ['r', n])), min_size=1, max_size=3).filter(lambda x: any(k == 'r' for k, _ in x))
nested = st.one_of(nested, nested, st.tuples(st.sampled_from(['', 'A', 'A-', 'BASE']), nested).map(lambda t: [['t', t[0]], ['n', t[1]]])).map(lambda x: ['n', x])
seg = st.one_of(seg, seg, seg, seg, seg, nested, st.sampled_from(['A', 'B', 'A-B', '1']).map(lambda t: ['t', t]))
segs = st.lists(seg, max_size=5)
case = st.fixed_dictionaries({'defs': st.lists(st.tuples(st.sampled_from(NAMES), segs, st.sampled_from(['rec', 'rec', 'inc', 'class', 'append', 'other', 'base']), st.sampled_from(['=', '?=', ':=', '??=', '=', '?=', '+=', '=+', '.=', '=.', 'append', 'prepend']),
                                                         st.sampled_from(['"', "'"]), st.sampled_from(['', '', '', ':arm'])), min_size=1, max_size=7),
                              'pn': st.sampled_from(['PN', 'PV', '', '', '']), 'fn': st.sampled_from(['r_1.0.bb', 'my-tool-native_2.1.bb', 'nativesdk-q.bb', 'foo_git_x.bb']), 'terms': st.lists(segs, min_size=1, max_size=3),
                              'spare': st.lists(st.sampled_from(NAMES + ['PN', 'BASE1', 'NOPE']), max_size=2), 'cyclic': st.sampled_from([False, False, False, True]), 'layer': st.sampled_from(['l', 'l', 'a layer', 'l/meta x', 'm-ü(1)'])})


def text(segs):
    res = ''
    for k, x, *more in segs:
        res += '${' + x + '}' if k == 'r' else '${' + text(x) + '}' if k == 'n' else "d.getVar('%s'%s)" % (x, ''.join(more)) if k == 'g' else x
    return res


class Cyclic(Exception):
    """names made of references led to a definition that depends on itself"""


_getvar = re.compile(r"d\.getVar\('([^']*)'([^)]*)\)")


def parse(t):
    """pieces of a text"""
    res, pos = [], 0
    while pos < len(t):
        m = _getvar.match(t, pos)
        if m:
            res.append(['g', m.group(1), m.group(2)])
            pos = m.end()
        elif t.startswith('${', pos):
            depth, end = 1, pos + 2
            while depth:
                if t.startswith('${', end):
                    depth, end = depth + 1, end + 2
                else:
                    depth, end = depth - (t[end] == '}'), end + 1
            name = t[pos + 2:end - 1]
            res.append(['n', parse(name)] if '${' in name else ['r', name])
            pos = end
        else:
            res.append(['t', t[pos]])
            pos += 1
    return res


def effective(stmts, value=None):
    """text of a variable after (operator or modifier, text) in order"""
    weak = None
    for op, t in stmts:
        if op in ('=', ':='):
            value = t
        elif op == '?=':
            value = t if value is None else value
        elif op == '??=':
            weak = t
        elif op in ('+=', '.='):
            value = (value or '') + (' ' if op == '+=' else '') + t
        elif op in ('=+', '=.'):
            value = t + (' ' if op == '=+' else '') + (value or '')
    if value is None:
        value = weak
    for op, t in stmts:
        if op == 'append':
            value = (value or '') + t
        elif op == 'prepend':
            value = t + (value or '')
    return value


def names(segs):
    for k, x, *_ in segs:
        if k == 'n':
            yield from names(x)
        elif k != 't':
            yield x


def check(case, ctx):
    fn = case['fn']
    stem = fn[:-3]
    pn, *rest = stem.split('_')
    pv = rest[0] if rest else '1.0'
    bpn = pn
    if bpn.startswith('nativesdk-'):
        bpn = bpn[10:]
    if bpn.endswith('-native'):
        bpn = bpn[:-7]
    files = {'rec': '', 'inc': '', 'class': '', 'append': '', 'other': ''}
    base = {'BASE1': [['t', 'base '], ['r', 'PN']], 'BASE2': [['r', 'BASE1'], ['r', 'A'], ['r', 'NOPE']], 'P': [['r', 'PN'], ['t', '-'], ['r', 'PV']], 'SOLIBS': [['t', '.so.*']],
            'BP': [['r', 'BPN'], ['t', '-'], ['r', 'PV']], 'MLPREFIX': []}
    CONSTANTS.OverrideConstants({'sets': {'base': {'BASE1': 'base ${PN}', 'BASE2': '${BASE1}${A}${NOPE}'}}})
    defs = {}
    written, texts, others = {}, {}, set()
    order = []
    common = {name for name, _, where, op, _, ov in case['defs'] if not ov and where not in ('base', 'other') and op in PLAIN}
    plain = {name for name, _, where, op, _, ov in case['defs'] if where not in ('base', 'other') and op in PLAIN}
    for n, (name, sg, where, op, q, ov) in enumerate(case['defs']):
        if name not in order:
            order.append(name)
        if not case['cyclic']:
            # references to names introduced before only, and none to the one base constant using A
            before = order[:order.index(name)]
            sg = [x for x in sg if x[0] == 't' or all((y not in NAMES or y in before) and y != 'BASE2' or (y == 'BASE2' and 'A' in before) for y in names([x]))]
        if q == "'":
            sg = [['r' if k == 'g' else k, x] for k, x, *_ in sg]
        t = text(sg)
        if where == 'base':
            CONSTANTS.OverrideConstants({'sets': {'base': {name: t}}})
            base[name] = sg
            continue
        # a value for one machine only is not the one expanded, if there is any other
        ov = ov if name in common else ''
        if where == 'other':
            op = '=' if op not in PLAIN else op
            others.add(name)
            defs.setdefault(name, (sg, where))
        else:
            texts.setdefault(name, []).append(t)
            if not ov:
                written.setdefault(name, []).append((['class', 'rec', 'inc', 'append'].index(where), n, op, t))
        if ov or len(written.get(name, ())) > 1:
            ctx.label('several assignments')
        if op not in PLAIN:
            ctx.label('known and extended' if name in plain or name in base else 'extended only')
        left = name + ov + (':%s =' % op if op[0].isalpha() else ' ' + op)
        files[where] += '%s %s%s%s\n' % (left, q, t, q)
    for name, xs in written.items():
        # variables that are only extended are not known
        if name in plain or name in base:
            defs[name] = (parse(effective([x[2:] for x in sorted(xs)], text(base[name]) if name in base else None)), 'rec')
        elif name in others:
            del defs[name]
            written[name] = []
    if case['pn'] and not case['cyclic']:
        defs[case['pn']] = ([['t', 'own']], 'rec')
        files['rec'] += '%s = "own"\n' % case['pn']
    ctx.write(case['layer'] + '/conf/layer.conf', '')
    ctx.write(case['layer'] + '/recipes/i.inc', files['inc'])
    ctx.write(case['layer'] + '/classes/k.bbclass', files['class'])
    rec = ctx.write(case['layer'] + '/recipes/' + fn, 'inherit k\n' + files['rec'] + 'require i.inc\n')
    app = ctx.write(case['layer'] + '/recipes/' + fn + 'append', files['append'])
    oth = ctx.write(case['layer'] + '/recipes/zz_1.bb', files['other'])
    stash = new_stash()
    for p in (oth, rec, app):
        stash.AddFile(p)
    stash.Finalize()
    builtin = {'PN': pn, 'PV': pv, 'BPN': bpn, 'FILE': rec, 'THISDIR': rec.rsplit('/', 1)[0]}

    def model(segs, spare, depth=0):
        if depth > 30:
            raise Cyclic()
        res = ''
        deep = depth
        for k, x, *more in segs:
            if k == 't':
                res += x
                continue
            if k == 'n':
                x, d = model(x, spare, depth)
                deep = max(deep, d)
                y, z = x, None
                while y != z:
                    y, z = re.sub(r'\$\{[^{}]*\}', '', y), y
                if any(c in y for c in '{}'):
                    raise Cyclic()    # not a name any more
                k = 'r'
                if x in known_names():
                    ctx.label('name made of references')
            if x in spare:
                res += text([[k, x, *more]])
            elif x in defs and defs[x][1] != 'other':
                r, d = model(defs[x][0], spare, depth + 1)
                res += r
                deep = max(deep, d)
            elif x in base:
                r, d = model(base[x], spare, depth + 1)
                res += r
                deep = max(deep, d)
            elif x in builtin:
                res += '"%s"' % builtin[x] if k == 'g' and x in QUOTED else builtin[x]
            else:
                res += text([[k, x, *more]])
        return res, deep

    def known_names():
        return {n for n in defs if defs[n][1] != 'other'} | set(base) | set(builtin)
    for term in case['terms']:
        src = text(term)
        for spare in ([], case['spare']):
            keep = list(spare)
            got = stash.ExpandTerm(rec, src, spare=spare) if spare else stash.ExpandTerm(rec, src)
            same('spare list handed in', spare, keep)
            same('repeated expansion of %r' % src, stash.ExpandTerm(rec, src, spare=list(spare) or None), got)
            ensure(isinstance(got, str), 'not a text', got)
            if case['cyclic']:
                continue
            try:
                want, deep = model(term, spare)
            except Cyclic:
                ctx.label('left out: name that depends on itself or is none')
                continue
            same('expansion of %r (spared: %s)' % (src, spare), got, want, files)
            known = [x for x in names(term) if x in defs or x in base or x in builtin]
            left = [x for x in names(term) if x in UNKNOWN + list(spare)]
            ctx.nt(deep > 1 or (known and left))
            ctx.label('depth %d' % deep)
            if spare and any(x in spare for x in names(term)):
                ctx.label('spared')
    if case['cyclic']:
        stash.ExpandVar(rec)
        ctx.label('maybe cyclic')
    else:
        # the unrelated recipe knows its own definitions only
        for name, (sg, where) in defs.items():
            if name in others:
                continue
            got = stash.ExpandTerm(oth, '<${%s}>' % name)
            if where != 'other':
                want = {'PN': 'zz', 'PV': '1'}.get(name, '${%s}' % name)
                if name in base:
                    continue
                same('reference out of scope', got, '<' + want + '>')
        # and what is stored stays as written
        stored = {}
        for x in stash.GetItemsFor(filename=rec, classifier='Variable'):
            stored.setdefault(x.VarName, []).append(x.VarValueStripped)
        for name, xs in stored.items():
            same('stored values of ' + name, sorted(xs), sorted(texts.get(name, ['own'])), files)


FILES = {'x.txt': 'content', 'y': 'two\nlines ${B}\n', 'sub/z': '', 'u': 'a  b "c" \\1\n'}
_arg = st.one_of(st.tuples(st.sampled_from(["'", '"']), st.sampled_from(['${THISDIR}/', '${THISDIR}/', '${D}/', '${E}']), st.sampled_from(sorted(FILES) + ['nope', 'sub'])).map(lambda t: [t[0] + t[1] + t[2] + t[0], t[2]]),
                 st.sampled_from(["''", "'${NOPE}'", "d.getVar('NOPE')"]).map(lambda t: [t, 'nope']))
_pad = st.sampled_from(['', '', ' ', '  '])
piece = st.one_of(st.sampled_from(['', 'a', ' ', ' b ', '{', '-', '.', '(x)', ')', '1)']).map(lambda t: ['t', t]), st.sampled_from(['B', 'C', 'NOPE', 'PN']).map(lambda n: ['r', n]),
                  st.sampled_from(["${@foo('z')}", '${@bar(d)}', "${@oe.utils.foo('a')}"]).map(lambda t: ['t', t]),
                  st.tuples(_arg, _pad, _pad, _pad).map(lambda t: ['f', ['${@' + t[1] + 'oe.utils.read_file(' + t[2] + t[0][0] + t[2] + ')' + t[3] + '}', t[0][1]]]),
                  st.tuples(_arg, _pad, _pad, _pad).map(lambda t: ['f', ['${@' + t[1] + 'oe.utils.read_file(' + t[2] + t[0][0] + t[2] + ')' + t[3] + '}', t[0][1]]]))
read_case = st.fixed_dictionaries({'spare': st.lists(st.sampled_from(['B', 'C', 'NOPE', 'PN']), max_size=2), 'term': st.lists(piece, min_size=1, max_size=5), 'via': st.integers(0, 2)})


def check_read(case, ctx):
    ctx.write('l/conf/layer.conf', '')
    for n, t in FILES.items():
        ctx.write('l/recipes/' + n, t)
    src = ''.join(x[0] if k == 'f' else '${%s}' % x if k == 'r' else x for k, x in case['term'])
    vals = {'B': 'b', 'C': 'c b', 'NOPE': '${NOPE}', 'PN': 'r'}
    want = ''.join(FILES.get(x[1], '') if k == 'f' else vals[x] if k == 'r' else x for k, x in case['term'])
    q = '"' if "'" in src else "'"
    inside = q not in src
    rec = ctx.write('l/recipes/r_1.0.bb', 'B = "b"\nC = "c ${B}"\nD = "%s"\nE = "${D}/"\n' % ctx.path('l/recipes') + ('V = %s%s%s\nW = "<${V}>"\n' % (q, src, q) if inside else ''))
    stash = new_stash()
    stash.AddFile(rec)
    stash.Finalize()
    if inside and case['via']:
        want = {1: '<%s>', 2: '%s|%s'}[case['via']] % ((want,) * case['via'])
        got = stash.ExpandTerm(rec, {1: '${W}', 2: '${V}|${V}'}[case['via']])
        if case['via'] == 1:
            same('expanded entries of W', stash.ExpandVar(rec)['W'], want.split())
    else:
        got = stash.ExpandTerm(rec, src)
        vals = {k: '${%s}' % k if k in case['spare'] else 'c ${B}' if k == 'C' and 'B' in case['spare'] else v for k, v in vals.items()}
        spared = ''.join(FILES.get(x[1], '') if k == 'f' else vals[x] if k == 'r' else x for k, x in case['term'])
        same('expansion of %r (spared: %s)' % (src, case['spare']), stash.ExpandTerm(rec, src, spare=list(case['spare'])), spared)
    same('expansion of %r' % src, got, want)
    ctx.nt(any(k == 'f' and x[1] in FILES for k, x in case['term']) and len(case['term']) > 1)


# names composed of references, most of them known ones
PARTS = {'K1': 'a', 'K2': 'b', 'K3': 'K', 'K4': '${K3}1', 'N': '1', 'V-a': 'x', 'V-b': '${K1}', 'V-a1': 'W', 'W': '${V-${K2}}', 'V-x': 'end', 'V-W': "${@f('${K1}')}", 'V-r': 'pn'}
_atom = st.sampled_from(['K', 'V-', 'V-', 'V-', 'W', 'a', '1', '2', '4', '${K1}', '${K2}', '${K3}', '${N}', '${K4}', '${PN}', '${W}', '${NOPE}'])
_name = st.recursive(_atom, lambda x: st.lists(x, min_size=1, max_size=3).map(lambda t: '${' + ''.join(t) + '}'), max_leaves=6)
_around = st.sampled_from(['', '', ' ', '/', "${@f('", "')}", "d.getVar('NOPE')", '$', 'x', '"'])
comp_case = st.fixed_dictionaries({'terms': st.lists(st.tuples(_around, _name, _around, _name, _around), min_size=1, max_size=4), 'spare': st.lists(st.sampled_from(['K1', 'N', 'V-a', 'NOPE']), max_size=2)})


def innermost(term, known, spare):
    """BitBake's way: expand the innermost references again and again until nothing changes"""
    done = 0
    while done < 60:
        done += 1
        new = re.sub(r'\$\{((?:(?!\$\{)[^}])+)\}', lambda m: known[m.group(1)] if m.group(1) in known and m.group(1) not in spare else m.group(0), term)
        if new == term:
            return term
        term = new
    return None


def check_comp(case, ctx):
    rec = ctx.write('r_1.0.bb', ''.join('%s = "%s"\n' % x for x in PARTS.items()))
    stash = new_stash()
    stash.AddFile(rec)
    stash.Finalize()
    known = dict(PARTS, PN='r', PV='1.0', BPN='r')
    for term in case['terms']:
        term = ''.join(term)
        for spare in ([], case['spare']):
            want = innermost(term, known, spare)
            if want is None:
                continue
            same('expansion of %r (spared: %s)' % (term, spare), stash.ExpandTerm(rec, term, spare=list(spare)), want)
            ctx.nt('${' in term[term.find('${') + 2:term.find('}')] and want != term)


# every level names the next one several times: work must not multiply from level to level
wide_case = st.fixed_dictionaries({'depth': st.integers(2, 40), 'ways': st.lists(st.sampled_from(['${%s}', '${%s}', "d.getVar('%s')", '${%s}${%s}', '${%t}', '${%t}', "d.getVar('%t')"]), min_size=1, max_size=4), 'leaf': st.sampled_from(['', 'x', '${NOPE}']),
                                   'loop': st.sampled_from(['', 'first', 'self', 'all']), 'shuffle': st.integers(0, 3), 'base': st.booleans()})


def check_wide(case, ctx):
    n, ways = case['depth'], case['ways']
    loop = case['loop']
    leaf = case['leaf'] if n < 6 else ''    # the text itself would multiply
    if loop == 'all':
        n = min(n, 9)
    defs = {}
    for i in range(n):
        v = ''.join(ways).replace('%s', 'V%d' % (i + 1)).replace('%t', 'V%d' % min(i + 2, n))
        if loop == 'self':
            v = '${V%d}' % i + v
        elif loop == 'first':
            v += '${V0}'
        elif loop == 'all':
            v = ''.join('${V%d}' % j for j in range(n + 1))
        defs['V%d' % i] = v
    defs['V%d' % n] = leaf
    lines = ['%s = "%s"\n' % kv for kv in defs.items()]
    if case['base']:
        CONSTANTS.OverrideConstants({'sets': {'base': {k: v for k, v in list(defs.items())[1::2]}}})
        lines = lines[::2]
    lines = [lines, lines[::-1], lines[1::2] + lines[::2], lines][case['shuffle']]
    ctx.write('l/conf/layer.conf', '')
    path = ctx.write('l/recipes/r_1.0.bb', ''.join(lines))
    stash = new_stash()
    stash.AddFile(path)
    stash.Finalize()
    got = stash.ExpandTerm(path, '<${V0}>')
    same('expansion repeated', stash.ExpandTerm(path, '<${V0}>'), got)
    stash.ExpandVar(filename=path)
    if not loop:
        count = [1, 1]
        for _ in range(n if leaf else 0):
            count = [''.join(ways).count('%s') * count[0] + ''.join(ways).count('%t') * count[1], count[0]]
        same('expansion of %d levels of %r' % (n, ways), got, '<' + leaf * count[0] + '>')
    ctx.nt(n > 15 and len(ways) > 1)
    ctx.label(loop or 'no loop')


CAMPAIGNS = [Campaign('levels', wide_case, check_wide, 300, 4000, cpu=20), Campaign('composed', comp_case, check_comp, 4000, 20000), Campaign('graphs', case, check, 9000, 80000), Campaign('readfile', read_case, check_read, 3000, 20000)]
