"""C10: expanded variables follow BitBake's assignment operator semantics."""
import re

import assign
import bb
from bb import OPS
from core import Campaign, ensure, new_stash, same, st

ID = 'C10'
TECHNIQUE = 'model-based property testing: generated assignment histories over several file layouts against a reference evaluator'
RULE = ('Histories of one to twelve assignments, override operations and unsets of three variables with overrides, laid out in one recipe or over include, nested include, class and bbappend in both loading '
        'orders; non-trivial if some variable is touched at least twice. References: one to ten assignments of four variables whose values and removed entries refer to one another; non-trivial if some value that is expanded holds a reference.')
ASSUMPTIONS = ['entries are literal text or references to variables that have a plain assignment, the empty, builtin or unknown name (inline blocks are C09); := is without references (known finding)', 'white space around removed entries is not kept', 'append, prepend and remove overrides use the "=" operator', 'unset drops immediate assignments, override operations survive it (fixed by an existing test)']

item = st.tuples(assign.stmt, assign.style)
case = st.fixed_dictionaries({'stmts': st.lists(item, min_size=1, max_size=12), 'delim': st.sampled_from([':', ':', '_']),
                              'layout': st.sampled_from(['single', 'single', 'include', 'nested', 'class', 'append', 'append_first', 'two_appends', 'include_append']),
                              'cut1': st.integers(0, 12), 'cut2': st.integers(0, 12), 'pct': st.booleans(), 'pad': bb.PADS})


def check(case, ctx):
    delim = case['delim']
    stmts = [s for s, _ in case['stmts']]
    texts = [assign.render(s, delim, how) for s, how in case['stmts']]
    texts[len(texts) // 2] = bb.pad(case['pad']) + texts[len(texts) // 2]
    n = len(texts)
    a, b = sorted((min(case['cut1'], n), min(case['cut2'], n)))
    lay = case['layout']
    rec = 'l/recipes/r_1.0.bb'
    app = 'l/recipes/r_%.bbappend' if case['pct'] else 'l/recipes/r_1.0.bbappend'
    ctx.write('l/conf/layer.conf', '')
    order = []
    J = ''.join

    def write(rel, body):
        order.append(ctx.write(rel, body))
    if lay == 'single':
        write(rec, J(texts))
    elif lay == 'include':
        ctx.write('l/recipes/x.inc', J(texts[a:b]))
        write(rec, J(texts[:a]) + 'require x.inc\n' + J(texts[b:]))
    elif lay == 'nested':
        m = (a + b) // 2
        ctx.write('l/recipes/y.inc', J(texts[m:b]))
        ctx.write('l/recipes/x.inc', J(texts[a:m]) + 'include recipes/y.inc\n')
        write(rec, J(texts[:a]) + '# c\n\nrequire x.inc\n' + J(texts[b:]))
    elif lay == 'class':
        ctx.write('l/classes/k.bbclass', J(texts[a:b]))
        write(rec, J(texts[:a]) + 'inherit k\n' + J(texts[b:]))
    elif lay in ('append', 'append_first'):
        write(rec, J(texts[:a]))
        write(app, J(texts[a:]))
        if lay == 'append_first':
            order.reverse()
    elif lay == 'two_appends':
        write(rec, J(texts[:a]))
        write('l/recipes/r_1.0.bbappend', J(texts[a:b]))
        write('l/recipes/r_%.bbappend', J(texts[b:]))
        if case['pct']:
            order = order[1:] + order[:1]
    else:
        ctx.write('l/recipes/x.inc', J(texts[:a]))
        write(rec, 'require x.inc\n' + J(texts[a:b]))
        write(app, J(texts[b:]))
    recipe = ctx.path(rec)
    stash = new_stash()
    for p in order:
        stash.AddFile(p)
    stash.Finalize()
    want = assign.evaluate(stmts, delim)
    got = stash.ExpandVar(recipe)

    def final(k):
        return k.replace('${PN}', 'r')
    for k, v in want.items():
        same('entries of %s' % k, got.get(final(k), 'not reported'), v)
    for k, v in got.items():
        if k.split(delim)[0] in assign.VARS and k not in {final(x) for x in want}:
            ensure(v == [], 'entries reported for the unset variable %s: %r' % (k, v))
    for var in assign.VARS:
        one = stash.ExpandVar(recipe, attribute='VarName', attributeValue=var)
        for k, v in want.items():
            if k.split(delim)[0] == var:
                same('entries of %s queried alone' % k, one.get(final(k), 'not reported'), v)
        for k, v in one.items():
            if k.split(delim)[0] in assign.VARS and k.split(delim)[0] != var:
                ensure(v == [], 'entries of %s reported for a query for %s: %r' % (k, var, v))
    # the file on its own
    own = {'single': stmts, 'append': stmts[:a], 'append_first': stmts[:a], 'two_appends': stmts[:a], 'include_append': stmts[a:b]}.get(lay, stmts[:a] + stmts[b:])
    one = stash.ExpandVar(recipe, nolink=True)
    want = assign.evaluate(own, delim)
    for k, v in want.items():
        same('entries of %s without linked files' % k, one.get(final(k), 'not reported'), v)
    for k, v in one.items():
        if k.split(delim)[0] in assign.VARS and k not in {final(x) for x in want}:
            ensure(v == [], 'entries of %s reported without linked files: %r' % (k, v))
    if lay == 'single':
        same('expansion without a file given', stash.ExpandVar(), got if stmts else {})
    touched = [assign.key(s, delim) for s in stmts]
    ctx.nt(len(touched) > len(set(touched)))
    ctx.label(lay)
    for s in stmts:
        ctx.label(s['k'] if s['k'] == 'unset' else (s['mod'] or s['op']))


# values made of references: operators work on the text as written, entries are those of the expanded text
RANK = {'A': 'BCD', 'B': 'CD', 'C': 'D', 'D': ''}
_piece = st.sampled_from(['a', 'b', 'x', 'ab', ' ', ' ', ' ', '  ', '-', '${B}', '${C}', '${D}', '${B}', '${C}', '${PN}', '${NOPE}', 'r', '1.0', '${PV}'])
_rstmt = st.fixed_dictionaries({'k': st.just('set'), 'var': st.sampled_from('AAABBCD'), 'over': st.sampled_from(['', '', '', '', '', 'qemux86']),
                                'op': st.sampled_from([*OPS, '=', '=']), 'mod': st.sampled_from(['', '', '', '', 'append', 'prepend', 'remove', 'remove']), 'first': st.booleans(), 'val': st.lists(_piece, max_size=5).map(''.join)})
ref_case = st.fixed_dictionaries({'stmts': st.lists(st.tuples(_rstmt, assign.style), min_size=1, max_size=10), 'delim': st.sampled_from([':', ':', '_']), 'lay': st.sampled_from(['single', 'include', 'append']), 'cut': st.integers(0, 10)})
_ref = re.compile(r'\$\{(\w+)\}')


def check_refs(case, ctx):
    delim = case['delim']
    stmts, lines = [], []
    gone = {s['var'] for s, _ in case['stmts'] if s['mod'] == 'remove'}
    known = {s['var'] for s, _ in case['stmts'] if not s['mod'] and s['op'] in ('=', ':=', '?=', '??=') and (not s['over'] or s['var'] == 'A')}
    for s, how in case['stmts']:
        s = dict(s)
        if s['mod']:
            s['op'] = '='
        if s['var'] != 'A':
            s['over'] = ''
            if s['var'] not in known:    # variables that are only extended are not known to references (C11)
                continue

        def keep(m):
            n = m.group(1)
            if n not in RANK:
                return m.group(0)
            if n not in RANK[s['var']]:
                return 'x'
            # white space around what was removed is not kept
            return ' ${%s} ' % n if n in gone else m.group(0)
        s['val'] = _ref.sub(keep, s['val'])
        if s['op'] == ':=' and '${' in s['val'] and not case.get('strict'):
            s['op'] = '='    # expanded at the end: known finding
        stmts.append(s)
        lines.append(assign.render(s, delim, how))
    vals = {'PN': 'r', 'PV': '1.0'}
    want = {}
    raw = assign.texts(stmts, delim)
    rem = assign.removals(stmts, delim)
    if case.get('strict'):
        raw = {}
        for i, s in enumerate(stmts):
            if s['op'] == ':=':
                s['val'] = _ref.sub(lambda m: assign.texts(stmts[:i], delim).get(m.group(1), vals.get(m.group(1), m.group(0))), s['val'])
        raw = assign.texts(stmts, delim)

    def sub(t):
        return _ref.sub(lambda m: vals.get(m.group(1), m.group(0)), t)
    used = 0
    for var in 'DCBA':
        for k in {x: 0 for x in [*raw, *(x for x, _ in rem)]}:
            if k.split(delim)[0] != var:
                continue
            used += '${' in raw.get(k, '')
            value = sub(raw.get(k, ''))
            entries = value.split()
            for x, t in rem:
                if x == k:
                    left = [e for e in entries if e not in sub(t).split()]
                    if len(left) < len(entries) and ('${' in raw.get(k, '') or '${' in t):
                        ctx.label('removed by reference')
                    entries = left
                    value = ' '.join(entries)
            want[k] = entries
            if k == var:
                vals[var] = value
    cut = min(case['cut'], len(lines))
    ctx.write('l/conf/layer.conf', '')
    stash = new_stash()
    if case['lay'] == 'include':
        ctx.write('l/recipes/x.inc', ''.join(lines[:cut]))
        files = [ctx.write('l/recipes/r_1.0.bb', 'require x.inc\n' + ''.join(lines[cut:]))]
    elif case['lay'] == 'append':
        files = [ctx.write('l/recipes/r_1.0.bb', ''.join(lines[:cut])), ctx.write('l/recipes/r_1.0.bbappend', ''.join(lines[cut:]))]
    else:
        files = [ctx.write('l/recipes/r_1.0.bb', ''.join(lines))]
    for f in files:
        stash.AddFile(f)
    stash.Finalize()
    got = stash.ExpandVar(files[0])
    for k, v in want.items():
        same('entries of %s' % k, got.get(k, 'not reported'), v, lines)
        if k in vals:
            same('reference to %s' % k, [x for x in stash.SafeLineSplit(stash.ExpandTerm(files[0], '${%s}' % k)) if x] if k in known else [], v if k in known else [], lines)
    for var in RANK:
        one = stash.ExpandVar(files[0], attribute='VarName', attributeValue=var)
        for k, v in want.items():
            if k.split(delim)[0] == var:
                same('entries of %s queried alone' % k, one.get(k, 'not reported'), v, lines)
        for k, v in one.items():
            if k.split(delim)[0] in RANK and k.split(delim)[0] != var:
                ensure(v == [], 'entries of %s reported for a query for %s: %r' % (k, var, v), lines)
    ctx.nt(used)


CAMPAIGNS = [Campaign('histories', case, check, 6000, 100000), Campaign('references', ref_case, check_refs, 3000, 50000), Campaign('references-immediate', ref_case, check_refs, 0, 0)]
