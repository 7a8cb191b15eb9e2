"""C16: overall line order equals the order in which statements take effect."""
import assign
import bb
import tree
from core import Campaign, ensure, new_stash, same, st

ID = 'C16'
TECHNIQUE = 'model-based property testing: generated include and inherit trees against a direct walk of the written files; values against a reference evaluator'
RULE = ('Trees of up to nine files with repeated, nested, adjacent and trailing includes and inherits in one recipe, optionally appended; non-trivial if a file pulled in two levels down or twice has statements behind it.')
ASSUMPTIONS = ['one recipe in the stash, appends added after it', 'a class takes effect where it is inherited first', 'the position of an include or inherit statement relative to the content it pulls in is left open']

assigns = st.tuples(assign.stmt.filter(lambda s: '$' not in s.get('over', '')), assign.style).map(lambda t: assign.render(t[0], ':', t[1]))
TEXT = st.one_of(st.sampled_from(tree.SIMPLE), st.sampled_from(tree.SIMPLE), tree.random_text())
NAMES = [n for n in tree.WIDE if not n.endswith(('s_2.bb', 's_2.bbappend'))]
pull = st.tuples(st.just('l'), st.sampled_from(['require', 'require', 'include', 'inherit', 'inherit', 'glob', 'defer']), st.integers(0, 30), st.booleans()).map(list)
elem = st.one_of(tree.element(TEXT), pull, pull)
case = st.fixed_dictionaries({'proj': tree.project(names=NAMES, elem=elem, files=(5, 9), lo=1, size=5), 'fin': st.booleans(), 'eof': st.integers(0, 511)})
OPS = ['A = "1"\n', 'A += "2"\n', 'A .= "3"\n', 'A =+ "4"\n', 'A ?= "5"\n', 'A:append = "6"\n', 'A:prepend = "7"\n']




def walk(proj, paths, i, seen, trail, out):
    """statements in the order they take effect: [file, line, level, is link]"""
    line = 1
    for e in proj['files'][i]['c']:
        if e[0] == 'l':
            out.append((paths[i], line, len(trail), True))
            t = e[2]
            if not (paths[t].endswith('.bbclass') and t in seen):
                seen.add(t)
                walk(proj, paths, t, seen, trail + [i], out)
        else:
            out.append((paths[i], line, len(trail), False))
        line += e[1].count('\n')


def check(case, ctx):
    proj = case['proj']
    # every include is pulled in at most a few times, or lines multiply
    paths = tree.write(proj, ctx)
    for n, (p, f) in enumerate(zip(paths, proj['files'])):
        if case['eof'] >> n & 1:
            text = tree.content(f)
            if len(text) > 1 and text.endswith('\n') and not text.endswith('\n\n'):
                ctx.write(p[len(ctx.dir) + 1:], text[:-1])
    stash = new_stash()
    top = tree.tops(proj)
    for i in top:
        stash.AddFile(paths[i])
    if case['fin']:
        stash.Finalize()
    recipe = paths[top[0]]
    out = []
    seen = set()
    for i in top:
        walk(proj, paths, i, seen, [], out)
    if len(out) > 1500:
        return
    items = list(stash.GetItemsFor())
    lines = [x.Line for x in items]
    same('overall lines in order', lines, sorted(lines))
    ensure(len(lines) == len(set(lines)), 'two items share an overall line', [(x.Origin, x.InFileLine, x.Line) for x in items])
    # one element can hold several statements: items are matched to the element they start in
    starts = {}
    for p, line, _, link in out:
        starts.setdefault(p, {})[line] = link

    def elem_of(x):
        return max(n for n in starts[x.Origin] if n <= x.InFileLine)
    got = []
    for x in items:
        e = (x.Origin, elem_of(x))
        if starts[e[0]][e[1]]:
            continue
        if got and got[-1][:2] == e and x.InFileLine > got[-1][2]:
            got[-1] = (*e, x.InFileLine)
            continue
        got.append((*e, x.InFileLine))
    short = {p: f['n'] for p, f in zip(paths, proj['files'])}
    same('order of statements', [(short[a], b) for a, b, _ in got], [(short[p], n) for p, n, _, link in out if not link])
    # statements pulling in files stand in their own file's order, also in single scopes
    for k, p in enumerate(paths):
        own = [(x.Line, x.InFileLine) for x in items if x.Origin == p]
        if sum(1 for o in out if o[0] == p) == len({o[1] for o in out if o[0] == p}):
            same('order within %s' % short[p], [b for _, b in own], sorted(b for _, b in own))
    if case['fin']:
        part = [x for x in stash.GetItemsFor(filename=recipe)]
        order = [id(x) for x in items]
        pos = [order.index(id(x)) for x in part]
        same('order in the scope of the recipe', pos, sorted(pos))
    files = [o[0] for o in out]
    deep = False
    for j in range(1, len(out)):
        if out[j - 1][2] >= 2 and out[j][2] < out[j - 1][2]:
            deep = True
    ctx.nt(deep or any(len([o for o in out if o[0] == p]) > len({o[1] for o in out if o[0] == p}) and files[-1] != p for p in paths))
    ctx.label('level %d' % max([o[2] for o in out] or [0]))


chain = st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3]), st.integers(0, 6)), min_size=2, max_size=14)
values = st.fixed_dictionaries({'prog': chain, 'cut': st.lists(st.integers(0, 3), min_size=14, max_size=14)})


deep = st.fixed_dictionaries({'links': st.lists(st.tuples(st.sampled_from(['require', 'include', 'inherit']), st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=40)})


def check_deep(case, ctx):
    """one chain of files, each with statements before and after the one it pulls in"""
    ctx.write('l/conf/layer.conf', '')
    want = []
    after = []
    top = 'l/recipes/r_1.bb'
    rel = top
    for i, (how, a, b) in enumerate([*case['links'], ('', 1, 0)]):
        nxt = 'd%d' % i
        want += ['B%d%d' % (i, k) for k in range(a)]
        after = ['E%d%d' % (i, k) for k in range(b)] + after
        text = ''.join('B%d%d = "1"\n' % (i, k) for k in range(a)) + ('%s %s\n' % (how, nxt if how == 'inherit' else 'recipes/%s.inc' % nxt) if how else '') + ''.join('E%d%d = "1"\n' % (i, k) for k in range(b))
        ctx.write(rel, text)
        rel = 'l/classes/%s.bbclass' % nxt if how == 'inherit' else 'l/recipes/%s.inc' % nxt
    stash = new_stash()
    stash.AddFile(ctx.path(top))
    stash.Finalize()
    same('order of statements', [x.VarName for x in stash.GetItemsFor(classifier='Variable')], want + after)
    ctx.nt(len(case['links']) > 2)


def check_values(case, ctx):
    """a run of assignments cut into nested includes evaluates like the flat recipe"""
    levels = ['recipes/r_1.bb', 'recipes/i0.inc', 'recipes/i1.inc', 'recipes/i2.inc']
    flat = []
    count = [0]

    def emit(prog, level):
        text = ''
        k = 0
        while k < len(prog):
            lvl, op = prog[k]
            if lvl > level and level < 2:    # links over three steps are a known finding of C14
                j = k
                while j < len(prog) and prog[j][0] > level:
                    j += 1
                count[0] += 1
                name = 'x%d.inc' % count[0]
                sub = emit(prog[k:j], level + 1)
                ctx.write('l/recipes/' + name, sub)
                text += 'require %s\n' % name
                k = j
            else:
                text += OPS[op]
                flat.append(op)
                k += 1
        return text
    ctx.write('l/conf/layer.conf', '')
    nested = ctx.write('l/recipes/' + levels[0][8:], emit([tuple(x) for x in case['prog']], 0))
    one = ctx.write('l/flat/r_1.bb', ''.join(OPS[o] for o in flat))
    res = []
    for p in (nested, one):
        stash = new_stash()
        stash.AddFile(p)
        stash.Finalize()
        res.append(stash.ExpandVar(p)['A'])
    same('value of A', res[0], res[1], flat)
    stmts = []
    for o in flat:
        t = OPS[o].split(' ')
        mod = t[0].partition(':')[2]
        stmts.append({'k': 'set', 'var': 'A', 'over': '', 'op': t[1], 'mod': mod, 'val': t[2].strip('"\n')})
    same('value of A', res[0], assign.evaluate(stmts)['A'], flat)
    ctx.nt(count[0] > 1)
    ctx.label('files: %d' % (count[0] + 1))


CAMPAIGNS = [Campaign('trees', case, check, 5000, 45000), Campaign('values', values, check_values, 5000, 40000), Campaign('deep', deep, check_deep, 300, 3000)]
