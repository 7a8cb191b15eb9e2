"""C06: a statement parses the same wherever it stands."""
import bb
from common import describe
from core import Campaign, ensure, new_stash, same, st
from props.c01 import inlined

ID = 'C06'
TECHNIQUE = 'metamorphic property-based testing: a file against its statements parsed one by one, and against the file with statements inserted, deleted or reordered'
RULE = ('Files of two to ten complete statements; every statement is also parsed alone, and the file is re-parsed after inserting, deleting or moving statements; non-trivial if the file holds a '
        'function, def, comment or multi-line statement before another statement.')
ASSUMPTIONS = ['statements are complete; a def helper owns the blank and indented lines following it, adjacent comment lines form one comment']

raw = st.one_of(inlined.filter(lambda t: not t.endswith('open"\n')), st.sampled_from([
    'do_x () { foo; }\n', 'python () { pass }\n', 'A = b\n', 'A = "x" # c\n', 'A := "x"  \n', 'FOO\n', 'BBCLASSEXTEND = "native"\n', 'A = "x" \\\n', 'pkg_postinst_${PN} = "x"\n', 'addtask pkg_postinst_x\n',
    'INHERIT = "a"\n', 'A = "\\"x\\""\n', 'export A\n', 'include a.inc # c\n', 'A = ""\n', "A = ''\n", 'A="a\\\nb"\n', 'python do_x() {\n    if x: { }\n}\n', 'addhandler x\n', 'A = "!!!inlineblock!!!"\n',
    '_FOO = "x"\n', '${X} = "y"\n', '-A = "b"\n', '}\n', '"""\n', '%x\n', '.A = "1"\n', ')\n'])).filter(lambda t: not t.endswith('\\\n')).map(lambda t: {'k': 'raw', 'text': t})
stmt = st.one_of(bb.any_stmt(), bb.any_stmt(), raw)
case = st.fixed_dictionaries({'doc': st.lists(stmt, min_size=2, max_size=9), 'new': st.booleans(), 'neg': st.booleans(),
                              'edits': st.lists(st.tuples(st.integers(0, 20), st.sampled_from(['ins', 'del', 'swap', 'move']), st.integers(0, 20), stmt), max_size=3)})


def text(s):
    return s['text'] if s['k'] == 'raw' else bb.render(s)


def legal(doc):
    res = []
    for s in doc:
        t = text(s)
        if res:
            p = res[-1]
            if p['k'] == 'def' and (t[0] in ' \t\n' or t.strip() == ''):
                continue
            if text(p).startswith('#') and t.startswith('#'):
                continue
        res.append(s)
    return res


def switches(s):
    return s['k'] != 'raw' and bb.switches(s)


def parse(ctx, name, body, new, neg):
    path = ctx.write(name, body)
    return new_stash(new_style_override_syntax=new, negative_inline=neg).AddFile(path)


def compare(ctx, doc, new, neg, alone, what):
    items = parse(ctx, 'x/a_1.bb', ''.join(text(s) for s in doc), new, neg)
    pos = 0
    line = 1
    for s in doc:
        single = alone(s, new)
        part = items[pos:pos + len(single)]
        same('%s: report of %r' % (what, text(s)), [describe(x) for x in part], [describe(x) for x in single])
        for a, b in zip(part, single):
            same('%s: line of %r' % (what, text(s)), a.InFileLine, line + b.InFileLine - 1)
        pos += len(single)
        line += text(s).count('\n')
        new = new or switches(s)
    ensure(pos == len(items), '%s: more items in the file than in its statements: %r' % (what, items[pos:]))


def check(case, ctx):
    cache = {}

    def alone(s, new):
        key = (text(s), new)
        if key not in cache:
            cache[key] = parse(ctx, 'y/a_1.bb', text(s), new, case['neg'])
        return cache[key]
    doc = legal(case['doc'])
    compare(ctx, doc, case['new'], case['neg'], alone, 'file')
    for pos, op, other, extra in case['edits']:
        pos %= len(doc)
        other %= len(doc)
        doc = list(doc)
        if op == 'ins':
            doc.insert(pos, extra)
        elif op == 'del' and len(doc) > 1:
            del doc[pos]
        elif op == 'swap':
            doc[pos], doc[other] = doc[other], doc[pos]
        else:
            doc.insert(other, doc.pop(pos))
        doc = legal(doc)
        compare(ctx, doc, case['new'], case['neg'], alone, 'after ' + op)
        ctx.label(op)
    for s in doc[:-1]:
        ctx.nt(s['k'] in ('func', 'def', 'comment') or text(s).count('\n') > 1)
        ctx.label(s['k'])


CAMPAIGNS = [Campaign('documents', case, check, 4500, 90000)]
