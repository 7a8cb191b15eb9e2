"""C18: the fingerprint is reproducible and reacts to every content change."""
import contextlib
import io
import json
import os
import subprocess
import sys

import core
import tree
from core import Campaign, HarnessError, ensure, new_stash, same, st
from props.c13 import QUERIES, ask

ID = 'C18'
TECHNIQUE = 'metamorphic property testing: same load in fresh processes with other hash seeds, with queries in between and repeated; single edits of content, file set and options have to change the fingerprint'
RULE = ('Generated projects loaded in this process, again with queries and finalising in between, and in a fresh process with another hash randomisation; and loaded with one edit; non-trivial if at least two files are read '
        'and, for edits, the edited text differs after newline normalisation.')
ASSUMPTIONS = ['collisions of the digest do not happen', 'an edit touches a file that takes part']

TEXT = st.one_of(st.sampled_from(tree.SIMPLE), tree.random_text(), st.sampled_from(['inherit k0 k1\n', 'inherit k0 k1 k2 nope\n', 'INHERIT += "k2 k1 k0"\n', 'A = "${@foo()} ${@bar}"\n']))
opts = st.fixed_dictionaries({'negative_inline': st.booleans(), 'new_style_override_syntax': st.booleans()})
proj = tree.project(text=TEXT, files=(2, 7), size=5, lo=1)
one = st.fixed_dictionaries({'proj': proj, 'opts': opts, 'rot': st.integers(0, 4), 'q': st.lists(st.tuples(st.sampled_from(QUERIES), st.integers(0, 9)), max_size=4), 'fin': st.integers(0, 7)})
case = st.fixed_dictionaries({'projs': st.lists(one, min_size=4, max_size=8), 'hash': st.integers(1, 4000)})


def load(job):
    stash = new_stash(**job['opts'])
    for p in job['files']:
        stash.AddFile(p)
    return stash.FingerPrint


def order_of(p, rot, paths):
    top = tree.tops(p)
    k = rot % len(top)
    return [paths[i] for i in top[k:] + top[:k]]


def check(case, ctx):
    jobs = []
    for n, one in enumerate(case['projs']):
        paths = tree.write(one['proj'], ctx, 'l%d' % n)
        jobs.append({'opts': one['opts'], 'files': order_of(one['proj'], one['rot'], paths)})
    want = [load(j) for j in jobs]
    same('fingerprints of a second load', [load(j) for j in jobs], want)
    with contextlib.redirect_stdout(io.StringIO()):
        same('fingerprints of a load with progress printed', [load(dict(j, opts=dict(j['opts'], quiet=False))) for j in jobs], want)
    for one, job, fp in zip(case['projs'], jobs, want):
        stash = new_stash(**job['opts'])
        early = None
        for i, p in enumerate(job['files']):
            stash.AddFile(p)
            if i == len(job['files']) - 1:
                early = stash.FingerPrint
            for kind, k in one['q']:
                ask(stash, kind, job['files'][k % len(job['files'])])
            if one['fin'] >> i & 1:
                stash.Finalize()
        same('fingerprint with queries in between', early, fp)
        stash.Finalize()
        ask(stash, 'expandvar', job['files'][0])
        same('fingerprint after finalising and queries', stash.FingerPrint, fp)
        ctx.nt(len({x.Origin for x in stash.GetItemsFor()}) > 1)
    env = dict(os.environ, PYTHONHASHSEED=str(case['hash']), PYTHONDONTWRITEBYTECODE='1')
    run = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fpchild.py'), core.REPO],
                         input=json.dumps(jobs), capture_output=True, text=True, env=env, timeout=120)
    if run.returncode:
        raise HarnessError('fresh process failed: ' + run.stderr[-800:]) if 'oelint_parser' not in run.stderr else core.Violation('loading in a fresh process failed\n' + run.stderr[-800:])
    same('fingerprints in a fresh process with hash seed %d' % case['hash'], json.loads(run.stdout), want)
    ctx.label('sets of files: %d' % len(jobs))


edit = st.fixed_dictionaries({'how': st.sampled_from(['insert', 'insert', 'delete', 'delete', 'replace', 'swap', 'dup', 'tail', 'space', 'value', 'option', 'drop', 'add_empty', 'add']), 'file': st.integers(0, 9),
                              'pos': st.integers(0, 400), 'char': st.sampled_from(list(' \tab"\'#\\\n=:_1${}@') + ['\r', 'ä', '\x0c', 'append'])})
ecase = st.fixed_dictionaries({'one': one, 'edit': edit})


def check_edit(case, ctx):
    one, e = case['one'], case['edit']
    p = one['proj']
    paths = tree.write(p, ctx, 'l')
    files = order_of(p, one['rot'], paths)
    job = {'opts': one['opts'], 'files': files}
    before = load(job)
    how = e['how']
    ctx.label(how)
    if how == 'option':
        key = sorted(job['opts'])[e['pos'] % 2]
        after = load(dict(job, opts=dict(job['opts'], **{key: not job['opts'][key]})))
        ensure(after != before, 'same fingerprint with other option ' + key)
        ctx.nt()
        return
    if how == 'drop':
        k = e['file'] % len(files)
        after = load(dict(job, files=files[:k] + files[k + 1:]))
        ensure(after != before, 'same fingerprint without %s' % files[k])
        ctx.nt(len(files) > 1)
        return
    if how in ('add', 'add_empty'):
        extra = ctx.write('l/recipes/%s' % ['z_1.bb', 'r_%.bbappend', 'q.inc', 'q.conf'][e['file'] % 4] if how == 'add' else 'l/recipes/zz_1.bb', 'A = "b"\n' if how == 'add' else '')
        if extra in files:
            return
        k = e['pos'] % (len(files) + 1)
        after = load(dict(job, files=files[:k] + [extra] + files[k:]))
        ensure(after != before, 'same fingerprint with %s added' % extra)
        ctx.nt()
        return
    k = e['file'] % len(paths)
    with open(paths[k], newline='') as i:
        text = i.read()
    pos = e['pos'] % (len(text) + 1)
    if how == 'insert':
        new = text[:pos] + e['char'] + text[pos:]
    elif how == 'delete':
        new = text[:pos] + text[pos + 1:]
    elif how == 'replace':
        new = text[:pos] + e['char'] + text[pos + 1:]
    elif how == 'swap':
        new = text[:pos] + text[pos + 1:pos + 2] + text[pos:pos + 1] + text[pos + 2:]
    elif how == 'dup':
        lines = text.splitlines(True)
        n = pos % len(lines) if lines else 0
        new = ''.join(lines[:n + 1] + lines[n:])
    elif how == 'tail':
        new = text[:-1]
    elif how == 'value':
        new = text.replace('a', 'b', 1)
    else:
        new = text[:pos].rstrip(' ') + text[pos:] if e['char'] < 'a' else text.replace(' ', '  ', 1)

    def norm(t):
        return t.replace('\r\n', '\n').replace('\r', '\n')
    ctx.write(paths[k][len(ctx.dir) + 1:], new)
    after = load(job)
    graph = tree.direct(p, [paths.index(x) for x in files])
    if norm(new) == norm(text):
        same('fingerprint of the same content', after, before)
        return
    if k not in graph:
        return
    ensure(after != before, 'same fingerprint after an edit of %s' % p['files'][k]['n'], repr(text), repr(new))
    ctx.nt(len(graph) > 1)


CAMPAIGNS = [Campaign('processes', case, check, 160, 3000), Campaign('edits', ecase, check_edit, 4000, 60000)]
