"""C21: SRC_URI entries decompose into scheme, location and all options."""
from core import CONSTANTS, Campaign, default_constants, new_stash, same, st

ID = 'C21'
TECHNIQUE = 'round-trip and model-based property testing: URIs composed of generated parts are taken apart again; resource names against the entries written into recipe, included file, class and append'
RULE = ('URIs: composed of scheme, location and up to five, seldom fifteen, options; non-trivial if there are two options or an option value or the location holds one of = ? # @ : % $ or a mirror. '
        'Names: two to six SRC_URI statements over up to four linked files; non-trivial if an entry of a linked file or one not at the start of a value is named.')
ASSUMPTIONS = ['scheme in lower case, no square brackets in the location', 'option names are unique, each option holds =', 'names hold no variable reference but the recipe name']

SCHEMES = ['file', 'git', 'https', 'http', 'ftp', 'gitsm', 'svn', 'npm', 'crate', 'ssh', 's3', 'git+ssh', 'cvs', 'hg', 'repo', 'az', 'x-y.z', 'sftp', 'tel', 'sip', 'p4']
MIRRORS = sorted(default_constants()['replacements']['mirrors'])
seg = st.text(alphabet='abz019._-+~@:%,!*()$&?#', min_size=1, max_size=6)
lseg = st.one_of(seg, seg, st.sampled_from(['${PN}-${PV}.tar.gz', 'github.com', 'user:pw@host:8080', 'x?y=1&z=2', '#frag', '..', '%20', '${BPN}', "${@d.getVar('X')}", 'a.patch', 'LICENSE', 'ä', '~u', '*.cfg', '', 'a\\.b', '\\d']))
loc = st.tuples(st.sampled_from(['', '', '/', '//']), st.lists(lseg, min_size=1, max_size=4)).map(lambda t: t[0] + '/'.join(t[1]))
key = st.one_of(st.sampled_from(['name', 'protocol', 'branch', 'subdir', 'destsuffix', 'sha256sum', 'nobranch', 'unpack', 'rev', 'striplevel', 'patchdir', 'downloadfilename', 'md5sum', 'x-opt', 'A']), st.text(alphabet='abcXYZ019_.-', min_size=1, max_size=4))
val = st.one_of(st.text(alphabet='abz01._-+~@:%,!*()$&?#={}/[]"', max_size=8), st.sampled_from(['main', 'git', '1', 'a=b', 'a=b=c', '==', '${PN}', 'https', 'x://y', 'http://h/x?a=b', '${SRCBRANCH}', '', '^v(?P<pver>\\d+)', 'a\\.b']))
opts = st.one_of(*[st.lists(st.tuples(key, val), max_size=5, unique_by=lambda t: t[0])] * 9, st.lists(st.tuples(key, val), min_size=6, max_size=15, unique_by=lambda t: t[0]))
uri = st.fixed_dictionaries({'scheme': st.sampled_from(SCHEMES), 'loc': loc, 'opts': opts, 'mirror': st.sampled_from(['', '', '', '', *MIRRORS, '${MINE}', '${MY_MIRROR}']), 'also': st.sampled_from([None] * 4 + [*MIRRORS, '${MINE}']), 'end': st.sampled_from(['', '', '', ';', ';;']), 'gap': st.sampled_from([';', ';', ';;'])})


def compose(u, head):
    return head + (u['gap'] if u['opts'] else '') + ';'.join('%s=%s' % (k, v) for k, v in u['opts']) + u['end']


def check_uri(case, ctx):
    CONSTANTS.AddConstants({'replacements': {'mirrors': {'${MINE}': 'git://mine.example/x', '${MY_MIRROR}': 'https://my.example/?d=%2f'}}})
    stash = new_stash()
    for u in case:
        mirrors = CONSTANTS.MirrorsKnown
        if u['mirror']:
            scheme, _, rest = mirrors[u['mirror']].partition('://')
            rest, _, more = rest.partition(';')
            if more:    # the mirror brings an option of its own
                continue
            head, scheme, where = u['mirror'] + '/' + u['loc'], scheme, rest + '/' + u['loc']
        else:
            scheme, where = u['scheme'], u['loc']
            head = scheme + '://' + where
        text = compose(u, head)
        also = {}
        if u['also'] and ';' not in mirrors[u['also']]:
            # wherever they are written
            text += ('' if text.endswith(';') else ';') + 'also=%s/x;again=a%s' % (u['also'], u['also'])
            also = {'also': mirrors[u['also']] + '/x', 'again': 'a' + mirrors[u['also']]}
        if any(m in ';'.join(x for o in u['opts'] for x in o) or m in u['loc'] for m in mirrors):
            continue
        got = stash.GetScrComponents(text)
        same('components of %r' % text, got, {'scheme': scheme, 'src': where, 'options': {**dict(u['opts']), **also}})
        same('components asked for again', stash.GetScrComponents(text), got)
        ctx.nt(len(u['opts']) > 1 or any(c in v for _, v in u['opts'] for c in '=?#@:%$') or any(c in u['loc'] for c in '?#@:%$') or bool(u['mirror']))
        ctx.label('mirror' if u['mirror'] else 'scheme')


name = st.sampled_from(['a', 'b', 'main', 'x-1', 'patch.1', '${PN}', '${PN}-sub', 'r', 'n=1', 'A_b', '${PN}-${PN}', 'x${PN}y${PN}'])
entry = st.fixed_dictionaries({'name': st.one_of(st.none(), name, name), 'scheme': st.sampled_from(['git', 'https', 'file', 'npm']), 'loc': st.sampled_from(['h/x', 'a.patch', '${BPN}-${PV}.tar.gz', 'name=no', 'h/x?name=y']),
                               'before': st.sampled_from(['', ';protocol=https', ';branch=name', ';x=name=1']), 'after': st.sampled_from(['', ';subdir=name', ';rename=no', ';names=p']), 'how': st.sampled_from(['', '', '', 'then', 'else'])})
assign = st.fixed_dictionaries({'op': st.sampled_from(['SRC_URI = ', 'SRC_URI += ', 'SRC_URI =+ ', 'SRC_URI .= ', 'SRC_URI:append = ', 'SRC_URI:prepend:qemux86 = ', 'SRC_URI ?= ', 'SRC_URI:class-native = ', 'OTHER = ', 'SRC_URI_X = ', 'SRC_URI[name] = ']),
                                'entries': st.lists(entry, min_size=1, max_size=4), 'file': st.sampled_from([0, 0, 1, 2, 3, 4]), 'wrap': st.sampled_from([' ', '  ', ' \\\n    ', '\t', ' \\\n'])})
names = st.fixed_dictionaries({'assigns': st.lists(assign, min_size=1, max_size=6), 'recipe': st.sampled_from(['r_1.0.bb', 'r.bb', 'a-b_git.bb', 'libr+_2.bb']), 'neg': st.booleans(), 'links': st.integers(0, 7), 'old': st.integers(0, 31)})


def check_names(case, ctx):
    pn = case['recipe'].split('_')[0].split('.bb')[0]
    stem = case['recipe'][:-3]
    files = ['l/recipes/' + case['recipe'], 'l/recipes/x.inc', 'l/classes/k.bbclass', 'l/recipes/%s.bbappend' % stem, 'l/recipes/other_1.bb']
    text = ['', '', '', '', '']
    linked = {0, 3}
    if case['links'] & 1:
        text[0] += 'require x.inc\n'
        linked.add(1)
    if case['links'] & 2:
        text[0] += 'inherit k\n'
        linked.add(2)
    if not case['links'] & 4:
        linked.remove(3)
    want = {i: set() for i in range(5)}
    for a in case['assigns']:
        words = []
        real = a['op'].startswith('SRC_URI') and not a['op'].startswith(('SRC_URI_X', 'SRC_URI['))
        for k, e in enumerate(a['entries']):
            t = '%s://%s%s%s%s' % (e['scheme'], e['loc'], e['before'], ';name=' + e['name'] if e['name'] is not None else '', e['after'])
            taken = True
            if e['how']:
                taken = (e['how'] == 'then') != case['neg']
                t = "${@bb.utils.contains('X', 'y', '%s', '%s', d)}" % ((t, '') if e['how'] == 'then' else ('', t))
            words.append(t)
            if real and taken and e['name'] is not None:
                want[a['file']].add(e['name'])
                ctx.nt(a['file'] > 0 or k > 0)
        text[a['file']] += '%s"%s"\n' % (a['op'].replace(':', '_') if case['old'] >> a['file'] & 1 else a['op'], a['wrap'].join([''] + words))
    paths = [ctx.write(f, t) for f, t in zip(files, text)]
    ctx.write('l/conf/layer.conf', '')
    stash = new_stash(negative_inline=case['neg'])
    stash.AddFile(paths[0])
    stash.AddFile(paths[4])
    if 3 in linked:
        stash.AddFile(paths[3])
    stash.Finalize()
    full = set().union(*(want[i] for i in linked))
    same('resource names of the recipe', stash.GetValidNamedResources(paths[0]), {pn} | {n.replace('${PN}', pn) for n in full}, *text)
    same('resource names of the other recipe', stash.GetValidNamedResources(paths[4]), {'other'} | {n.replace('${PN}', 'other') for n in want[4]}, *text)
    ctx.label('%d names' % len(full))


CAMPAIGNS = [Campaign('uris', st.lists(uri, min_size=1, max_size=3), check_uri, 8000, 120000), Campaign('names', names, check_names, 3000, 50000)]
