"""C23: recipe name, base name and version follow from the file name."""
import os
import re

from core import Campaign, ensure, new_stash, same, st

ID = 'C23'
TECHNIQUE = 'round-trip property testing: file names composed of prefix, name, suffix and version are taken apart again; builtin references in terms, variables, values and include names against the composed parts'
RULE = ('File names composed of generated parts in directories with underscores and dots, two to three per stash; non-trivial if a name holds a prefix or suffix (also in the middle), more than one underscore, or no version.')
ASSUMPTIONS = ['name and version parts are not empty', 'at most one nativesdk- prefix and one of the suffixes -native and -cross', 'no line ends in file names']

word = st.one_of(st.sampled_from(['foo', 'lib+x', 'native', 'cross', 'nativesdk', 'a.b', 'x11', 'gcc', 'linux-yocto', 'foo-native-tools', 'foo-crossover', 'cross-foo', 'native-foo', 'mynativesdk-foo', 'foo-nativesdk', 'foo-nativesdk-bar',
                                  'foo-natives', 'a-crossx', '1', 'v1.2', 'FOO', 'foo-NATIVE', '-', 'python3-foo', 'ä', 'foonative', 'foocross', 'x-native.y', 'foo-cross-canadian', 'foo-native-bar', 'nativesdkfoo', 'a b', '%', 'packagegroup-x']),
                 st.text(alphabet='abz019.+-~', min_size=1, max_size=6))
core = word.filter(lambda w: not w.endswith(('-native', '-cross')) and not w.startswith(('nativesdk-', '.')) and w not in ('native', 'cross') or w in ('native', 'cross'))
vers = st.one_of(st.sampled_from(['1.0', 'git', '1.2.3+git', '0', '2024-01', 'v1', '1.0.bb', '%', 'svn', '1:2', '1.0~rc1', '-native', 'nativesdk-x']), st.text(alphabet='abz019.+-~', min_size=1, max_size=5))
fname = st.fixed_dictionaries({'pre': st.sampled_from(['', '', 'nativesdk-']), 'core': core, 'suf': st.sampled_from(['', '', '-native', '-cross']), 'vers': st.lists(vers, max_size=3),
                               'ext': st.sampled_from(['.bb', '.bb', '.bb', '.bbappend', '.inc', '.bbclass', '.conf']), 'dir': st.sampled_from(['recipes', 'recipes_x/r_2.0', 'a.b', 'r-native_1', 'nativesdk-d'])})
case = st.fixed_dictionaries({'files': st.lists(fname, min_size=1, max_size=3, unique_by=lambda f: (f['pre'], f['core'], f['suf'], tuple(f['vers']), f['ext'], f['dir'])), 'fin': st.booleans(),
                              'term': st.lists(st.sampled_from(['${PN}', '${BPN}', '${PV}', '${FILE}', '${THISDIR}', 'a', '-', '/', '${NOPE}', '$', '{PN}', 'PV', ' ']), max_size=6)})


def check(case, ctx):
    want = {}
    for f in case['files']:
        pn = f['pre'] + f['core'] + f['suf']
        # a middle part alone can look like prefix or suffix
        if (f['core'] + f['suf']).startswith('nativesdk-') or f['core'].startswith('-') and f['pre'] or pn.endswith('-native') and f['suf'] != '-native' or pn.endswith('-cross') and f['suf'] != '-cross':
            continue
        stem = '_'.join([pn] + f['vers'])
        p = ctx.path('l/%s/%s%s' % (f['dir'], stem, f['ext']))
        if p in want:
            continue
        want[p] = (pn, f['core'], (f['vers'] + [None])[0])
        ctx.nt(f['pre'] != '' or f['suf'] != '' or len(f['vers']) != 1 or 'native' in f['core'] or 'cross' in f['core'])
    stash = new_stash()
    ctx.write('l/conf/layer.conf', '')
    ref = {'REF': '${PN}|${BPN}|${PV}', 'WHERE': '${FILE}#${THISDIR}', 'GETV': "${@d.getVar('PN')}-${@d.getVar('PV', True)}-${@d.getVar(\"BPN\")}"}
    body = ''.join("%s = '%s'\n" % kv if '"' in kv[1] and "'" not in kv[1] else '%s = "%s"\n' % (kv[0], kv[1].replace('"', "'")) for kv in ref.items())
    for p in want:
        inc = want[p][0] + '-part.inc'
        text = body + ('require ${PN}-part.inc\n' if p.endswith('.bb') and ' ' not in inc and all(c.isascii() and (c.isalnum() or c in '-./+~') for c in inc) else '')
        if 'require' in text:
            ctx.write(os.path.relpath(os.path.join(os.path.dirname(p), inc), ctx.dir), 'OWN = "1"\n')
        ctx.write(os.path.relpath(p, ctx.dir), text)
        stash.AddFile(p)
    if case['fin']:
        stash.Finalize()
    term = ''.join(case['term'])
    for turn in (0, 1):
        for p, (pn, bpn, pv) in want.items():
            info = os.path.relpath(p, ctx.dir)
            same('recipe name of ' + info, stash.GuessRecipeName(p), pn)
            same('base name of ' + info, stash.GuessBaseRecipeName(p), bpn)
            same('version of ' + info, stash.GuessRecipeVersion(p), pv)
            same('name without directory', (stash.GuessRecipeName(os.path.basename(p)), stash.GuessRecipeVersion(os.path.basename(p))), (pn, pv))
            val = {'PN': pn, 'BPN': bpn, 'PV': pv or '1.0', 'FILE': p, 'THISDIR': os.path.dirname(p)}
            same('expanded %r in %s' % (term, info), stash.ExpandTerm(p, term), re.sub(r'\$\{(\w+)\}', lambda m: val.get(m.group(1), m.group(0)), term))
            got = stash.ExpandVar(filename=p)
            same('PN, BPN, PV in ' + info, (got['PN'], got['BPN'], got['PV']), (pn.split(), bpn.split(), val['PV'].split()))
            if not (p.endswith('.bb') and any(a.endswith('.bbappend') for a in want)):
                same('REF in ' + info, got['REF'], '|'.join((pn, bpn, val['PV'])).split())
                same('WHERE in ' + info, got['WHERE'], [x for x in (p + '#' + os.path.dirname(p)).split(' ') if x])
                same('GETV in ' + info, got['GETV'], '-'.join((pn, val['PV'], bpn)).split())
                if p.endswith('.bb') and any(x.CLASSIFIER == 'Include' for x in stash.GetItemsFor(filename=p, nolink=True)):
                    ensure([x for x in stash.GetItemsFor(filename=p) if x.GetAttributes().get('VarName') == 'OWN'] or not case['fin'], 'include by recipe name not followed', info)
                    ctx.label('include by name')


CAMPAIGNS = [Campaign('names', case, check, 5000, 80000)]
