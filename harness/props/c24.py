"""C24: safe regex calls agree with the regex engine and give up with the default."""
import time

import regex

from core import Campaign, ensure, same, st
from oelint_parser.rpl_regex import RegexRpl

ID = 'C24'
TECHNIQUE = 'differential property testing: generated patterns, texts, flags, limits and further options against the plain regex engine; patterns of exponential cost with short limits against the given default'
RULE = ('Agreement: grammar based patterns (also invalid ones) on texts over the same small alphabet; non-trivial if the engine matches at a place other than the start of the text or more than once, or flags change the result. '
        'Limits: exponential patterns, possibly behind matches found quickly; non-trivial if the call hit its limit.')
ASSUMPTIONS = ['a limit of at most 50 ms is hit by patterns measured to take more than two seconds', 'splitting is given lists as default']

atom = st.sampled_from(['a', 'b', 'c', '.', '\\s', '\\w', '\\d', '[ab]', '[^a]', '^', '$', '\\b', '\n', ' ', 'A', '\\Z', '\\A', 'ab', '\\.', '(?P<n>a)', '(b)', '(?=a)', '(?<!b)', '(?i:a)', '\\x1b', '=', 'ä', '(', ')', '[', '*', '(?<=a)', '\\1', '(?P=n)', '{', '(?r)'])
good = atom.filter(lambda a: a not in ('(', ')', '[', '*', '\\1', '(?P=n)'))


def grow(inner):
    return st.one_of(st.lists(inner, min_size=1, max_size=3).map(''.join), st.tuples(inner, inner).map('|'.join), inner.map(lambda x: '(%s)' % x), inner.map(lambda x: '(?:%s)' % x),
                     st.tuples(inner, st.sampled_from(['*', '+', '?', '*?', '+?', '{2}', '{1,2}', '*+'])).map(lambda t: '(?:%s)%s' % t))


pattern = st.one_of(st.recursive(good, grow, max_leaves=6), st.recursive(good, grow, max_leaves=6), st.recursive(atom, grow, max_leaves=5))
text = st.text(alphabet='aabbcAB \n.=1ä\x1b', max_size=14)
FLAGS = ['IGNORECASE', 'MULTILINE', 'DOTALL', 'VERBOSE', 'ASCII', 'REVERSE', 'FULLCASE', 'VERSION1', 'BESTMATCH', 'WORD']
flags = st.lists(st.sampled_from(FLAGS), max_size=3, unique=True)
repl = st.sampled_from(['', 'x', '<\\g<0>>', '\\1', '\\\\', 'a\n', '\\g<n>', 'fn'])
extra = st.fixed_dictionaries({'pos': st.one_of(st.none(), st.integers(0, 6)), 'endpos': st.one_of(st.none(), st.integers(0, 14)), 'overlapped': st.booleans(), 'partial': st.booleans(), 'concurrent': st.sampled_from([None, None, True])})
call = st.fixed_dictionaries({'fn': st.sampled_from(['search', 'match', 'split', 'sub', 'finditer']), 'pattern': pattern, 'text': text, 'flags': flags, 'repl': repl, 'n': st.integers(0, 3), 'extra': extra,
                              'compiled': st.booleans(), 'timeout': st.sampled_from([None, None, 5, 1, 30]), 'default': st.sampled_from([None, None, 'x', []]), 'positional': st.booleans()})


def shown(m):
    return None if m is None else (m.span(), m.group(0), m.groups(), m.groupdict(), m.regs, m.partial, m.lastindex)


def outcome(func):
    try:
        return ('result', func())
    except Exception as e:
        return ('raised', type(e).__name__, str(e))


def prepare(c):
    flag = 0
    for f in c['flags']:
        flag |= getattr(regex, f)
    pat = c['pattern']
    if c['compiled']:
        try:
            pat = regex.compile(pat, flag)
            flag = 0
        except regex.error:
            pass
    return pat, flag


def call_it(obj, c, pat, flag, safe):
    fn = c['fn']
    kw = {}
    x = c['extra']
    if fn in ('search', 'match', 'finditer', 'sub'):
        kw.update({k: x[k] for k in ('pos', 'endpos') if x[k] is not None})
    if fn in ('search', 'match') and x['partial']:  # iterating partial matches, the engine may never end
        kw['partial'] = True
    if fn == 'finditer' and x['overlapped']:
        kw['overlapped'] = True
    if x['concurrent']:
        kw['concurrent'] = True
    if safe:
        if c['timeout'] is not None:
            kw['timeout'] = c['timeout']
        if c['default'] is not None:
            kw['default'] = c['default']
    func = getattr(obj, fn)
    rep = c['repl'] if c['repl'] != 'fn' else (lambda m: '[%s]' % m.group(0))
    if fn == 'split':
        return func(pat, c['text'], c['n'], flag, **kw) if c['positional'] else func(pat, c['text'], maxsplit=c['n'], flags=flag, **kw)
    if fn == 'sub':
        return func(pat, rep, c['text'], c['n'], flag, **kw) if c['positional'] else func(pat, rep, c['text'], count=c['n'], flags=flag, **kw)
    if fn == 'finditer':
        return [shown(m) for m in (func(pat, c['text'], flag, **kw) if c['positional'] else func(pat, c['text'], flags=flag, **kw))]
    return shown(func(pat, c['text'], flag, **kw) if c['positional'] else func(pat, c['text'], flags=flag, **kw))


def check(case, ctx):
    for c in case:
        pat, flag = prepare(c)
        want = outcome(lambda: call_it(regex, c, pat, flag, False))
        got = outcome(lambda: call_it(RegexRpl, c, pat, flag, True))
        same('%s(%r, %r, flags=%r)' % (c['fn'], c['pattern'], c['text'], c['flags']), got, want)
        ctx.label(want[0])
        if want[0] == 'result':
            found = [m for m in regex.finditer(c['pattern'], c['text'])] if not c['flags'] else []
            ctx.nt(len(found) > 1 or any(m.start() for m in found) or bool(flag and outcome(lambda: call_it(regex, c, c['pattern'], 0, False)) != want))


# measured: more than two seconds each
SLOW = [('(a|a)+$', 'a' * 40 + 'b'), ('(a|aa)+$', 'a' * 60 + 'b'), ('(?:\\w|\\w\\w)+$', 'q' * 60 + '!'), ('([a-z]|[a-z]{2})*[0-9]$', 'q' * 60 + '!'), ('((x|xx)+)*[yz]', 'x' * 60), ('(?:a|b|ab)*[cd]', 'ab' * 40)]
limit = st.fixed_dictionaries({'fn': st.sampled_from(['search', 'match', 'split', 'sub', 'finditer', 'finditer']), 'slow': st.integers(0, len(SLOW) - 1), 'fast': st.sampled_from(['', '', 'q', 'qq']), 'timeout': st.sampled_from([0.01, 0.02, 0.05]),
                               'default': st.sampled_from(['none', 'text', 'list', 'empty', 'object']), 'compiled': st.booleans(), 'flags': st.sampled_from([0, 0, regex.IGNORECASE | 0, regex.DOTALL | 0])})


def check_limit(case, ctx):
    pat, text = SLOW[case['slow']]
    fn = case['fn']
    if case['fast']:
        # found at once, the costly part comes later
        pat, text = '(?:%s(?=;))|(?:%s)' % (case['fast'], pat), (case['fast'] + ';') * 3 + text
    flag = int(case['flags'])
    try:
        for _ in regex.finditer(pat, text, flags=flag, timeout=0.3):
            pass
        slow = False
    except TimeoutError:
        slow = True
    if fn in ('search', 'match') and case['fast']:
        slow = False
    default = {'none': None, 'text': 'dflt', 'list': ['d'], 'empty': [], 'object': {'k': 1}}[case['default']]
    if fn == 'split' and not (default is None or isinstance(default, list)):
        default = ['x']
    kw = {} if case['default'] == 'none' else {'default': default}
    if case['default'] == 'none':
        default = '' if fn == 'sub' else [] if fn == 'split' else None
    args = [regex.compile(pat, flag) if case['compiled'] else pat]
    if fn == 'sub':
        args.append('')
    args.append(text)
    func = getattr(RegexRpl, fn)
    began = time.process_time()
    got = func(*args, flags=0 if case['compiled'] else flag, timeout=case['timeout'], **kw)
    if not slow:
        ensure(fn != 'search' or not case['fast'] or got.span() == (0, len(case['fast'])), 'quick match not found', got)
        return
    ctx.nt()
    ctx.label(fn)
    if fn == 'finditer' and hasattr(got, '__next__'):
        # nothing may escape while consuming either
        got = list(got)
        ensure(got == default, 'matches instead of the default', got)
    else:
        same('result of %s after hitting the limit' % fn, got, default)
    ensure(time.process_time() - began < 10, 'limit exceeded by far')


std = st.fixed_dictionaries({'fn': st.sampled_from(['search', 'match', 'split', 'sub', 'finditer']), 'slow': st.integers(0, 1)})


def check_std(case, ctx):
    """without a limit given, the standard one ends the call"""
    pat, text = SLOW[case['slow']]
    began = time.process_time()
    got = getattr(RegexRpl, case['fn'])(*([pat, '', text] if case['fn'] == 'sub' else [pat, text]))
    same('result of %s after hitting the standard limit' % case['fn'], got, {'sub': '', 'split': []}.get(case['fn']))
    ensure(time.process_time() - began < 20, 'standard limit exceeded by far')
    ctx.nt()


CAMPAIGNS = [Campaign('agreement', st.lists(call, min_size=1, max_size=3), check, 8000, 150000), Campaign('limits', limit, check_limit, 300, 3000), Campaign('standard', std, check_std, 24, 48)]
