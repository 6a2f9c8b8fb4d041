"""P34 The command line: files, spellings and order of options, refusals."""
import itertools as it, os
import sources as S
import p31
from core import describe, timed_out
from fmt import TOOLS as FMT

TXT = '^ab<n>/ab<n>$ [<b>\\]]^Ab<n><sg>/Ab<n><sg>+c<v># d$\0^x/*x$ ^b<v>/b<v>$\n'


class Tool:
    """opts: (short, long, argument|None); cli: options read by lttoolbox's CLI class"""
    def __init__(self, name, opts, data, setup=None, base=(), nfiles=2, cli=False, modes=((),), result=None, depth=3, id=None):
        self.name, self.opts, self.data, self.setup, self.base, self.nfiles, self.cli, self.modes, self.result, self.depth = name, list(opts), data.encode() if isinstance(data, str) else data, setup, list(base), nfiles, cli, modes, result, depth
        self.id = id or name


def rules(stage):
    def f(w, d):
        x = d + '/r.x'
        open(x, 'w').write(S.RULES[stage])
        r = w.run1('apertium-preprocess-transfer', [x, d + '/r.b'])
        assert r.status == 0
        return [x, d + '/r.b']
    return f


def caps(w, d):
    open(d + '/c.x', 'w').write(S.CRX)
    assert w.run1('apertium-compile-caps', [d + '/c.x', d + '/c.b']).status == 0
    return [d + '/c.b']


DIC = '^b/b<x>/b<y>$ ^d/d<x>/d<z>$ ^e/e<y>/e<z>$ ^q/q<x>$ ^r/r<y>$ ^s/s<z>$ ^./.<sent>$\n'
UNT = '^b/b<x>/b<y>$ ^d/d<x>/d<z>$ ^e/e<y>/e<z>$ ^./.<sent>$ ^r/r<y>$ ^d/d<x>/d<z>$ ^./.<sent>$\n'
TAG = '^b/b<y>$ ^d/d<x>$ ^e/e<z>$ ^./.<sent>$ ^r/r<y>$ ^d/d<z>$ ^./.<sent>$\n'
TSX = ('<tagger name="x"><tagset><def-label name="X"><tags-item tags="x"/></def-label><def-label name="Y"><tags-item tags="y"/></def-label><def-label name="Z"><tags-item tags="z"/></def-label></tagset>'
       '<forbid><label-sequence><label-item label="X"/><label-item label="Z"/></label-sequence></forbid></tagger>')
MTX = '<metatag><feats><feat><out><ex-surf><tokaddr/></ex-surf></out><out-many><ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags></out-many></feat></feats></metatag>'
INP = '^d/d<x>/d<z>$ ^b/b<x>/b<y>$[<b>]^q/q<x>$ ^u/*u$\0^r/r<y>$ ^e/e<y>/e<z>$ ^./.<sent>$\n'


def sources(d):
    for n, t in (('dic', DIC), ('unt', UNT), ('tag', TAG), ('t.tsx', TSX), ('m.mtx', MTX)):
        open(d + '/' + n, 'w').write(t)
    return [d + '/' + n for n in ('dic', 'unt', 'tag', 't.tsx', 'm.mtx')]


def prob(kind):
    def f(w, d):
        dic, unt, tag, tsx, mtx = sources(d)
        p = d + '/p.' + kind
        a = dict(h=['-s', '0', dic, tsx, p, tag, unt], w=['-w', '-t', '1', dic, unt, tsx, p], u=['-u', '1', '-s', '0', p, tag], x=['-x', '-s', '2', p, tag, unt, mtx])[kind]
        if kind == 'x':
            open(unt, 'w').write(UNT)
        r = w.run1('apertium-tagger', a)
        assert r.status == 0, r.err
        return [p]
    return f


def tsx(w, d):
    sources(d)
    return [d + '/t.tsx']


T_OPTS = [('b', 'from-bilingual', None), ('n', 'no-bilingual', None), ('c', 'case-sensitive', None), ('w', 'dictionary-case', None), ('z', 'null-flush', None), ('t', 'trace', None), ('T', 'trace_att', None)]
I_OPTS = [('t', 'trace', None), ('w', 'dictionary-case', None), ('z', 'null-flush', None)]
G_OPTS = [('f', 'first', None), ('m', 'mark', None), ('p', 'show-superficial', None), ('z', 'null-flush', None), ('d', 'debug', None)]
TD = '\0'.join(S.DOCS['t'][:6]) + '\n'


def doc(f):
    import fmt
    return b'a <b>x</b> [y] 1 &amp; \\{z} w.\n\nq\n' if f not in ('latex', 'rtf') else b'a \\b{x} [y]\n\nz'


def docs(w, d):
    open(d + '/a', 'w').write('One two three four. A b. Five six seven eight nine. ')
    open(d + '/b', 'w').write('Eins zwei drei vier. C. Sechs sieben acht neun zehn elf zwoelf dreizehn. ')
    return ['en', 'es', d + '/a', d + '/b']


def every(w, d):
    prob('h')(w, d)
    return []


def docx(w, d):
    open(d + '/x.xml', 'w').write('<w:document xmlns:w="u"><w:body><w:p><w:r><w:t>one tw</w:t></w:r><w:r><w:t>o three</w:t></w:r></w:p></w:body></w:document>')
    open(d + '/in', 'w').write(d + '/x.xml')
    return []


def srcs(names):
    return lambda w, d: [dict(zip(('dic', 'unt', 'tag', 'tsx', 'mtx'), sources(d))).get(n, d + '/' + n) for n in names]


def one_sentence(w, d):         # the perceptron is trained on the sentences in a random order
    r = srcs(['q', 'tag', 'unt', 'mtx'])(w, d)
    for f, t in (('tag', TAG), ('unt', UNT)):
        open(d + '/' + f, 'w').write(t[:t.index('<sent>') + 8])
    return r


TOOLLIST = [
    Tool('apertium-tmxbuild', [('p', 'percent', '0.5'), ('e', 'edit-distance-percent', '1'), ('l', 'low-limit', '1'), ('m', 'max-edit', '3'), ('d', 'diagonal', '1'), ('w', 'window', '2'), ('s', 'step', '1')], b'', docs, nfiles=-1, depth=2),
    Tool('apertium-tagger-readwords', [('x', 'tsxfile', '@t.tsx'), ('l', 'clength', '3'), ('p', 'probfile', '@p.h')], INP, every, nfiles=0, modes=(('x',), ('p',)), id='readwords'),
    Tool('apertium-tagger-apply-new-rules', [('i', 'filein', '@p.h'), ('o', 'fileout', '@new'), ('x', 'tsxfile', '@t.tsx')], b'', every, nfiles=0, modes=(('i', 'o', 'x'),), result='@new', id='apply-new-rules'),
    Tool('apertium-adapt-docx', [('n', 'name', None), ('p', 'pretty', None), ('f', 'file', '@x.xml')], b'', docx, nfiles=0, modes=(('f',),), id='adapt-docx'),
    Tool('apertium-tagger', [], b'', srcs(['dic', 'tsx', 'q', 'tag', 'unt']), nfiles=0, modes=(('s',),), result='@q', id='tagger -s 0'),
    Tool('apertium-tagger', [], b'', srcs(['dic', 'unt', 'tsx', 'q', 'tag', 'unt']), nfiles=0, modes=(('s',),), result='@q', id='tagger -s 1'),
    Tool('apertium-tagger', [], b'', srcs(['dic', 'unt', 'tsx', 'q']), nfiles=0, modes=(('t',), ('w', 't')), result='@q', id='tagger -t 1'),
    Tool('apertium-tagger', [], b'', srcs(['q', 'tag']), nfiles=0, modes=(('u', 's'),), result='@q', id='tagger -u 1 -s 0'),
    Tool('apertium-tagger', [], b'', one_sentence, nfiles=0, modes=(('x', 's'),), result='@q', id='tagger -x -s 1'),
    Tool('apertium-transfer', T_OPTS, TD, rules('t'), modes=(('b',), ('n',)), id='transfer'),
    Tool('apertium-interchunk', I_OPTS, '\0'.join(S.DOCS['i'][:6]) + '\n', rules('i'), cli=True),
    Tool('apertium-postchunk', I_OPTS, '\0'.join(S.DOCS['p'][:6]) + '\n', rules('p'), cli=True),
    Tool('apertium-pretransfer', [('e', 'compounds', None), ('n', 'no-surface-forms', None), ('z', 'null-flush', None)], '^w/a<n>+b<v>~c<x># q$ ^a/b~c$\0^x/y# z<n>$', cli=True),
    Tool('apertium-posttransfer', [('z', 'null-flush', None)], 'a  b \0 c   d'),
    Tool('apertium-extract-caps', [('s', 'surface', None), ('z', 'null-flush', None)], '^Ab/ab<n>$ ^AB/b<n>$\0^x/y$', cli=True),
    Tool('apertium-restore-caps', [('k', 'keep', None), ('z', 'null-flush', None)], '[[t:b; c:Aa/aa]]^x/x<n>$ [[c:AA/AA]]^y/y<np>$\0^x$', caps, cli=True),
] + [
    Tool('apertium-tagger', G_OPTS, INP, prob(k), base=b, modes=m, id='tagger ' + k) for k, b, m in (
        ('h', [], (('g',),)), ('w', [], (('g', 'w'),)), ('u', [], (('g', 'u'),)), ('x', [], (('g', 'x'),)))
] + [
    Tool('apertium-filter-ambiguity', [], '^x/x<x>/x<y>$ ^y/y<y>$', tsx),
]
for t in TOOLLIST:
    if t.name == 'apertium-tagger':
        t.opts = t.opts + [('g', 'tagger', None), ('w', 'sliding-window', None), ('x', 'perceptron', None), ('u', 'unigram', '1')] + [x for x in (('s', 'supervised', t.id[-1]), ('t', 'train', t.id[-1])) if t.result]
        if t.result:
            t.opts = t.opts + [('e', 'skip-on-error', None)]
FREE = {'apertium-tagger': 'fmpzd', 'apertium-transfer': 'cwztT', 'readwords': 'l', 'apply-new-rules': '', 'adapt-docx': 'np'}
UNSEEN = {'d', 't', 'T'}     # options that only add messages on stderr


def forms(opts, o, cli):
    """every way to write one option: lists of words"""
    s, l, a = next(x for x in opts if x[0] == o)
    out = []
    names = [l]
    if not cli:
        k = 1
        while k < len(l) and sum(x[1].startswith(l[:k]) for x in opts + EXTRA) > 1:
            k += 1
        names += [x for x in sorted({l[:k], l[:-1]}) if k <= len(x) < len(l)]
    if a is None:
        out = [['-' + s]] + [['--' + n] for n in names]
    else:
        out = [['-' + s, a], ['-' + s + a]] + [['--' + n, a] for n in names] + [['--%s=%s' % (n, a)] for n in names]
    return out


EXTRA = [('', x, None) for x in ('help', 'extended', 'train', 'retrain', 'supervised', 'skip-on-error', 'sent-seg')]


def resolve(a, d):
    return [x.replace('@', d + '/') for x in a]


def spellings(t, want, base, full):
    """command lines that mean the options `want` and then the files `base`"""
    val = {x[0]: x[2] for x in t.opts}
    plain = lambda o: ['-' + o] + ([val[o]] if val[o] is not None else [])
    for p in it.permutations(want):
        yield sum((plain(o) for o in p), []) + base
        fl = [o for o in p if val[o] is None]
        ar = [o for o in p if val[o] is not None]
        if len(p) > 1 and len(ar) < 2:
            yield ['-' + ''.join(fl + ar)] + [val[o] for o in ar] + base
            yield ['-' + ''.join(fl + ar) + ''.join(val[o] for o in ar)] + base
    for i, o in enumerate(want):
        for f in forms(t.opts, o, t.cli):
            yield sum((plain(x) for x in want[:i]), []) + f + sum((plain(x) for x in want[i + 1:]), []) + base
    fs = [forms(t.opts, o, t.cli) for o in want]
    for c in it.product(*(f if full else f[:3] if len(fs) < 3 else f[1:2] for f in fs)):
        yield sum(c, []) + base
        for k in range(1, len(base) + 1):
            if full or k in (1, len(base)):
                yield base[:k] + sum(c, []) + base[k:]
    if base and t.opts:
        yield sum((plain(o) for o in want), []) + ['--'] + base


def read(f):
    return open(f, 'rb').read() if os.path.isfile(f) else None


def subsets(xs, n):
    for k in range(0, n + 1):
        yield from it.combinations(xs, k)


def run(ctx):
    ctx.rule = ('every tool with its compiled files: every set of options in every order, clustering and short, long or abbreviated spelling, before, between and after the files, '
                'with the input on stdin or in a file and the output on stdout or in a file; all must do the same; every kind of faulty command line must be refused')
    ctx.need(*sorted({t.name for t in TOOLLIST} | {x for v in FMT.values() for x in v} | {'apertium-gen-modes', 'apertium-prelatex', 'apertium-postlatex'} | {'apertium-preprocess-transfer', 'apertium-compile-caps', 'apertium-tagger'}))
    full = not ctx.quick

    def ready(w, t):
        if not hasattr(w, 'ready'):
            w.ready = {}
        if t.id not in w.ready:
            d = '%s/%s' % (w.tmp, t.id.replace(' ', '-'))
            os.makedirs(d, exist_ok=True)
            lead = t.setup(w, d) if t.setup else []
            for f, c in (('in', t.data), ('out', b'')):
                open(d + '/' + f, 'wb').write(c)
            w.ready[t.id] = (d, lead)
        return w.ready[t.id]

    def one(w, t, want, argv, kind, ref):
        d, lead = w.ready[t.id]
        argv = resolve(argv, d)
        out = resolve([t.result], d)[0] if t.result else d + '/out'
        open(out, 'wb').write(b'earlier contents that are longer than what is written now ' * 200)
        r = w.run1(t.name, argv, t.data if kind == 0 else b'')
        w.states += 1
        w.trans += len(argv)
        named = t.result or kind == 2 or kind == 1 and t.nfiles == -1
        got = (r.status, read(out) if named else r.out)
        if ref is None:
            w.seen(t.id, ' '.join(want), got[1])
            if r.status != 0:
                w.fail(t.name, argv, t.data, r, describe(r.status))
            return got
        if got != ref:
            w.fail(t.name, argv, t.data, r, '%s; differs from the plain command line: %r, expected %r' % (describe(r.status), got[1][:200], ref[1][:200]))
        elif named and r.out:
            w.fail(t.name, argv, t.data, r, 'writes to its standard output although an output file is named')
        return ref

    def gen():
        for t in TOOLLIST:
            free = [o for o in FREE.get(t.id, FREE.get(t.name, [x[0] for x in t.opts])) if not t.result]
            for m in t.modes:
                for s in subsets(free, min(t.depth + full, len(free))):
                    yield t, m, s

    def fn(w, blk):
        for t, m, s in blk:
            d, lead = ready(w, t)
            val = {x[0]: x[2] for x in t.opts}
            want = list(m) + list(s)
            plain = sum((['-' + o] + ([val[o]] if val[o] is not None else []) for o in want), [])
            ref = one(w, t, want, plain + lead, 0, None)
            if ref[0] != 0:
                return
            seen = {tuple(plain + lead)}
            for kind in range(0, abs(t.nfiles) + 1):
                base = lead + ([d + '/in', d + '/out'][:kind] if t.nfiles > 0 else [d + '/out'][:kind])
                for a in spellings(t, want, base, full and len(want) < 4):
                    if tuple(a) in seen:
                        continue
                    seen.add(tuple(a))
                    one(w, t, want, a, kind, ref)
                    if w.enough:
                        return
            q = [o for o in s if o not in UNSEEN]
            if len(q) < len(s):
                one(w, t, want, sum((['-' + o] + ([val[o]] if val[o] is not None else []) for o in list(m) + q), []) + lead, 0, ref)
    ctx.parallel("spellings and files", gen, fn, 1)

    # ---------------------------------------------------------------- command lines that must be refused
    def bad(t, d, lead):
        """(argv, what)"""
        m = ['-' + o + (dict((x[0], x[2]) for x in t.opts)[o] or '') for o in t.modes[0]]
        ins, outs = d + '/in', d + '/out'
        if t.opts:
            for x in ('-Q', '-Qz', '-zQ') + (() if t.cli else ('--zz', '--null-flushes', '--=')):
                if x != '-zQ' or any(o[0] == 'z' for o in t.opts):
                    yield m + [x] + lead, 'unknown option ' + x
                    yield m + lead + [ins, x], 'unknown option %s behind the files' % x
        for x in t.opts:
            if x[2] is None:
                yield m + ['--%s=1' % x[1]] + lead, 'argument for an option without one'
        yield m + lead + [ins, outs, ins], 'too many files'
        yield m + lead + [d + '/none'], 'no such input'
        yield m + lead + [d + '/none', outs], 'no such input, output named'
        yield m + lead + [ins, d + '/none/out'], 'output in no such directory'
        yield m + lead + [ins, d], 'output is a directory'
        for k in range(len(lead)):
            yield m + lead[:k], 'files missing'
            yield m + lead[:k] + [d + '/none'] + lead[k + 1:], 'no such file'
            yield m + lead[:k] + [d + '/none'] + lead[k + 1:] + [ins, outs], 'no such file'

    def bad_tagger(d, ps):
        dic, unt, tag, tsxf, mtx = [d + '/' + n for n in ('dic', 'unt', 'tag', 't.tsx', 'm.mtx')]
        p, q = ps['h'], d + '/none'
        good = {('s',): ['-s', '0', dic, tsxf, p, tag, unt], ('s1',): ['-s', '1', dic, unt, tsxf, p, tag, unt], ('t',): ['-t', '1', dic, unt, tsxf, p], ('r',): ['-r', '1', unt, p], ('w', 't'): ['-w', '-t', '1', dic, unt, tsxf, ps['w']],
                ('w', 'r'): ['-w', '-r', '1', unt, ps['w']], ('u', 's'): ['-u', '1', '-s', '0', ps['u'], tag], ('x', 's'): ['-x', '-s', '1', ps['x'], tag, unt, mtx]}
        for k, a in good.items():
            n = next(i for i, x in enumerate(a) if x.startswith('/'))
            op, fs = a[:n], a[n:]
            for i in range(len(fs) + 1):
                if i < len(fs):
                    if not (fs[i] in ps.values() and k[-1] != 'r'):     # the model is written, not read
                        yield op + fs[:i] + [q] + fs[i + 1:], 'no such file'
                    if len(fs) - i > 1 or k != ('s1',):
                        yield op + fs[:i], 'files missing'
                    yield op + fs[:i] + [d + '/none/x'] + fs[i + 1:], 'no such directory'
            yield op + fs + [tag], 'too many files' if k != ('s',) else ''
            for v in ('', 'x', '1x', ' ', '0x1', '99999999999999999999999'):
                if n > 1 and op[-1].isdigit():
                    yield op[:-1] + [v] + fs, 'iterations ' + repr(v)
            for o in 'gstr':
                yield [('-' + o)] + ([] if o == 'g' else ['1']) + a, 'two things to do'
            for o in ('-w', '-x', '-u1'):
                if k[0] in 'wux':
                    yield [o] + a, 'two models'
            for o in ('-f', '-m', '-p', '-z', '-d', '-e'):
                yield [o, o] + a, 'an option twice'
            for o in (['-u', '4'], ['-u', ''], ['-u', 'x'], ['-u', '0']):
                if k[0] == 's':
                    yield o + a, 'no such unigram model'
        for m in ('w', 'x', 'u'):
            pm = {'w': ['-w'], 'x': ['-x'], 'u': ['-u', '1']}[m]
            yield pm + ['-r', '1', unt, ps[m]], 'retrain' if m != 'w' else ''
            yield pm + ['-t', '1', dic, unt, tsxf, ps[m]], 'train' if m != 'w' else ''
            yield pm + ['-s', '0', dic, tsxf, ps[m], tag, unt], 'supervised' if m == 'w' else 'wrong number of files'
        yield ['-u', '1', '-s', '1', ps['u'], tag], 'iterations for unigram'

    def gen_bad():
        for t in TOOLLIST:
            if t.nfiles > 0 and not t.result:
                yield t
        yield None
        yield ''
        yield from FMT.values()
        yield ('apertium-prelatex', 'apertium-postlatex')

    def bad_other(d):
        open(d + '/r.x', 'w').write(S.RULES['t'])
        open(d + '/c.x', 'w').write(S.CRX)
        open(d + '/bad.x', 'w').write('<a')
        docs(None, d)
        D = lambda *a: [d + '/' + x[1:] if x[:1] == '@' else x for x in a]
        for t, x in (('apertium-preprocess-transfer', '@r.x'), ('apertium-compile-caps', '@c.x')):
            for a in ([], [x], [x, '@o', '@z'], ['@none', '@o'], [x, '@none/o'], ['@bad.x', '@o'], ['-Q', x, '@o'], [x, '-Q', '@o'], [x, '@'], ['@', '@o']):
                yield t, D(*a)
        for a in ([], ['@none'], ['@bad.x'], ['-Q', '@none'], ['@']):
            yield 'apertium-gen-modes', D(*a)
        for a in ([], ['-x', '@none'], ['-p', '@none'], ['-x', '@t.tsx', '-p', '@p.h'], ['-x'], ['-l', 'x', '-x', '@t.tsx'], ['-l', '', '-x', '@t.tsx'], ['-Q'], ['-x', '@bad.x'], ['-x', '@t.tsx', '-Q']):
            yield 'apertium-tagger-readwords', D(*a)
        for a in ([], ['-i', '@p.h'], ['-i', '@p.h', '-o', '@o'], ['-i', '@none', '-o', '@o', '-x', '@t.tsx'], ['-i', '@p.h', '-o', '@none/o', '-x', '@t.tsx'], ['-i', '@p.h', '-o', '@o', '-x', '@none'], ['-i', '@p.h', '-o', '@o', '-x', '@bad.x'],
                  ['-Q'], ['-x', '@t.tsx', '-o', '@o'], ['-i', '@p.h', '-x', '@t.tsx']):
            yield 'apertium-tagger-apply-new-rules', D(*a)
        for a in ([], ['@none'], ['@t.tsx', '@none'], ['@t.tsx', '@dic', '@none/o'], ['@bad.x'], ['-Q'], ['-Q', '@t.tsx'], ['@t.tsx', '@dic', '@o', '@z']):
            yield 'apertium-filter-ambiguity', D(*a)
        f = ['en', 'es', '@a', '@b']
        for a in [f[:k] for k in range(4)] + [f[:2] + ['@none', '@b'], f[:3] + ['@none'], f + ['@none/o'], f + ['@o', '@z'], ['-Q'] + f, f + ['-Q'], f + ['@']] + [['-' + o, v] + f for o in 'peldwsm' for v in ('-3',)]:
            yield 'apertium-tmxbuild', D(*a)

    def fn_formats(w, tools):
        for tool in tools:
            d = w.tmp + '/fmt'
            os.makedirs(d, exist_ok=True)
            data = doc(tool[12:]) if '-des' in tool or '-pre' in tool else b'a [<b>]x[</b>] \\[y\\]..[]\n[\n]q'
            for a, what in ((['@none'], 'no such input'), (['@none', '@out'], 'no such input'), (['@in', '@none/out'], 'output in no such directory'), (['@in', '@out', '@in', '@in'], 'too many files')):
                open(d + '/in', 'wb').write(data)
                r = w.run1(tool, resolve(a, d), data)
                w.states += 1
                w.trans += len(a)
                if os.WIFSIGNALED(r.status) or r.out or not r.err:
                    w.fail(tool, a, data, r, '%s: %s' % (what, describe(r.status)))
            opts = 'ino' if '-des' in tool else ''
            for k in range(len(opts) + 1):
                for s in it.combinations(opts, k):
                    ref = None
                    for p in it.permutations(s):
                        for q in [p] + ([p + p[:1]] if p else []):
                            for n in range(3):
                                open(d + '/out', 'wb').write(b'longer than what is written ' * 400)
                                r = w.run1(tool, ['-' + o for o in q] + [d + '/in', d + '/out'][:n], b'' if n else data)
                                w.states += 1
                                w.trans += len(q) + n
                                got = (r.status, read(d + '/out') if n == 2 else r.out)
                                if ref is None:
                                    ref = got
                                    w.seen(tool, got)
                                    if r.status != 0 or not r.out:
                                        w.fail(tool, q, data, r, describe(r.status))
                                if got != ref or n == 2 and r.out:
                                    w.fail(tool, list(q) + ['in', 'out'][:n], data, r, '%s; differs from the plain command line: %r, expected %r' % (describe(r.status), got[1][:200], ref[1][:200]))

    def fn_bad(w, blk):
        for t in blk:
            if isinstance(t, tuple):
                fn_formats(w, t)
                continue
            if t == '':
                d = w.tmp + '/other'
                os.makedirs(d)
                every(w, d)
                for tool, a in list(bad_other(d)):
                    keep = read(d + '/p.h')
                    r = w.run1(tool, a, b'^x/x<x>$')
                    w.states += 1
                    w.trans += len(a)
                    if os.WIFSIGNALED(r.status) or r.status == 0:
                        w.fail(tool, a, b'', r, 'accepted: ' + describe(r.status))
                    elif r.out:
                        w.fail(tool, a, b'', r, 'output although the command line is refused')
                    if read(d + '/p.h') != keep:
                        w.fail(tool, a, b'', r, 'the model was changed')
                    if os.path.isdir('modes'):
                        os.rmdir('modes')
                continue
            if t is None:
                d = w.tmp + '/bad'
                os.makedirs(d)
                ps = {k: prob(k)(w, d)[0] for k in 'hwux'}
                keep = {p: read(p) for p in list(ps.values())}
                name, cases = 'apertium-tagger', [c for c in bad_tagger(d, ps) if c[1]]
            else:
                d, lead = ready(w, t)
                name, cases, keep = t.name, list(bad(t, d, lead)), {}
            before = set(p31.files(d))
            for a, what in cases:
                r = w.run1(name, a, t.data if t else b'')
                w.states += 1
                w.trans += len(a)
                w.seen(name, what)
                if os.WIFSIGNALED(r.status) or r.status == 0:
                    w.fail(name, a, b'', r, '%s: %s' % (what, describe(r.status)))
                elif r.out:
                    w.fail(name, a, b'', r, '%s: output although the command line is refused' % what)
                for p, c in keep.items():
                    if read(p) != c:
                        w.fail(name, a, b'', r, '%s: the model was overwritten' % what)
                        open(p, 'wb').write(c)
                new = set(p31.files(d)) - before
                if new:
                    w.fail(name, a, b'', r, '%s: files appeared: %r' % (what, sorted(new)))
                    for f in new:
                        os.unlink(os.path.join(d, f))
                if w.enough:
                    return
    ctx.parallel('refusals', gen_bad, fn_bad, 1)
