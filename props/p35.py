"""P35 size changes nothing: for every length, count and depth up to the bound what a tool does with n
things is what its definition says, given in closed form or by the reference interpreter."""
import decimal, itertools as it, math, os
import fmt
import sys
import p12, p15, p16, p17, p21, p23, p26, p27
import modes as lmodes
import trun
import tag
from core import describe, show, judge_eq
from fmt import TOOLS as FMT

C = lambda pos, side, part='lem': ('clip', pos, side, part)


def near(top, step=3):
    """sizes around the powers of two up to top, and around some buffer sizes of libraries"""
    s = set()
    k = 128
    while k <= top:
        s |= set(range(k - step, k + step + 1)) | {k + k // 2}
        k *= 2
    for k in (1000, 1024 * 5, 10000, 100000):
        if k <= top:
            s |= {k - 1, k, k + 1}
    return s


# ---------------------------------------------------------------- filters: tool, options, n -> (input, output)
def filters():
    P, N = 'apertium-pretransfer', '\0'
    yield 'lemma', P, [], lambda n: ('^a' + 'b' * n + '<n>+c<v>$', '^a' + 'b' * n + '<n>$ ^c<v>$')
    yield 'escapes in a lemma', P, [], lambda n: ('^a' + '\\+' * n + '<n>+c<v>$', '^a' + '\\+' * n + '<n>$ ^c<v>$')
    yield 'parts', P, [], lambda n: ('^a<n>' + '+b<v>' * n + '# q$', ('^a# q<n>' + '$ ^b<v>' * n) + '$')
    yield 'parts with a blank', P, [], lambda n: ('[[t:b:1]]^a<n>' + '+b<v>' * n + '$', '[[t:b:1]]^a<n>' + '$ [[t:b:1]]^b<v>' * n + '$')
    yield 'compound parts', P, ['-e'], lambda n: ('^a<n>' + '~b<v>' * n + '$', '^a<n>' + '$^b<v>' * n + '$')
    yield 'tags', P, [], lambda n: ('^a<n>' + '<x>' * n + '# q$', '^a# q<n>' + '<x>' * n + '$')
    yield 'tag length', P, [], lambda n: ('^a<n' + 'x' * n + '># q$', '^a# q<n' + 'x' * n + '>$')
    yield 'queue', P, [], lambda n: ('^a<n># ' + 'q' * n + '$', '^a# ' + 'q' * n + '<n>$')
    yield 'word-bound blank', P, [], lambda n: ('[[t' + 'q' * n + ']]^a<n>+b<n>$', '[[t' + 'q' * n + ']]^a<n>$ [[t' + 'q' * n + ']]^b<n>$')
    yield 'superblank', P, [], lambda n: ('^a<n>+b<n>$[' + '\\]' * n + ']^a<n># q$', '^a<n>$ ^b<n>$[' + '\\]' * n + ']^a# q<n>$')
    yield 'surface', P, ['-n'], lambda n: ('^' + 's' * n + 't/a<n>+b<n>$', '^a<n>$ ^b<n>$')
    yield 'units', P, ['-z'], lambda n: ('^a<n>+b<n># q$ ' * n + N, '^a# q<n>$ ^b<n>$ ' * n + N)
    T = 'apertium-posttransfer'
    yield 'spaces', T, [], lambda n: ('a' + ' ' * n + 'b', 'a' + ' ' * min(n, 1) + 'b')
    yield 'words', T, ['-z'], lambda n: ('\u00e9  \\ ' * n + N, '\u00e9 \\ ' * n + N)
    K = 'apertium-cleanstream'
    yield 'unit', K, ['-n'], lambda n: ('x^a' + 'b' * n + '$y', '\n^a' + 'b' * n + '$\n')
    yield 'units', K, [], lambda n: ('^a$z' * n, ' '.join(['^a$'] * n))
    yield 'blank', K, ['-b'], lambda n: ('^a$[' + '\\^' * n + ']^b$', '^a$ [' + '\\^' * n + ']^b$')
    A, D = 'apertium-wblank-attach', 'apertium-wblank-detach'
    yield 'words in a span', A, [], lambda n: ('[[t:b:1]]' + '^a$ ' * n + '[[/]]^b$', '[[t:b:1]]^a$ ' * n + '^b$')
    yield 'nested spans', A, [], lambda n: (''.join('[[t:b:%d]]' % k for k in range(n)) + '^a$' + '[[/]]' * n + '^b$', ('[[' + '; '.join('t:b:%d' % k for k in range(n)) + ']]' if n else '') + '^a$^b$') if n < 1100 else None
    yield 'mark', A, [], lambda n: ('[[t:' + 'b' * n + ']]^a$ ^b$[[/]]', '[[t:%s]]^a$ [[t:%s]]^b$' % ('b' * n, 'b' * n))
    yield 'spans', A, [], lambda n: ('[[t:b:1]]^a$[[/]]^b$' * n, '[[t:b:1]]^a$^b$' * n)
    yield 'text', A, [], lambda n: ('x' * n + '[[t:b:1]]' + '\\[' * n + '^a$[[/]]', 'x' * n + '\\[' * n + '[[t:b:1]]^a$')
    yield 'words', D, [], lambda n: ('[[t:b:1]]^a$ ' * n, '[[t:b:1]]^a$[[/]] ' * n)
    yield 'mark', D, [], lambda n: ('[[t' + '\\]' * n + ']]^a$', '[[t' + '\\]' * n + ']]^a$[[/]]')
    yield 'word', D, [], lambda n: ('[[t]]^a' + '\\$' * n + '$b', '[[t]]^a' + '\\$' * n + '$[[/]]b')
    E = 'apertium-extract-caps'
    yield 'words', E, [], lambda n: ('^A/ab<n>/c<n>$ ' * n, '[[c:Aa/aa]]^ab<n>$ ' * n)
    yield 'surface', E, [], lambda n: ('^A' + 'b' * n + 'C/Ab<n>$', '[[c:AA/Aa]]^Ab<n>$')
    yield 'lemma', E, [], lambda n: ('^a/A' + 'b' * n + '<n>/x<n>$', '[[c:aa/Aa]]^A' + 'b' * n + '<n>$')
    yield 'readings', E, ['-s'], lambda n: ('^a/b<n>' + '/cC<n>' * n + '$ ^q/q$', '[[c:aa/aa]]^a/b<n>$ [[c:aa/aa]]^q/q$')
    yield 'other blanks', E, [], lambda n: ('[[t' + 'x' * n + ']]^a/b<n>$', '[[t' + 'x' * n + '; c:aa/aa]]^b<n>$')


# ---------------------------------------------------------------- rule programs of size n
def lus(s, *x):
    return ('out', (('chunk', (), None) if s == 'i' else ('lu',)) + x)


def base(s, **k):
    d = dict(cats=[('A', [('a', None if s == 'p' else 'n.*')])], attrs=[('num', ['sg', 'pl'])], vars=[('v', '')], rules=[])
    d.update(k)
    return d


def word(s, l, t='<n><sg>'):
    return {'t': '^%s%s/%s%s$' % (l, t, l.upper(), t), 'i': '^%s%s{^q<1>$}$' % (l, t), 'p': '^%s<x>{^%s%s$ ^r<1>$}$' % (l, l, t)}[s]


def programs():
    """name, stage, n -> (program, documents)"""
    for s in 'tip':
        sd = 'tl' if s == 't' else None
        W = word(s, 'a')
        lem = C(1, sd)
        one = [W, W + ' ' + W]
        V = lus(s, ('var', 'v'), ('lit-tag', 'x'))
        # the pattern and what is matched
        if s != 'p':
            yield 'pattern', s, lambda n, s=s, sd=sd: (base(s, rules=[(('A',) * n, [lus(s, C(1, sd), C(n, sd), C(max(n - 1, 1), sd, 'num'), ('lit-tag', 'end')), ('out', ('b', n - 1) if n > 1 else ('b',))])]) if n else None,
                                                       [''.join(word(s, 'a', '<n><%s>' % ('sg' if k % 2 else 'pl')) + '[%d]' % k for k in range(m)) for m in (n - 1, n, 2 * n + 1)])
            yield 'pattern that fails late', s, lambda n, s=s, sd=sd: (base(s, cats=[('A', [('a', 'n.*')]), ('B', [('b', 'n.*')])], rules=[(('A',), [lus(s, C(1, sd), ('lit-tag', 'one'))]), (('A',) * n + ('B',), [lus(s, C(n + 1, sd), ('lit-tag', 'all'))])]),
                                                                     [(word(s, 'a') + ' ') * m + word(s, l) for m in (n, n + 1) for l in 'abc'])
        yield 'rules', s, lambda n, s=s, sd=sd: (base(s, cats=[('A%d' % k, [('a%d' % k, None if s == 'p' else 'n.*')]) for k in range(n + 1)], rules=[(('A%d' % k,), [lus(s, ('lit', 'R%d' % k), ('lit-tag', 'x'))]) for k in range(n + 1)]),
                                                 [' '.join(word(s, 'a%d' % k) for k in (0, n // 2, n, n + 1))])
        yield 'items of a class', s, lambda n, s=s, sd=sd: (base(s, cats=[('A', [('a%d' % k, None if s == 'p' else 'n.*') for k in range(n + 1)])], rules=[(('A',), [lus(s, ('lit', 'R'), ('lit-tag', 'x'))])]),
                                                           [' '.join(word(s, 'a%d' % k) for k in (0, n // 2, n, n + 1))])
        rule = lambda s, ins, **k: base(s, rules=[(('A',), list(ins))], **k)
        yield 'instructions', s, lambda n, s=s, sd=sd, V=V, one=one: (rule(s, [('append', 'v', ('lit', 'xy'[k % 2])) for k in range(n)] + [V, ('let', ('var', 'v'), ('lit', ''))]), one)
        yield 'append', s, lambda n, s=s, sd=sd, V=V, one=one: (rule(s, [('append', 'v') + (('lit', 'x'), C(1, sd)) * n, V]), one)
        yield 'output', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('out',) + tuple(x for k in range(n) for x in (lus(s, C(1, sd), ('lit-tag', 't%d' % k))[1], ('b',))) + (lus(s, ('lit', 'z'), ('lit-tag', 'z'))[1],)]), one)
        yield 'concat', s, lambda n, s=s, sd=sd, one=one: (rule(s, [lus(s, ('concat',) + (C(1, sd), ('lit', '.')) * n + (('lit', 'e'),), ('lit-tag', 'x'))]), one)
        yield 'nested concat', s, lambda n, s=s, sd=sd, one=one: (rule(s, [lus(s, nest(n, lambda x: ('concat', ('lit', 'a'), x), C(1, sd)), ('lit-tag', 'x'))]), one)
        yield 'and', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('choose', ((('and',) + (eq(C(1, sd), C(1, sd)),) * n + (eq(C(1, sd), ('lit', 'zz')),), (lus(s, ('lit', 'YES'), ('lit-tag', 'x')),)), (('and',) + (eq(('lit', 'x'), ('lit', 'x')),) * (n + 1), (lus(s, ('lit', 'ALL'), ('lit-tag', 'x')),))), None)]), one)
        yield 'or', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('choose', ((('or',) + (eq(C(1, sd), ('lit', 'zz')),) * (n + 1), (lus(s, ('lit', 'YES'), ('lit-tag', 'x')),)), (('or',) + (eq(('lit', 'y'), ('lit', 'x')),) * n + (eq(('lit', 'x'), ('lit', 'x')),), (lus(s, ('lit', 'LAST'), ('lit-tag', 'x')),))), None)]), one)
        yield 'not', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('choose', ((nest(n, lambda x: ('not', x), eq(C(1, sd), ('lit', 'zz'))), (lus(s, ('lit', 'YES'), ('lit-tag', 'x')),)),), (lus(s, ('lit', 'NO'), ('lit-tag', 'x')),))]), one)
        yield 'when', s, lambda n, s=s, sd=sd: (rule(s, [('choose', tuple((eq(C(1, sd, 'num'), ('lit', '<q%d>' % k)), (lus(s, ('lit', 'W%d' % k), ('lit-tag', 'x')),)) for k in range(n)) + ((eq(('lit', 'x'), ('lit', 'x')), (lus(s, ('lit', 'LAST'), ('lit-tag', 'x')),)),), (lus(s, ('lit', 'NO'), ('lit-tag', 'x')),))], attrs=[('num', ['q%d' % k for k in range(n + 1)])]),
                                               [' '.join(word(s, 'a', '<n><q%d>' % k) for k in (0, n // 2, max(n - 1, 0), n, n + 1))])
        yield 'nested choose', s, lambda n, s=s, sd=sd, one=one: (rule(s, [nest(n, lambda x: ('choose', ((eq(C(1, sd), ('lit', 'zz')), ()),), (x,)), lus(s, ('lit', 'DEEP'), ('lit-tag', 'x')))]), one)
        yield 'list', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('choose', ((('in', ('lit', 'x%d' % n), 'l', False), (lus(s, ('lit', 'YES'), ('lit-tag', 'x')),)),), (lus(s, ('lit', 'NO'), ('lit-tag', 'x')),)), ('choose', ((('in', ('lit', 'x%d' % (n + 1)), 'l', True), (lus(s, ('lit', 'YES'), ('lit-tag', 'x')),)),), (lus(s, ('lit', 'NO'), ('lit-tag', 'x')),))], lists=[('l', ['x%d' % k for k in range(n + 1)])]), one)
        yield 'attribute', s, lambda n, s=s, sd=sd: (rule(s, [lus(s, ('lit', 'x'), C(1, sd, 'num'), ('lit-tag', 'e'))], attrs=[('num', ['x%d.y' % k for k in range(n + 1)])]), [' '.join(word(s, 'a', '<n><x%d><y>' % k) for k in (0, n // 2, n, n + 1))])
        yield 'attribute of many tags', s, lambda n, s=s, sd=sd: (rule(s, [lus(s, ('lit', 'x'), C(1, sd, 'num'), ('lit-tag', 'e')), ('let', C(1, sd, 'num'), ('lit-tag', 'new')), lus(s, C(1, sd, 'whole'))], attrs=[('num', ['.'.join(['x'] * (n + 1)), 'x.x'])]), [word(s, 'a', '<n>' + '<x>' * m) for m in (n, n + 1, n + 2)])
        yield 'variables', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('let', ('var', 'v%d' % n), C(1, sd)), lus(s, ('var', 'v0'), ('var', 'v%d' % (n // 2)), ('var', 'v%d' % n), ('lit-tag', 'x'))], vars=[('v%d' % k, 'd%d' % k) for k in range(n + 1)]), one)
        yield 'macros', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('call', 'm%d' % k, (1,)) for k in (0, n // 2, n)], macros=[('m%d' % k, 1, [lus(s, ('lit', 'M%d' % k), C(1, sd), ('lit-tag', 'x'))]) for k in range(n + 1)]), one)
        yield 'macro calls in turn', s, lambda n, s=s, sd=sd, one=one: (rule(s, [('call', 'm%d' % n, (1,))], macros=[('m%d' % k, 1, [('call', 'm%d' % (k - 1), (1,)) if k else lus(s, ('lit', 'END'), C(1, sd), ('lit-tag', 'x'))]) for k in range(n + 1)]), one)
        # the word
        R = [lus(s, C(1, sd, 'lemh'), C(1, sd, 'num'), ('lit-tag', 'x'), C(1, sd, 'lemq')), lus(s, C(1, sd, 'whole'))]
        yield 'letters of a lemma', s, lambda n, s=s, R=R: (rule(s, R, cats=[('A', [('a' if s == 'p' else 'a*', None if s == 'p' else 'n.*')])]), [word(s, 'a' + 'b' * n) if s != 'p' else '^a<x>{^z' + 'b' * n + '<sg>$}$', word(s, 'a' + 'b' * n + '# q', '<n><pl>') if s != 'p' else '^a<x>{^z# ' + 'b' * n + '<sg>$}$'])
        yield 'tags of a word', s, lambda n, s=s, R=R: (rule(s, R), [word(s, 'a', '<n>' + '<y>' * n + '<pl>')])
        yield 'letters of a tag', s, lambda n, s=s, R=R: (rule(s, R, attrs=[('num', ['p' + 'l' * n])]), [word(s, 'a', '<n><p' + 'l' * n + '>'), word(s, 'a', '<n><p' + 'l' * n + 'l>')])
        yield 'readings', s, lambda n, s=s, R=R: (rule(s, R), ['^a<n><sg>/A<n><pl>' + '/B<n><sg>' * n + '$' if s == 't' else '^a<n><sg>{^q<1>' + '/B<n>' * n + '$}$' if s == 'i' else '^a<x>{^q<1><sg>' + '/B<n>' * n + '$}$'])
        yield 'word-bound blank', s, lambda n, s=s, R=R: (rule(s, R), ['[[t:' + 'b' * n + ']]' + word(s, 'a') if s != 'p' else '^a<x>{[[t:' + 'b' * n + ']]^q<1><pl>$}$'])
        # the text around it
        P2 = base(s, rules=[(('A',) * (1 if s == 'p' else 2), [lus(s, C(1, sd), ('lit-tag', 'p')), ('out', ('b', 1)), lus(s, C(2, sd), ('lit-tag', 'r'))])])
        yield 'superblank', s, lambda n, s=s, W=W, P2=P2: (P2, ['[' + '\\]' * n + ']' + ('[x]'.join([W, W]) if s == 'p' else W + '[' + 'x' * n + ']' + W) + 'y' * n, '^a<x>{^q<1>$[' + 'x' * n + ']^r$}$' if s == 'p' else W + ' ' * n + W])
        yield 'words', s, lambda n, s=s, W=W, P2=P2: (P2, [(W + '[q]') * n, word(s, 'z') + (W + ' ') * n, (word(s, 'z') + ' ') * n + W + ' ' + W + word(s, 'z')])
        yield 'null bytes', s, lambda n, s=s, W=W, P2=P2: (P2, [W + ' ' + W] * n)
        if s == 'i':
            yield 'words of a chunk', s, lambda n, s=s, R=R: (rule(s, R), ['^a<n><sg>{' + '^q<1>$[\\}] ' * n + '^r$}$'])
        if s == 'p':
            yield 'words of a chunk', s, lambda n, s=s: (rule(s, [lus(s, C(n + 1, None), ('lit-tag', 'p')), ('out', ('b', n)), lus(s, C(n, None), C(n + 2, None))]), [h + '<x>{' + ' '.join('^w%d<1>$' % k for k in range(1, m + 1)) + '}$' for m in (n, n + 1) for h in ('^a', '^b', '^Cd')])
            yield 'tags of a chunk', s, lambda n, s=s: (rule(s, [lus(s, C(1, None, 'whole'))]), ['^%s' % h + ''.join('<t%d>' % k for k in range(1, n + 1)) + '{^q<%d><1>$ ^r<%d><%d>$}$' % (n, n + 1, max(n - 1, 0)) for h in ('a', 'b', 'AB')])


def eq(a, b):
    return ('equal', a, b, False)


def nest(n, f, x):
    for _ in range(n):
        x = f(x)
    return x


LARGE = {'units', 'parts', 'words', 'lemma', 'surface', 'superblank', 'queue', 'spaces', 'letters of a lemma', 'words of a chunk'}
DEEP = {'nested concat', 'nested choose', 'not', 'macro calls in turn'}


def same(exp, r):
    if r.status != 0:
        return describe(r.status)
    if r.out == exp:
        return None
    k = len(os.path.commonprefix([exp, r.out]))
    return 'output has %d bytes, expected %d; they differ from byte %d on: %r, expected %r' % (len(r.out), len(exp), k, show(r.out[k:k + 40]), show(exp[k:k + 40]))


def run(ctx):
    ctx.rule = ('every dimension (length of lemmas, tags, blanks; number of words, tags, readings, parts, rules, classes, items, instructions, operands, variables, macros; depth of nesting) at every size up to a bound '
                'and around the powers of two up to a larger one; the output must be what the definition says for that size')
    ctx.need('apertium-pretransfer', 'apertium-posttransfer', 'apertium-cleanstream', 'apertium-wblank-attach', 'apertium-wblank-detach', 'apertium-extract-caps', 'apertium-tagger', 'apertium-adapt-docx', 'apertium-tmxbuild', 'apertium-compile-caps', 'apertium-restore-caps', 'apertium-gen-modes', 'apertium-wblank-mode', *[x for v in FMT.values() for x in v], *trun.TOOL.values(), trun.PRE)
    sys.setrecursionlimit(20000)
    q = ctx.quick
    S = sorted(set(range(0, ctx.pick(301, 1501))) | near(ctx.pick(17000, 70000), ctx.pick(2, 5)))

    def gen():
        for x in filters():
            for k in range(0, len(S), 40):
                yield x, S[k:k + 40]

    def fn(w, blk):
        for (name, tool, a, f), ns in blk:
            cases = []
            for n in ns:
                if f(n) is None:
                    continue
                i, o = f(n)
                cases.append((a, i.encode(), (name, n, o.encode())))
                w.states += 1
                w.trans += n
            w.check(tool, cases, lambda k, r: same(k[2], r) and '%s of size %d: %s' % (k[0], k[1], same(k[2], r)))
    ctx.parallel('filters', gen, fn, 1)

    SP = sorted(set(range(0, ctx.pick(41, 301))) | near(ctx.pick(300, 1100), ctx.pick(1, 3)))
    SL = sorted(set(range(0, ctx.pick(81, 301))) | near(ctx.pick(2100, 9000), ctx.pick(2, 4)))

    def gen_p():
        for x in programs():
            ns = SL if x[0] in LARGE else [n for n in SP if x[0] not in DEEP or n <= ctx.pick(70, 260)] if x[0] != 'pattern that fails late' else [n for n in SP if n < 600]
            for k in range(0, len(ns), 8):
                yield x, ns[k:k + 8]

    def fn_p(w, blk):
        for (name, s, f), ns in blk:
            for n in ns:
                p, docs = f(n)
                if p is None:
                    continue
                if s == 't' and name == 'readings':
                    pass
                trun.compare(w, s, p, docs)
                if w.enough:
                    return
    ctx.parallel('rule programs', gen_p, fn_p, 1)

    # ---------------------------------------------------------------- taggers
    t = tag.Tsx([('X', False, [(None, 'x.*'), (None, 'x')]), ('Y', False, [(None, 'y')]), ('Z', False, [(None, 'z')])])
    X, Y, Z = (t.idx[k] for k in 'XYZ')
    SENT, EOF_ = tag.SENT, tag.EOF_
    wx, wz, ws = tag.W('ex', [('ex<x>', X)]), tag.W('z', [('z<z>', Z)]), tag.W('.', [('.<sent>', SENT)])
    am, unk = tag.W('am', [('am<x>', X), ('bm<y>', Y)]), tag.W('unk', [])
    hmm = p17.base_model(ctx, t, [wx, wz, am, tag.W('y', [('y<y>', Y)]), ws], 'hmm')
    p0 = tag.Prob(hmm)
    kxy, kop = p0.k[frozenset((X, Y))], p0.k[frozenset((X, Y, Z))]

    def model(a, b):
        p = tag.Prob(hmm)
        for i in range(p.N):
            for j in range(p.N):
                p.A[i][j] = a.get((i, j), 0.01)
        for k in p.B:
            p.B[k] = b.get(k, 0.01)
        return p
    # the tags alternate; all are equal and the last transition decides; all are equal and the first one does; every step counts
    alt = {(X, Y): .6, (X, X): .4, (Y, X): .6, (Y, Y): .4, (SENT, X): .7, (SENT, Y): .3}
    keep = {(X, X): .5, (Y, Y): .5, (X, Y): .0, (Y, X): .0, (SENT, X): .6, (SENT, Y): .4, (X, SENT): .1, (Y, SENT): .9, (X, Z): .9, (Y, Z): .1, (X, EOF_): .1, (Y, EOF_): .9}
    models = [(alt, {}), (keep, {}), (keep, {(X, kxy): 1., (Y, kxy): 1.}), (dict(alt, **{}), {(X, kxy): 1e-9, (Y, kxy): 1e-9, (X, kop): 1e-7, (Y, kop): 1e-7, (Z, kop): 1e-12}),
              ({(X, X): .91, (Y, Y): .92, (X, Y): .3, (Y, X): .25, (SENT, Y): .9, (X, SENT): .8}, {(X, kxy): 1., (Y, kxy): .5})]
    contexts = [([], [ws]), ([wx], [wz]), ([ws], []), ([unk, wz], [wx, am])]
    ST = sorted(set(range(0, ctx.pick(161, 400))) | near(ctx.pick(2100, 9000), ctx.pick(1, 3)))

    def stretches():
        for m in range(len(models)):
            for c in range(len(contexts)):
                for u in ((am,), (am, unk), (unk,)):
                    for k in range(0, len(ST), 24):
                        yield m, c, u, ST[k:k + 24]

    def viterbi(p, words):
        """the most probable tags of a sentence, products kept as mantissa and exponent; None where two paths are too close to call"""
        col = {SENT: (1.0, 0)}
        back = []
        close = False
        for w in words + [p17.END]:
            ts = p17.cand(p, w)
            k = p.k[p.emission_classes(ts)[0]]
            new, arg = {}, {}
            for i in ts:
                best = None
                for j, (x, e) in col.items():
                    y, f = math.frexp(x * p.A[j][i] * p.B.get((i, k), p17.ZERO))
                    v = (y, e + f) if y else (0.0, -10 ** 9)
                    if best is None or (v[1], v[0]) > (best[1], best[0]):
                        best, arg[i] = v, j
                new[i] = best
            if len(ts) == 1:
                new = {ts[0]: (1.0, 0)}
            back.append(arg)
            col = new
        i, path = EOF_, []
        for arg in reversed(back):
            path.append(i)
            i = arg[i]
        return path[::-1]

    def fn_t(w, blk):
        f = w.tmp + '/m.prob'
        for m, c, u, ns in blk:
            p = model(*models[m])
            tag.write(f, p.dump())
            argv = ['-g', '-z', f]
            cases = []
            for n in ns:
                words = contexts[c][0] + [u[k % len(u)] for k in range(n)] + contexts[c][1]
                path = viterbi(p, words)
                cases.append((words, ''.join(x.out(q, ()) for x, q in zip(words, path))))
                w.states += 1
                w.trans += len(words)
            inp = ''.join(''.join(x.text for x in words) + '\0' for words, e in cases).encode()
            r = w.run1('apertium-tagger', argv, inp)
            got = r.out.decode('utf8', 'replace').split('\0')
            for k, (words, e) in enumerate(cases):
                if r.status or k >= len(got) or got[k] != e:
                    one = ''.join(x.text for x in words).encode()
                    r1 = w.run1('apertium-tagger', ['-g', f], one)
                    w.fail('apertium-tagger', ['-g', f], one, r1, 'ambiguous stretch of %d words, model %d: %s' % (ns[k], m, same(e.encode(), r1) or 'differs in a series of requests: ' + describe(r.status)))
                    break
            w.seen(r.out)
            if w.enough:
                return
    ctx.parallel('ambiguous stretches', stretches, fn_t, 2)

    # ---- training on long stretches of ambiguous words: products of any length, in numbers that cannot underflow
    Wd = p23.Wd
    ex = Wd('^ex/ex<x>$', '^ex/ex<x>$', [((X,), X)])
    ax = Wd('^am/am<x>/bm<y>$', '^am/am<x>$', [((X, Y), X)])
    ay = Wd('^am/am<x>/bm<y>$', '^am/bm<y>$', [((X, Y), Y)])
    un = Wd('^un/*un$', '^un/*un$', [((), None)])
    st = Wd('^./.<sent>$', '^./.<sent>$', [((SENT,), SENT)])
    pairs = [(ax, ay), (ax, un), (un, ex, ax, ax), (un, st)]
    SB = sorted(set(range(0, ctx.pick(41, 160))) | set(range(60, ctx.pick(700, 2000), ctx.pick(40, 20))))

    def corpora():
        for u in range(len(pairs)):
            for kind, n in (('s', 0), ('s', 1), ('s', 2), ('t', 0), ('t', 1), ('t', 2), ('w', 0), ('w', 2)):
                for k in range(0, len(SB), 6):
                    yield u, kind, n, SB[k:k + 6]

    def fn_b(w, blk):
        d = w.tmp
        tag.write(d + '/t.tsx', t.xml())
        tag.write(d + '/dic', ''.join(x.text + '\n' for x in (ex, ax, un, st)))
        num = decimal.Context(prec=30, Emin=-10 ** 12, Emax=10 ** 12).create_decimal
        with decimal.localcontext(decimal.Context(prec=30, Emin=-10 ** 12, Emax=10 ** 12)):
            for u, kind, iters, ns in blk:
                for n in ns:
                    if kind == 'w' and n < 2:
                        continue
                    c = [pairs[u][k % len(pairs[u])] for k in range(n)]
                    tag.write(d + '/U', ' '.join(x.text for x in c) + '\n')
                    tag.write(d + '/T', ' '.join(x.gold for x in c) + '\n')
                    argv = {'s': ['-s', str(iters), d + '/dic'] + ([d + '/U'] if iters else []) + [d + '/t.tsx', d + '/m', d + '/T', d + '/U'],
                            't': ['-t', str(iters), d + '/dic', d + '/U', d + '/t.tsx', d + '/m'], 'w': ['-w', '-t', str(iters), d + '/dic', d + '/U', d + '/t.tsx', d + '/m']}[kind]
                    r = w.run1('apertium-tagger', argv)
                    m = describe(r.status) if r.status else None
                    w.states += 1
                    w.trans += n
                    if not m and kind == 'w':
                        p = tag.Prob(open(d + '/m', 'rb').read(), lsw=True)
                        D = p23.lsw(p, c, iters)
                        m = next(('D%r = %r, expected %r' % (q, p.D.get(q, 0.0), D.get(q, 0.0)) for q in sorted(set(D) | set(p.D)) if not p23.close(D.get(q, 0.0), p.D.get(q, 0.0))), None)
                    elif not m:
                        p = tag.Prob(open(d + '/m', 'rb').read())
                        A, B = p23.kupiec(p, c) if kind == 't' else p23.supervised(p, c)
                        for _ in range(iters):
                            A, B = p23.baum_welch(p, A, B, c, num)
                        if iters or kind == 't':
                            p23.rules(p, A)
                        m = next(('A[%s][%s] = %r, expected %r' % (t.names[i], t.names[j], p.A[i][j], A[i][j]) for i in range(p.N) for j in range(p.N) if not p23.close(A[i][j], p.A[i][j])), None) or \
                            next(('B%r = %r, expected %r' % (q, p.B[q], B[q]) for q in sorted(B) if not p23.close(B[q], p.B[q])), None)
                    w.seen(open(d + '/m', 'rb').read() if not r.status else b'')
                    if m:
                        w.fail('apertium-tagger', argv, b'', r, 'corpus of %d words %s, method %s, %d iterations: %s' % (n, ' '.join(x.text for x in pairs[u]), kind, iters, m), [d + '/t.tsx', d + '/dic', d + '/U', d + '/T'])
                        break
                if w.enough:
                    return
    ctx.parallel('training on long stretches', corpora, fn_b, 2)

    # ---- all taggers: the text around and in the words
    TG = p21.prepare(ctx)
    LU = p21.LU

    def texts():
        b = lambda bl, *lus: [x for l in lus for x in (bl, l)] + [bl]
        ex, amb, un = LU('ex', 'ex<x>'), LU('am', 'am<x>', 'bm<y>'), LU('Unk')
        yield 'surface', lambda n: b(' ', ex, LU('s' + '\\/' * n, 'ex<x>'), LU('s' + 't' * n, 'am<x>', 'bm<y>'), LU('s' * (n + 1)))
        yield 'lemma', lambda n: b(' ', LU('s', 'a' + '\\+b' * n + '<x>'), LU('s', 'am<x>', 'b' + 'm' * n + '<y>'), LU('s', 'q' + 'a' * n + '<x>', 'am' + '# q' + 'r' * n + '<y>'))
        yield 'tags', lambda n: b('', LU('s', 'a<x>' + '<q>' * n), LU('s', 'a<x>' + '<q>' * n, 'b<y>' + '<r>' * n))
        yield 'tag length', lambda n: b('', LU('s', 'a<x><q' + 'q' * n + '>'), LU('s', 'a<x><q' + 'q' * n + '>', 'b<y><r' + 'r' * n + '>'))
        yield 'queue', lambda n: b('', LU('s', 'a<x># q' + 'q' * n), LU('s', 'a<x># q' + 'r' * n, 'b<y># r' + 'r' * n))
        yield 'readings of one class', lambda n: b('', LU('s', *['a%d<x>' % k for k in range(n + 1)], classes=1))
        yield 'readings', lambda n: b('', LU('s', *['a%d<%s>' % (k, 'xy'[k % 2]) for k in range(n + 1)], classes=min(n + 1, 2)))
        yield 'blank', lambda n: b('[' + '\\]\\^' * n + ']' + ' ' * n, ex, amb, un)
        yield 'text', lambda n: b('t' * n + '\\^' * n, ex, amb)
        yield 'word-bound blank', lambda n: b(' [[t:' + 'b' * n + ']]', ex, amb, un)[:-1] + ['']
        yield 'words', lambda n: b(' ', *[ex, amb, un, amb][:n % 4] + [ex, amb, un, amb] * (n // 4))
        yield 'unknown words', lambda n: b(' ', *[un] * n)
        yield 'ambiguous words', lambda n: b(' [q]', *[amb] * n)
        yield 'sentences', lambda n: b('\n', *[amb, LU('.', '.<sent>')] * n)
        yield 'requests', lambda n: b(' ', *[amb] * (n % 7)) * 1 + ['\0'] * n
    SW = sorted(set(range(0, ctx.pick(61, 301))) | near(ctx.pick(2100, 17000), ctx.pick(1, 3)))

    def gen_w():
        for x in texts():
            for k in range(len(TG)):
                for a in range(0, len(SW), 6):
                    yield x, k, SW[a:a + 6]

    def fn_w(w, blk):
        for (name, f), k, ns in blk:
            kind, argv, prob = TG[k]
            for n in ns:
                if name.startswith('readings') and n > ctx.pick(300, 600) or kind == 'perc' and 'words' in name and n > ctx.pick(520, 2050):
                    continue
                items = f(n)
                text = ''.join(x if isinstance(x, str) else x.text for x in items)
                for o in ([], ['-p'], ['-f'], ['-m', '-z'], ['-z'])[::1 if n < 20 or not q else 4]:
                    if ('\0' in text) and '-z' not in o:
                        continue
                    a = argv + o + [prob]
                    r = w.run1('apertium-tagger', a, text.encode())
                    w.states += 1
                    w.trans += n
                    m = describe(r.status) if r.status else None
                    out = r.out.decode('utf8', 'replace')
                    if '-z' in o:
                        out = out[:len(text) + 10 ** 9]
                    if not m:
                        try:
                            tk = p21.tokens(out)
                        except (ValueError, IndexError):
                            tk = None
                        exp, bl = [], ''
                        for x in items:
                            if isinstance(x, str):
                                bl += x
                            else:
                                exp.append((bl, x))
                                bl = ''
                        tail = [bl, bl + '\0'] if '-z' in o else [bl]         # one more null byte at the end of file is tolerated in P02
                        if tk is None or len(tk) != len(exp) + 1:
                            m = '%d units, expected %d' % (len(tk) - 1 if tk else 0, len(exp))
                        else:
                            for (b1, x), (b2, u) in zip(exp, tk):
                                m = m or (b1 != b2 and 'blank %r became %r' % (b1[:60], b2[:60])) or p21.judge_lu(x, u, kind, tuple(o))
                            m = m or (tk[-1][0] not in tail and 'last blank %r became %r' % (bl[-60:], tk[-1][0][-60:])) or None
                    w.seen(r.out)
                    if m:
                        w.fail('apertium-tagger', a, text.encode(), r, '%s of size %d, %s tagger: %s' % (name, n, kind, m))
                        break
                if w.enough:
                    return
    ctx.parallel('tagger streams', gen_w, fn_w, 1)

    # ---- document formats: every token across the ends of the scanners' buffers, and repeated n times
    def across():
        for f in fmt.F:
            toks = [x.encode() for x in fmt.COMMON + fmt.SPECIAL[f]]
            for fill in (b'q', '\u00e9'.encode()) if q else (b'q', '\u00e9'.encode(), '\U0001f600'.encode(), b'\xe2\x82\xac'):
                for edge in (8192, 16384) if q else (4096, 8192, 16384, 24576, 32768, 65536):
                    for t in toks:
                        yield f, fill, edge, t

    def fn_x(w, blk):
        for f, fill, edge, t in blk:
            m = fmt.get(f)
            docs = []
            mark = '\u4e00'.encode()
            for end in (b'', b' b') if not q or edge == 8192 else (b' b',):
                short = b''.join(m.deformat(mark + t + end))
                for k in range(edge - len(t) - 1, edge + 2):
                    x = b'q' * (k % len(fill)) + fill * (k // len(fill))
                    docs.append((x + t + end, short.replace(mark, x, 1)))
            w.states += len(docs)
            w.trans += 2 * len(docs)
            r = w.many(FMT[f][0], [([], d) for d, e in docs])
            for (d, e), x, y in zip(docs, r, w.many(FMT[f][1], [([], x.out) for x in r])):
                w.seen(y.out)
                e = same(e, x) or y.status and describe(y.status) or y.out != d and not m.reformat_alternatives(d).fullmatch(y.out) and 'comes back changed: ' + (same(d, y) or '')
                if e:
                    w.fail(FMT[f][0], [], d, x, 'format %s, %r at the byte %d: %s' % (f, show(t), len(d) - len(t), e))
                    break
            if w.enough:
                return

    def repeated():
        for f in fmt.F:
            for t in fmt.COMMON + fmt.SPECIAL[f]:
                yield f, t.encode()

    def fn_r(w, blk):
        for f, t in blk:
            m = fmt.get(f)
            ns = [n for n in sorted(set(range(ctx.pick(41, 130))) | near(ctx.pick(600, 3000), 1)) if n * len(t) < ctx.pick(2500, 8000)]
            docs = [b'x' + t * n + b'y' for n in ns]
            exp = [b''.join(m.deformat(d)) for d in docs]
            w.states += len(docs)
            w.trans += 2 * len(docs)
            r = w.many(FMT[f][0], [([], d) for d in docs])
            for n, d, e, x, y in zip(ns, docs, exp, r, w.many(FMT[f][1], [([], x.out) for x in r])):
                w.seen(y.out)
                e = same(e, x) or y.status and describe(y.status) or y.out != d and not m.reformat_alternatives(d).fullmatch(y.out) and 'comes back changed: ' + (same(d, y) or '')
                if e:
                    w.fail(FMT[f][0], [], d, x, 'format %s, %r %d times: %s' % (f, show(t), n, e))
                    break
            if w.enough:
                return
    ctx.parallel('tokens across buffers', across, fn_x, 4)
    ctx.parallel('repeated tokens', repeated, fn_r, 2)

    # ---- runs of documents, sentences to be aligned
    def wruns():
        R = p26.r
        yield lambda n: ''.join(R('ab', k) for k in range(n))
        yield lambda n: ''.join(R('ab ', k) for k in range(n))
        yield lambda n: ''.join(R('a' * (k % 7) + ' ' * (k % 2) + 'b', k) for k in range(n))
        yield lambda n: R('a' * n, 0) + R('b' * n + ' c', 1) + R('d', 2)
        yield lambda n: R('x', 0) + R('b-' * n + 'c d', 1) + R('d', 2)
        yield lambda n: R('x y' * n, 0) + '<w:r><w:tab/></w:r>' * n + R('y', 1) + R('z', 2)
        yield lambda n: ''.join(R('ab', k) + ('<w:bookmarkStart w:id="0"/>' if k % 2 else '') for k in range(n))
        yield lambda n: ''.join(R('\u00e9\U00010400', k) for k in range(n)) + R(' ', 0) + R('', 1) * n

    def fn_d(w, blk):
        for f, ns in blk:
            for n in ns:
                p26.docs(w, [f(n)])
                w.trans += n
            if w.enough:
                return
    SD = sorted(set(range(ctx.pick(61, 301))) | near(ctx.pick(1100, 5000), 1))
    ctx.parallel('runs of a paragraph', lambda: ((f, SD[k:k + 8]) for f in wruns() for k in range(0, len(SD), 8)), fn_d, 1)
    ctx.parallel('paragraphs', lambda: ((f, n) for f in wruns() for n in SD if n < 520), lambda w, blk: [p26.docs(w, [f(3)] * n) for f, n in blk], 4)

    def sents():
        yield lambda n: ''.join('The house number %d is very big. ' % k for k in range(n))
        yield lambda n: ''.join('W%d ' % k * (4 + k % 5) + 'end of it.[<br>]\n' for k in range(n))
        yield lambda n: 'One two three ' + 'four ' * n + 'and five. Six seven eight nine ten. '
        yield lambda n: 'One two three four' + 'a' * n + ' five six. [' + 'x' * n + ']Another one goes here too. '
        yield lambda n: ''.join('Short %d. The longer one is number %d of them all. ' % (k, k) if k % 3 else 'A B C D E. ' for k in range(n))
        yield lambda n: 'Here is one [<b>]' + '[</b>] word [<i>]' * n + ' and more of that. Last one of all of them. '

    def fn_s(w, blk):
        for f, o, ns in blk:
            for n in ns:
                d = f(n)
                p = w.tmp + '/doc'
                tag.write(p, d)
                a = o + ['en', 'es', p, p]
                r = w.run1('apertium-tmxbuild', a)
                w.states += 1
                w.trans += n
                w.seen(r.out)
                m = p27.judge(w, d, d, r)
                if m:
                    w.fail('apertium-tmxbuild', a, d.encode(), r, m[:1500])
                    break
            if w.enough:
                return
    SA = sorted(set(range(ctx.pick(41, 160))) | set(range(60, ctx.pick(330, 1100), ctx.pick(13, 5))) | near(ctx.pick(300, 1100), 1) | {75, 100, 150, 175, 200, 225, 250, 300})
    ctx.parallel('sentences', lambda: ((f, o, SA[k:k + 4]) for f in sents() for o in ([], ['-w', '20', '-s', '10'], ['-w', '8', '-s', '3']) for k in range(0, len(SA), 4)), fn_s, 1)

    # ---- capitalisation rules: n items, n rules, n words
    M = lambda s=None, c=None, **a: p12.Match(s, srcsurf=c, **a)
    cw = lambda c, f='ab<n>', s='xYz': p12.W(c + '/aa', f, s)
    caps = 'AA', 'Aa', 'aa'

    def crules():
        yield 'items', lambda n: ([p12.Rule(*[M(caps[k % 3], caps[k * 2 % 3]) for k in range(n)])], [[cw(caps[(k - o) * 2 % 3]) for k in range(n + o)] for o in (0, 1, 2)])
        yield 'unselected items', lambda n: ([p12.Rule(*[M(None, 'aa')] * n, M('AA', 'Aa'))], [[cw('aa')] * k + [cw('Aa')] for k in (n - 1, n, n + 1)])
        yield 'rules', lambda n: ([p12.Rule(M(caps[k % 3], lemma='l%d' % k)) for k in range(n)], [[cw('aa', 'l%d<n>' % k) for k in (0, n - 1, n, n // 2)], [cw('aa', 'l%d<n>' % (k * 7 % n)) for k in range(n)]])
        yield 'rules for the same word', lambda n: ([p12.Rule(M(caps[k % 3], 'aa'), weight=('0.5', '0.75', '1.25', '2', '0.125', '1', '0.25')[k % 7]) for k in range(n)], [[cw('aa')] * 3])
        yield 'words', lambda n: ([p12.Rule(M('AA', 'Aa')), p12.Rule(M('Aa', 'aa'), M('aa', 'AA'))], [[cw(caps[k * k % 7 % 3]) for k in range(n)]])
        yield 'alternatives', lambda n: ([p12.Rule(p12.Or(*[M(caps[k % 3], lemma='l%d' % k) for k in range(n)]))], [[cw('aa', 'l%d<n>' % k) for k in (0, n - 1, n, n // 2)]])
        yield 'repetition', lambda n: ([p12.Rule(M('Aa', 'AA'), p12.Repeat(n, n, M(None, 'aa')), M('AA', 'Aa'))], [[cw('AA')] + [cw('aa')] * k + [cw('Aa')] for k in (n - 1, n, n + 1)])
        yield 'repetition up to', lambda n: ([p12.Rule(M('Aa', 'AA'), p12.Repeat(1, n, M('dix', 'aa')), M('AA', 'Aa'))], [[cw('AA')] + [cw('aa')] * k + [cw('Aa')] for k in (0, 1, n // 2, n - 1, n, n + 1) if k >= 0])
        yield 'length of lemmas', lambda n: ([p12.Rule(M('AA', lemma='b' * n))], [[cw('aa', 'b' * k + '<n>') for k in (n - 1, n, n + 1) if k > 0]])
        yield 'length of surfaces', lambda n: ([p12.Rule(M('AA', 'Aa')), p12.Rule(M('aa', 'AA'))], [[cw(c, 'ab<n>', 'xY\u00e9' * n) for c in caps]])
        yield 'tags', lambda n: ([p12.Rule(M('AA', tags='.'.join('t%d' % k for k in range(n))))], [[cw('aa', 'ab' + ''.join('<t%d>' % i for i in range(k))) for k in (n - 1, n, n + 1)]])

    def fn_c(w, blk):
        for (m, f), ns in blk:
            for n in ns:
                if 'items' in m and n > ctx.pick(140, 400):
                    continue
                rs, docs = f(n)
                w.trans += n
                p12.go(w, rs, [d for d in docs if d])
                if w.enough:
                    return
    SC = sorted(set(range(1, ctx.pick(41, 130))) | near(ctx.pick(300, 600), 1))
    ctx.parallel('capitalisation', lambda: ((f, SC[k:k + 4]) for f in crules() for k in range(0, len(SC), 4)), fn_c, 1)

    # ---- modes of n steps, n modes, n arguments
    def modes():
        C, A = lmodes.CMDS, lmodes.ARGS
        st = lambda k: (C[k % len(C)], None, A[k * 5 % len(A)])
        yield 'steps', lambda n: [('m', 'yes', 'yes', [st(k) for k in range(n)])]
        yield 'equal steps', lambda n: [('m', 'yes', 'yes', [('lt-proc -b', None, A[1])] * n)]
        yield 'modes', lambda n: [('m%d' % k, ('yes', 'no', None)[k % 3], ('yes', 'no')[k % 2], [st(k), st(k + 1)]) for k in range(n)]
        yield 'arguments', lambda n: [('m', 'yes', 'yes', [('lt-proc', None, [('file', 'f%d.automorf.bin' % k) if k % 2 else ('arg', '-%d' % k) for k in range(n)])])]
        yield 'length of names', lambda n: [('m' * min(n, 200), 'yes', None, [('c' * n, 's', [('arg', 'x' * n), ('file', 'f' * n)])])]

    def fn_m(w, blk):
        for (m, f), n in blk:
            p15.one(w, f(n))
            if w.enough:
                return
    ctx.parallel('modes', lambda: ((f, n) for f in modes() for n in SC if n < 400), fn_m, 8)

    def fn_z(w, blk):
        for (m, f), z in it.product(blk, ([], ['-z'])):
            cases = []
            for n in SC:
                s = f(n)
                cases.append((z, s.encode(), p16.model(p16.parse(s), bool(z))))
                w.states += 1
                w.trans += n
            w.check('apertium-wblank-mode', cases, p16.judge)
            if w.enough:
                return
    step = lambda k: ' '.join(p16.STEPS[k % len(p16.STEPS)])
    ctx.parallel('mode lines', lambda: (('steps', lambda n: ' | '.join(step(k * j) for k in range(n)) + '\n') for j in range(len(p16.STEPS))), fn_z, 1)
    ctx.parallel('mode arguments', lambda: [('arguments', lambda n: step(0) + " 'f'" * n + ' | ' + step(5) + '\n'), ('names', lambda n: step(0) + ' ' + 'f' * n + " '" + 'g' * n + "' | " + step(5) + '\n'), ('blanks', lambda n: step(0) + ' ' * n + '|' + ' ' * n + step(5) + ' ' * n + '\n')], fn_z, 1)
