"""P19 the unigram tagger chooses the analysis of greatest score, with scores computed
from the counts of the training corpus as its three models define them: every small
training corpus x every ambiguous word, trained and tagged by the real tool."""
import itertools, os
from collections import Counter, defaultdict
from fractions import Fraction as F
import tag


def morphs(a):
    """[(lemma, tags)]"""
    res = []
    for m in a.split('+'):
        i = m.index('<')
        res.append((m[:i], m[i:]))
    return res


class Model:
    def __init__(self, corpus):
        self.c1, self.c2 = Counter(), defaultdict(Counter)
        self.lt, self.clct, self.ctcl = defaultdict(Counter), defaultdict(Counter), defaultdict(Counter)
        coef = 1
        for lu in corpus:        # every analysis counts 1/n, over a common denominator
            n = len(lu)
            if coef % n:
                coef *= n
        self.coef = coef
        for lu in corpus:
            for a in lu:
                k = coef // len(lu)
                m = morphs(a)
                self.c1[a] += k
                self.c2[(m[0][1], tuple(m[1:]))][m[0][0]] += k
                self.lt[m[0][1]][m[0][0]] += k
                for p, q in zip(m, m[1:]):
                    self.clct[p[1]][q[0]] += k
                    self.ctcl[q[0]][q[1]] += k

    @staticmethod
    def cond(table, given, x):
        """(1 + count, 1 + total, number of types counting x)"""
        t = table.get(given)
        if t is None:
            return 1, 1, 1
        return 1 + t.get(x, 0), 1 + sum(t.values()), len(t) + (x not in t)

    def score(self, model, a):
        m = morphs(a)
        if model == 1:
            return F(1 + self.c1.get(a, 0))
        if model == 2:
            r, tot, typ = self.cond(self.c2, (m[0][1], tuple(m[1:])), m[0][0])
            return F(r * tot, tot + typ)
        r, tot, typ = self.cond(self.lt, m[0][1], m[0][0])
        s = F(r * tot, tot + typ)
        for p, q in zip(m, m[1:]):
            r, tot, typ = self.cond(self.clct, p[1], q[0])
            r2, tot2, typ2 = self.cond(self.ctcl, q[0], q[1])
            s *= F(r * r2, (tot + typ) * (tot2 + typ2))
        return s

    def best(self, model, lu):
        s = [self.score(model, a) for a in lu]
        return lu[s.index(max(s))]


def explore(ctx, name, corpora, tests, models, block=24):
    inp = (' '.join('^w/%s$' % '/'.join(t) for t in tests) + '\n').encode()

    def fn(w, blk):
        for c in blk:
            text = ' '.join('^w/%s$' % '/'.join(lu) for lu in c) + '\n'
            cf, pf = w.tmp + '/corpus', w.tmp + '/prob'
            tag.write(cf, text)
            M = Model(c)
            for m in models:
                if os.path.exists(pf):
                    os.unlink(pf)
                r = w.run1('apertium-tagger', ['-s', '0', '-u', str(m), pf, cf])
                if r.status:
                    w.fail('apertium-tagger', ['-s', '0', '-u', str(m), pf, cf], b'', r, 'training on %r failed' % text, [cf])
                    continue
                argv = ['-g', '-u', str(m), pf]
                r = w.run1('apertium-tagger', argv, inp)
                w.states += len(tests)
                w.trans += len(c)
                w.seen(r.out)
                got = r.out.decode().rstrip('\n').split(' ')
                exp = ['^%s$' % M.best(m, t) for t in tests]
                if r.status or len(got) != len(exp):
                    w.fail('apertium-tagger', argv, inp, r, 'status %d, %d words of %d' % (r.status, len(got), len(exp)), [cf])
                    continue
                for t, g, e in zip(tests, got, exp):
                    if g != e:
                        w.fail('apertium-tagger', argv, ('^w/%s$' % '/'.join(t)).encode(), r,
                               'model %d trained on %s: %s tagged %s, expected %s (scores %s)' % (
                                   m, text.strip(), '/'.join(t), g, e, [str(M.score(m, a)) for a in t]), [cf])
                        break
                if len(w.samples) < 2:
                    w.samples.append(dict(corpus=text[:200], model=m, output=r.out.decode()[:200]))
    ctx.parallel(name, corpora, fn, block)


def run(ctx):
    ctx.rule = ('every training corpus of at most the stated number of words over the listed words (one or several analyses each), x every '
                'test word; the analysis printed must be the first of greatest score, recomputed exactly from the corpus')
    ctx.need('apertium-tagger')
    S = ['a<x>', 'b<x>', 'a<y>', 'b<y><z>']
    amb = lambda A, k: [p for n in range(1, k + 1) for p in itertools.permutations(A, n)]
    words = amb(S, 2)
    tests = [p for n in (2, 3) for p in itertools.permutations(S + ['c<x>', 'a<q>'], n)]

    def cs(words, ordered, multi):
        def g():
            for n in range(0, multi + 1):
                if n <= ordered:
                    yield from itertools.product(words, repeat=n)
                else:
                    yield from itertools.combinations_with_replacement(words, n)
        return g
    explore(ctx, 'single morphemes', cs(words, ctx.pick(2, 3), ctx.pick(3, 4)), tests, (1, 2, 3))

    C = ['a<x>+b<z>', 'b<x>+b<z>', 'a<y>+b<w>', 'a<x>', 'a<x>+c<z>', 'b<y>+b<z>+c<w>', 'a<y>+b<z>+b<w>']
    cw = [(a,) for a in C] + [p for p in itertools.combinations(C, 2)] + [(C[0], C[1], C[2])]
    tests = [p for p in itertools.permutations(C + ['d<x>+b<z>', 'a<x>+d<z>', 'a<x>+b<u>'], 2)]
    explore(ctx, 'compounds', cs(cw, 2, ctx.pick(2, 3)), tests, (1, 2, 3))

    # three- and four-way ambiguous training words: the common denominator
    S3 = ['a<x>', 'b<x>', 'a<y>', 'b<y>']
    w3 = [tuple(S3[:n]) for n in (1, 2, 3, 4)] + [tuple(S3[-n:]) for n in (1, 2, 3)]
    tests = list(itertools.permutations(S3 + ['c<y>'], 2))
    explore(ctx, 'denominators', cs(w3, ctx.pick(4, 5), ctx.pick(4, 5)), tests, (1, 2, 3))
