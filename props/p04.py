"""P04: which words a word class matches."""
import itertools
import trun

LEM = [None, 'a', 'ab', 'a*', '*b', 'a*b', '*', 'é', 'a b', 'b/a', '*a*']
WL = ['a', 'A', 'ab', 'aB', 'AB', 'b', 'abb', 'axb', 'é', 'É', 'éab', 'a b', 'A B', 'b\\/a', '\\^b', 'a😀b', 'x', 'aa', 'aba']


def tagseqs(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=n):
            yield t


def run(ctx):
    ctx.rule = ('every class of the stated family as the pattern of a rule, against every word over the stated lemmas and all tag sequences up to the bound; '
                'the words rewritten by the rule must be exactly those a direct reading of the class matches')
    ctx.need('apertium-preprocess-transfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk')
    TW = ['.'.join(t) for t in tagseqs(['n', 'm', '*'], 1, 3)]
    WT = [''.join('<%s>' % x for x in t) for t in tagseqs(['n', 'm', 'x'], 0, ctx.pick(3, 4))]
    WTs = [''.join('<%s>' % x for x in t) for t in tagseqs(['n', 'm', 'x'], 0, 2)]

    def docs(stage, lems, tags):
        if stage == 't':
            # the translation is one that would match instead
            return ['^%s%s/ab<n><m>$' % (l, t) for l in lems for t in tags] + ['^x<x>/a<n>$', '^a<n>$', '^*a/*a$', '^a<n>/@a<n>/b<m>$']
        return ['^%s%s{^a<n>$}$' % (l, t) for l in lems for t in tags]

    def out(stage, k):
        if stage == 'i':
            return [('out', ('chunk', (), None, ('lit', 'y%d' % k)))]
        return [('out', ('lu', ('lit', 'y%d' % k)))]

    def prog(stage, cats, pats):
        return dict(cats=cats, attrs=[('n', ['n'])], vars=[('v', '')], rules=[(p, out(stage, k)) for k, p in enumerate(pats)])

    def suite(name, stage, gen, dd, block=4):
        def fn(w, blk):
            for p in blk:
                trun.compare(w, stage, p, dd)
                if w.enough:
                    return
        ctx.parallel(name, gen, fn, block)
    for st in 'ti':
        suite('one item ' + st, st, lambda: (prog(st, [('A', [(l, t)])], [('A',)]) for l in LEM for t in TW), docs(st, WL, WT))
        some = [(l, t) for l in [None, 'a', 'a*', '*b'] for t in ['n', '*', 'n.*', '*.m', 'n.m', 'm.*.n', '*.*']]
        suite('two items ' + st, st, lambda: (prog(st, [('A', list(x))], [('A',)]) for x in itertools.combinations(some, 2)), docs(st, WL[:8] + ['É', 'b\\/a'], WTs + ['<n><m><n>', '<m><x><x><n>']))
        # two classes in one compiled pattern set, in both orders
        suite('two rules ' + st, st, lambda: (prog(st, [('A', [x]), ('B', [y])], [('A',), ('B',)]) for x in some for y in some if x != y and (st == 't' or not ctx.quick or x[0] != y[0])),
              docs(st, ['a', 'A', 'ab', 'b', 'axb'], WTs + ['<n><m><n>', '<m><x><x><n>']))
        # classes in a sequence: item ends may not borrow from the next word
        pd = [a + b + c for a in docs(st, ['a', 'b', 'axb'], ['<n>', '<n><m>', '<m>'])[:9] for b in ('', ' ') for c in docs(st, ['a', 'ab'], ['<n>', '<x>', '<m><n>'])[:6]]
        suite('sequences ' + st, st, lambda: (prog(st, [('A', [x]), ('B', [y])], [('A', 'B'), ('B', 'A')]) for x, y in itertools.combinations(some, 2)), pd)
    names = ['a', 'ab', 'a*', '*b', 'a*b', '*', 'é', 'a b', '*a*']
    suite('chunk names', 'p', lambda: (prog('p', [('A', [(x, None)]), ('B', [(y, None), (z, None)])], [('A',), ('B',)]) for x in names for y in names for z in names), docs('p', WL, ['', '<n>', '<n><a>']))
