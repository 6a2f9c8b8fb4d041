"""P33 a position outside the matched words (or a chunk shorter than the rule expects) reads as
nothing, is not assigned, and disturbs nothing else."""
import itertools as it
import p05, trun
from p05 import lu, clip, P

WORDS = {
    't': ['^abc<n><sg>/tL<n><pl># q/r<x>$', '^Aab<v>/x<n><sg>$', '^abc<n>/$'],
    'i': ['^abc<n><sg>{^x<1>$}$', '^Aab<v><p>{}$', '^x<n>{^a$ ^b<1>$}$'],
    'p': ['^abc<n>{}$', '^abc<n><sg>{^x<1>$}$', '^abc<n>{^a<n><sg>$ ^Bc<v><1># q$}$', '^abc<n>{^a<n>$[x]^b$ ^c<pl>$}$', '^abc<n>{[b]}$'],
}


def docs(stage):
    W = WORDS[stage]
    d = list(W) if stage == 'p' else [a + ' ' + b for a, b in it.product(W, repeat=2)]
    return d + ['[z]'.join(d)]


def uses(stage, pos, other):
    """instructions that use position pos in every way"""
    sides = ['sl', 'tl', 'ref'] if stage == 't' else [None]
    c = [('clip', pos, s, p) for s in sides for p in ('lem', 'whole', 'num', 'lemq')]
    if stage == 't':
        c += [('clip', pos, s, 'num', '2') for s in sides]
    if stage == 'i':
        c += [('clip', pos, None, p) for p in ('content', 'chcontent')]
    # (a missing position has no case: the whole expression is empty)
    c += [('case-of', pos, s, 'lem') for s in sides]
    g = [('get-case-from', pos, ('lit', 'fOo'))]
    for x in c + g:
        yield [lu(stage, ('lit', 'p'), x)]
        yield [lu(stage, x)]
        yield [('let', ('var', 'v'), x)]
        yield [('append', 'v', x, ('lit', '.'), x)]
        yield [('let', other, x)]
        yield [('let', ('var', 'v'), ('concat', x, ('lit', 'c'), x))]
        yield [('choose', ((('equal', x, ('lit', '')), (('let', ('var', 'v'), ('lit', 'empty')),)), (('begins-with', x, ('lit', 'a'), True), (('let', ('var', 'v'), ('lit', 'a')),))), (('let', ('var', 'v'), ('lit', 'other')),))]
        yield [('choose', ((('in', x, 'l1', True), (('let', ('var', 'v'), ('lit', 'in')),)),), (('let', ('var', 'v'), ('lit', 'out')),))]
        yield [('modify-case', other, x)]
        yield [('modify-case', ('var', 'u'), x)]
    for t in c:
        if t[0] != 'clip' or len(t) > 4 or t[3] in ('content', 'chcontent'):
            continue
        for v in (('lit', 'set'), ('lit-tag', 'q.r'), ('lit', ''), other, t):
            yield [('let', t, v)]
        for v in (('lit', 'AA'), other, t):
            yield [('modify-case', t, v)]


def run(ctx):
    ctx.rule = ('every kind of expression and assignment at every position inside and outside the matched words, twice in one rule and after one another; every macro with every argument list (too few, too many, outside); '
                'the rest of the output compared with a direct interpreter in which a missing word reads as nothing')
    ctx.need('apertium-preprocess-transfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk')

    def suite(name, stage, gen, opts=(), block=8):
        dd = docs(stage)

        def fn(w, blk):
            for p in blk:
                trun.compare(w, stage, p, dd, opts)
                if w.enough:
                    return
        ctx.parallel(name + ' ' + stage + ''.join(opts), gen, fn, block)
    for st in 'tip':
        POS = (-1, 0, 1, 2, 3, 4, 99) if st != 'p' else (-1, 0, 1, 2, 3, 4, 99)
        other = clip(st, 1, 'tl', 'lem')
        fin = [lu(st, ('lit', 'v='), ('var', 'v')), lu(st, ('lit', 'u='), ('var', 'u')), lu(st, clip(st, 1, 'tl', 'whole')), ('out', ('b',)), lu(st, clip(st, 2, 'tl', 'whole'))]
        suite('uses', st, lambda: (P(st, u + fin) for p in POS for u in uses(st, p, other)))
        # the same instruction again: what was worked out the first time is kept
        mac = lambda u, n: [('m', n, u + [('append', 'v', ('lit', ';'))])]
        suite('uses in a macro', st, lambda: (P(st, [('call', 'm', a), ('call', 'm', b)] + fin, mac(u, 1)) for p in (0, 1, 2, 99) for u in uses(st, p, other)
                                             for a, b in ([((1,), (3,)), ((0,), (2,))] if ctx.quick else it.permutations([(-1,), (0,), (1,), (2,), (3,)], 2))))
        lists = [x for k in range(0, ctx.pick(4, 4)) for x in it.product((-1, 0, 1, 2, 3), repeat=k)]
        body = [('append', 'v', clip(st, 1, 'tl', 'lem'), ('lit', ','), clip(st, 2, 'tl', 'lem'), ('lit', ';')), ('let', clip(st, 2, 'tl', 'lem'), ('lit', 'm')), ('modify-case', clip(st, 1, 'tl', 'lem'), ('lit', 'AA'))]
        suite('argument lists', st, lambda: (P(st, [('call', 'm', a), ('let', ('var', 'u'), ('lit', 'after'))] + fin, [('m', n, body)]) for n in (1, 2, 3) for a in lists))
        # words printed by macros that lack an argument, or have no parameter at all; rules of one word
        L = lambda *x: (('chunk', (), None) if st == 'i' else ('lu',)) + x
        bodies = [[('out', L(('lit', 'x')))], [('out', L(('var', 'u')))], [('let', ('var', 'v'), L(('lit', 'x')))], [('out', ('b',))], [('out', L(clip(st, 1, 'tl', 'lem'), clip(st, 2, 'tl', 'num')))],
                  [('out', L(('var', 'u')), ('b',), L(('lit', 'y')))], [('append', 'v', L(clip(st, 1, 'tl', 'whole')))], [('choose', ((('equal', clip(st, 1, 'tl', 'lem'), ('lit', '')), (('out', L(('lit', 'none'))),)),), (('out', L(('lit', 'some'))),))]]
        if st != 'i':
            ml = [('mlu', ('lu', ('lit', 'x')), ('lu', ('lit', 'y'))), ('mlu', ('lu', ('var', 'u')), ('lu', clip(st, 1, 'tl', 'whole')))]
            bodies += [[('out', x)] for x in ml] + [[('let', ('var', 'v'), x)] for x in ml]
        if st == 't':
            bodies.append([('out', ('chunk', (('name', 'c'),), [('lit-tag', 'k')], ('lu', ('lit', 'x'))))])
        dw = [x for x in docs(st) if '[z]' not in x]
        dw += [x.replace('{^', '{[[t:i:2]]^') if st == 'p' else x.replace('^', '[[t:i:2]]^') for x in dw] if st != 'i' else []

        def fn(w, blk):
            for p in blk:
                trun.compare(w, st, p, dw)
                if w.enough:
                    return
        ctx.parallel('words printed in macros ' + st, lambda: (P(st, pre + [('call', 'm', a)] + mid + fin[:2], [('m', n, b), ('k', 0, [('call', 'm', ())])], npat=np)
                                                               for np in ((1,) if st == 'p' else (1, 2)) for n in (0, 1, 2) for a in lists if len(a) <= n
                                                               for b in bodies for pre in ([], [('let', ('var', 'u'), clip(st, 1, 'tl', 'lem'))]) for mid in ([], [('call', 'k', ())])), fn, 20)
