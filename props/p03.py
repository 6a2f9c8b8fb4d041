"""P03: which rule applies where (longest match, first rule, left to right, rejection)."""
import itertools
import trun

CATS = {'A': [('a', 'n')], 'B': [('b', 'n')], 'X': [(None, 'n')], 'Y': [(None, 'n'), (None, 'n.*')], 'Z': [(None, 'v')]}
PCATS = {'A': [('a', None)], 'B': [('b', None)], 'X': [('*', None)], 'Y': [('a', None), ('b', None)], 'Z': [('z', None)]}
W = {'t': lambda x: '^%s/t%s$' % (x, x), 'i': lambda x: '^%s{^q$}$' % x, 'p': lambda x: '^%s{^q$ ^r<1>$}$' % x}
LET = {'a': 'a<n>', 'b': 'b<n>', 'c': 'c<n>', 'z': 'z<v>', 'A': 'A<n>', 'm': 'c<n><m>'}


def program(stage, pats, rej):
    rules = []
    for k, (pat, r) in enumerate(zip(pats, rej)):
        L = len(pat)
        if stage == 'p':
            body = [('out', ('lu', ('lit', 'r%d.' % k), ('clip', 0, None, 'lem')))]
            key = ('clip', 0, None, 'lem')
        elif stage == 'i':
            body = [('out', ('chunk', (), None, ('lit', 'r%d.' % k)) + tuple(('clip', j + 1, None, 'lem') for j in range(L)))]
            key = ('clip', L, None, 'lem')
        else:
            body = [('out', ('lu', ('lit', 'r%d.' % k)) + tuple(('clip', j + 1, 'sl', 'lem') for j in range(L)))]
            key = ('clip', L, 'sl', 'lem')
        if r == 'cond':      # rejects only when the last word is an a
            body = [('choose', ((('equal', key, ('lit', 'a')), (('reject', 'no'),)),), body)]
        elif r == 'late':    # output first, then keep only the first word
            body = body + [('reject', '1')]
        elif r != '':
            body = [('reject', r)]
        rules.append((pat, body))
    used = sorted({c for p in pats for c in p})
    C = PCATS if stage == 'p' else CATS
    return dict(cats=[(c, C[c]) for c in used], attrs=[('n', ['n'])], vars=[('v', '')], rules=rules)


def seqs(alpha, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alpha, repeat=n)


def docs(stage, alpha, n):
    w = W[stage]
    return [' '.join(w(LET[x]) for x in s) for s in seqs(alpha, 0, n)]


def run(ctx):
    ctx.rule = ('every ordered rule set over the stated pattern alphabet, with every combination of rejection behaviour, '
                'run on every word sequence up to the bound; output compared with a direct leftmost-longest-first matcher')
    ctx.need('apertium-preprocess-transfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk')

    def suite(name, stage, gen, dd, block=4):
        def fn(w, blk):
            for pats, rej in blk:
                p = program(stage, pats, rej)
                trun.compare(w, stage, p, dd, known=('shared-items', trun.Machine(stage, p, shared=True)) if any(rej) else None)
                if w.enough:
                    return
        ctx.parallel(name, gen, fn, block)
    for stage in 'ti':
        P3 = list(seqs('ABX', 1, 3))
        P2 = list(seqs('AX', 1, 3))
        N3 = [p for p in P3 if len(p) < 3] if ctx.quick and stage == 'i' else P3
        suite('rule pairs ' + stage, stage, lambda: ((p, ('',) * 2) for p in itertools.permutations(N3, 2)), docs(stage, 'abc', ctx.pick(5, 6) if stage == 't' else ctx.pick(4, 5)))
        dd = docs(stage, 'ac', ctx.pick(5, 7))
        suite('rule triples ' + stage, stage, lambda: ((p, ('',) * 3) for p in itertools.permutations(P2, 3)) if not ctx.quick or stage == 't' else
              ((p, ('',) * 3) for p in itertools.permutations(list(seqs('AX', 1, 2)), 3)), dd)
        dd = docs(stage, 'acz', ctx.pick(4, 5))
        PR = [p for p in seqs('AX', 1, 2)] + [('A', 'A', 'X')]
        if ctx.quick:
            VR = ['', 'no', 'yes', 'cond'] if stage == 't' else ['', 'no', 'yes']
            PR = PR if stage == 't' else PR[2:]
            suite('rejection pairs ' + stage, stage, lambda: ((p, v) for p in itertools.permutations(PR, 2) for v in itertools.product(['', 'no', 'yes', '2', 'cond', 'late'], repeat=2)
                  if all(x != '2' or len(q) > 1 for x, q in zip(v, p))), dd)
            suite('rejection triples ' + stage, stage, lambda: ((p, v) for p in itertools.permutations(PR[-4:], 3) for v in itertools.product(VR, repeat=3)), dd)
        else:
            suite('rejection triples ' + stage, stage, lambda: ((p, v) for p in itertools.permutations(PR, 3) for v in itertools.product(['', 'no', 'yes', '2', 'cond', 'late'], repeat=3)
                  if all(x != '2' or len(q) > 1 for x, q in zip(v, p))), dd, 16)
    # postchunk: one chunk per match, chosen by its name
    PP = [('A',), ('B',), ('X',), ('Y',)]
    suite('rules p', 'p', lambda: ((p, v) for n in (1, 2, 3) for p in itertools.permutations(PP, n) for v in itertools.product(['', 'no', 'cond'], repeat=n)),
          docs('p', 'abcA', ctx.pick(2, 3)))
    # classes sharing words, several items, tag suffixes
    for stage in 'ti':
        suite('overlapping classes ' + stage, stage, lambda: ((p, ('',) * 2) for p in itertools.permutations(list(seqs('XYZ', 1, 2)), 2)), docs(stage, 'czmA', 3))

    # the token buffer is circular: the same decisions at every position around its end
    prog = program('t', [('A', 'A', 'X'), ('A', 'X'), ('X', 'X', 'A'), ('A',)], ['cond', 'yes', 'no', ''])
    prog['cats'] = [(c, CATS[c]) for c in 'AX']
    lo, hi = ctx.pick((1014, 1030), (1000, 1040))

    def gen():
        for stage in 'ti':
            for k in range(lo, hi):
                yield stage, k

    def fn(w, blk):
        for stage, k in blk:
            p = program(stage, [('A', 'A', 'X'), ('A', 'X'), ('X', 'X', 'A'), ('A',)], ['cond', 'yes', 'no', ''])
            f = trun.compile_prog(w, stage, p)
            m = trun.Machine(stage, p)
            fill = W[stage]('z<v>') + ' '
            fo = m.run(fill) * k
            for s in seqs('ac', 1, ctx.pick(4, 5)):
                d = ' '.join(W[stage](LET[x]) for x in s)
                e = fo + m.run(d)
                w.states += 1
                w.trans += k + m.steps
                a = trun.argv(stage, f)
                r = w.run1(trun.TOOL[stage], a, (fill * k + d).encode())
                w.seen(e[len(fo):], stage)
                if r.status or r.out.decode() != e:
                    w.fail(trun.TOOL[stage], a, (fill * k + d).encode(), r, 'after %d filler words: got ...%r, expected ...%r' % (k, r.out.decode()[len(fo):], e[len(fo):]))
                    return
    ctx.parallel('buffer end', gen, fn, 1)
