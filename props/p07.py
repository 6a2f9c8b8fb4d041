"""P07: every formatting blank of the input comes out exactly once and in order."""
import itertools as it
import re
import trun

LIT = lambda k: ('lit', 'o%d' % k)


def prog(stage, npat, ins, default=None, more=()):
    if stage == 'p':
        cats = [('A', [('a', None)])]
        pat = ('A',)
    else:
        cats = [('A', [('a', 'n')])]
        pat = ('A',) * npat
    d = dict(cats=cats, attrs=[('num', ['sg', 'pl'])], vars=[('v', '')], rules=list(more) + [(pat, list(ins))])
    if default:
        d['default'] = default
    return d


def nodes(stage):
    """children of <out>: words, blanks, groups that hold blanks"""
    if stage == 't':
        return [('lu', LIT(1)), ('lu', ('clip', 1, 'tl', 'lem')), ('b',), ('b', 1), ('mlu', ('lu', LIT(2)), ('lu', LIT(3))), ('chunk', (('name', 'c'),), (('lit-tag', 'S'),), ('lu', LIT(4)), ('b',), ('lu', LIT(5))),
                ('chunk', (('name', 'c'),), (), ('b',), ('b', 2)), ('concat', ('b',))]
    if stage == 'i':
        return [('chunk', (), None, LIT(1)), ('chunk', (), None, ('clip', 1, None, 'whole')), ('b',), ('b', 1), ('concat', ('b',), ('b',)), ('chunk', (), None, ('clip', 1, None, 'lem'), ('lit', '{'), ('clip', 1, None, 'content'), ('b',), ('lit', '}'))]
    return [('lu', LIT(1)), ('lu', ('clip', 1, None, 'whole')), ('b',), ('b', 1), ('mlu', ('lu', LIT(2)), ('lu', LIT(3))), ('concat', ('b',), ('b',))]


def word(stage, x, k, inner=None):
    if stage == 't':
        return '^%s<n>/%s%d<n>$' % (x, x, k)
    return '^%s<n>{%s}$' % (x, inner if inner is not None else '^%s%d$' % (x, k))


BL = [lambda k: '', lambda k: ' ', lambda k: '[%d]' % k, lambda k: ' [<%d>]t ' % k, lambda k: '\\^%d' % k, lambda k: '[\\]%d][x%d]\n' % (k, k), lambda k: '%d;' % k]


def docs(stage, n, kinds, letters='az', ends=None):
    """every word sequence of length n with every choice of blanks around"""
    r = []
    for ws in it.product(letters, repeat=n):
        for bs in it.product(kinds, repeat=n + 1):
            r.append(BL[bs[0]](0) + ''.join(word(stage, x, k + 1) + BL[bs[k + 1]](k + 1) for k, x in enumerate(ws)))
    return r


def inners(n, kinds, wbs=None):
    if wbs:
        return [BL[bs[0]](0) + ''.join('[[t:%d]]' % k * wb[k] + '^w%d$' % (k + 1) + BL[bs[k + 1]](k + 1) for k in range(n))
                for bs in it.product(kinds, repeat=n + 1) for wb in it.product((0, 1), repeat=n) if any(wb)]
    return [BL[bs[0]](0) + ''.join('^w%d$' % (k + 1) + BL[bs[k + 1]](k + 1) for k in range(n)) for bs in it.product(kinds, repeat=n + 1)]


WBLANK = re.compile(r'\[\[.*?\]\]')
UNIT = re.compile(r'\^(?:\\.|[^$\\])*\$', re.S)
PIECE = re.compile(r'\\.\d?|\[(?:\\.|[^\]\\])*\]|\d;|\n', re.S)


def formatting(text):
    """the formatting pieces of a stream, in order (plain spaces excluded)"""
    return PIECE.findall(WBLANK.sub('', text))


def outside(doc):
    return UNIT.sub('^$', doc)


def run(ctx):
    ctx.rule = ('every list of output nodes up to the bound (with fewer, equal and more blank positions than the pattern has), every rejection shape, every placement of blanks; '
                'output compared with the reference interpreter, and the formatting pieces of input and output compared directly')
    ctx.need('apertium-preprocess-transfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk')
    q = ctx.quick

    def suite(name, stage, gen, dd, opts=(), block=2):
        want = [formatting(d) for d in dd]

        def fn(w, blk):
            for p in blk:
                trun.compare(w, stage, p, dd, opts)
                f = trun.argv(stage, ('%s/p.x' % w.tmp, '%s/p.b' % w.tmp), ['-z'] + list(opts))
                r = w.run1(trun.TOOL[stage], f, b'\0'.join(d.encode() for d in dd) + b'\0')
                got = r.out.decode('utf8', 'replace').split('\0')
                for d, e, g in zip(dd, want, got):
                    if formatting(g) != e:
                        a = trun.argv(stage, ('%s/p.x' % w.tmp, '%s/p.b' % w.tmp), opts)
                        r = w.run1(trun.TOOL[stage], a, d.encode())
                        h = formatting(r.out.decode('utf8', 'replace'))
                        if h != e:
                            w.fail(trun.TOOL[stage], a, d.encode(), r, 'formatting in: %r, out: %r' % (e, h))
                if w.enough:
                    return
        ctx.parallel(name + ' ' + stage + ''.join(opts), gen, fn, block)

    def outs(stage, hi):
        N = nodes(stage)
        for k in range(0, hi + 1):
            yield from it.product(N, repeat=k)

    for st in 'ti':
        d12 = docs(st, 1, range(7)) + docs(st, 2, (1, 2, 3, 4) if q else range(7))
        d3 = docs(st, 3, (0, 2, 3) if q else (0, 1, 2, 3, 5))
        # one <out> with up to 3 nodes; two <out>s
        suite('outputs, 1 word', st, lambda: (prog(st, 1, [('out',) + o]) for o in outs(st, 2)), d12)
        suite('outputs, 2 words', st, lambda: (prog(st, 2, [('out',) + o]) for o in outs(st, ctx.pick(2, 3))), d12 + d3)
        suite('outputs, 3 words', st, lambda: (prog(st, 3, [('out',) + o]) for o in outs(st, 2 if q else 3)), d3)
        B, L = ('b',), nodes(st)[0]
        seqs = [('out',) + o for n in (1, 2, 3) for o in it.product((B, L), repeat=n)]
        tests = [None, ('equal', ('clip', 1, 'tl' if st == 't' else None, 'lem'), ('lit', 'a2'))]
        suite('several outputs', st, lambda: (prog(st, 3, [x, ('choose', ((tests[1], (y,)),), None) if t else y]) for x in seqs for y in seqs[:6] for t in tests), d3)
        suite('many blanks', st, lambda: (prog(st, n, [('out',) + o]) for n in (1, 2, 3) for o in it.product((B, L), repeat=ctx.pick(4, 6))), d3)
        # rejection: nothing written so far is lost or repeated
        R = [('reject', x) for x in ('no', 'yes', '1', '2', '3')]

        def rej():
            cond = ('equal', ('clip', 1, 'sl' if st == 't' else None, 'whole'), ('lit', 'a<n>'))
            for r3 in R:
                for r2 in [None] + R[:4]:
                    for o in (('out', L, B, L), ('out', L), ('out', B, B)):
                        yield prog(st, 1, [('out', L)], more=[(('A',) * 3, [r3]), (('A',) * 2, [r2] if r2 else [o])])
                        yield prog(st, 2, [o, r2] if r2 else [o], more=[(('A',) * 3, [('choose', ((cond, (r3,)),), (o,))])])
                        yield prog(st, 3, [o, r3])
        dr = d3 + docs(st, 4, (1, 2) if q else (0, 1, 2, 3))
        if st == 't':
            suite('rejection', st, lambda: (p for p in rej() if not late_no(p)), dr)
        else:
            suite('rejection', st, lambda: (p for p in rej() if not late_no(p)), dr)
        suite('no rule', st, lambda: [prog(st, 1, [], default=d, more=[(('A',) * 9, [('out', L)])]) for d in ((None, 'chunk') if st == 't' else (None,))], docs(st, 2, range(7)) + docs(st, 3, range(5)))
    # postchunk: blanks around and inside chunks
    cs = [c for n in (0, 1, 2, 3) for c in inners(n, range(7) if n < 3 else (0, 1, 2, 3, 5) if q else range(7))]
    dp = [BL[b](7) + word('p', x, 0, c) + BL[e](8) + word('p', y, 9) for c in cs for x, b, e in (('a', 2, 3), ('a', 0, 0), ('z', 5, 1)) for y in 'az']
    suite('chunk outputs', 'p', lambda: (prog('p', 1, [('out',) + o]) for o in outs('p', 2)), dp)
    suite('chunk outputs, long', 'p', lambda: (prog('p', 1, [('out',) + o]) for o in it.product((('b',), ('lu', LIT(1))), repeat=ctx.pick(4, 6))), dp)
    cw = [c for n in (1, 2, 3) for c in inners(n, range(7) if n < 2 else (0, 2, 6), True)]
    dw = [BL[b](7) + word('p', x, 0, c) + BL[e](8) for c in cw for x, b, e in (('a', 2, 3), ('z', 5, 1))]
    suite('chunk outputs, word-bound', 'p', lambda: (prog('p', 1, [('out',) + o]) for n in (2, 3, 4) for o in it.product((('b',), ('lu', ('clip', 1, None, 'whole')), ('lu', ('clip', 2, None, 'whole')), ('b', 2)), repeat=n)
          if n < 4 or o[0][0] == 'lu'), dw)
    x = [('out',) + o for n in (0, 1, 2) for o in it.product((('b',), ('lu', LIT(1))), repeat=n)]
    c2 = [('equal', ('lu-count',), ('lit', '2'))]
    suite('several outputs', 'p', lambda: (prog('p', 1, [a, ('choose', ((c2[0], (b,)),), (c,))]) for a in x for b in x for c in (x[0], x[-1])), dp)

    # long documents: many blanks, longer than any buffer of the reader
    def gen():
        for st in 'tip':
            for n in (1, 2, 3) if st != 'p' else (1,):
                for b in range(7):
                    for o in ((), ('b',), ('b', 'b', 'b')):
                        yield st, n, b, o

    def fn(w, blk):
        for st, n, b, o in blk:
            p = prog(st, n, [('out', nodes(st)[0]) + tuple((x,) for x in o)])
            d = ''.join(BL[b](k) + word(st, 'aaz'[k % 3] if k % 7 else 'z', k) for k in range(1500)) + BL[2](9)
            trun.compare(w, st, p, [d])
            if w.enough:
                return
    ctx.parallel('long documents', gen, fn, 1)


def late_no(p):
    """output followed by a rejection that re-reads everything writes that output twice by definition"""
    for pat, ins in p['rules']:
        if len(ins) == 2 and ins[0][0] == 'out' and ins[1] == ('reject', 'no') and any(x[0] in ('b', 'concat') for x in ins[0][1:]):
            return True
        if len(ins) == 2 and ins[0][0] == 'out' and ins[1][0] == 'reject' and any(x[0] in ('b', 'concat') for x in ins[0][1:]):
            return True
    return False
