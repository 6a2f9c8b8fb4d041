"""P06: what an attribute clip selects and replaces."""
import itertools
import trun
from p04 import tagseqs


def lu(*x):
    return ('out', ('lu',) + x)


def prog(stage, attrs, parts):
    """clip every part, then assign to it and show the whole word"""
    ins = []
    if stage == 't':
        cats = [('A', [(None, '*'), ('*', '*')])]
        for p in parts:
            for side in ('sl', 'tl', 'ref'):
                c = ('clip', 1, side, p)
                ins += [lu(('lit', '%s-%s:' % (p, side)), c), ('let', ('var', 'v'), ('clip', 1, side, 'whole')),
                        ('let', c, ('lit-tag', 'Z')), lu(('lit', 'set:'), ('clip', 1, side, 'whole')),
                        ('let', ('clip', 1, side, 'whole'), ('var', 'v')),
                        ('let', c, ('lit', '')), lu(('lit', 'del:'), ('clip', 1, side, 'whole')),
                        ('let', ('clip', 1, side, 'whole'), ('lit', 'W')), ('let', ('clip', 1, side, 'whole'), ('var', 'v'))]
    else:
        pos = 1
        cats = [('A', [('*', '*')])]
        o = (lambda *x: ('out', ('chunk', (), None) + x)) if stage == 'i' else lu
        for p in parts:
            c = ('clip', pos, None, p)
            ins += [o(('lit', p + ':'), c), ('let', c, ('lit-tag', 'Z')), o(('lit', 'set:'), ('clip', pos, None, 'whole'))]
            if stage == 'p':
                c = ('clip', 0, None, p)
                ins += [o(('lit', p + ':'), c), ('let', c, ('lit-tag', 'Z')), o(('lit', 'set:'), ('clip', 0, None, 'whole'))]
    return dict(cats=cats, attrs=attrs, vars=[('v', '')], rules=[(('A',), ins)])


def run(ctx):
    ctx.rule = ('every attribute definition of the family, read and assigned on every word over the stated tags up to the bound; '
                'compared with a direct leftmost / longest-listed selection on the tag list')
    ctx.need('apertium-preprocess-transfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk')

    def tags(alpha, n):
        return [''.join('<%s>' % x for x in t) for t in tagseqs(alpha, 0, n)]

    def docs(stage, ts):
        if stage == 't':
            return ['^a%s/b%s/c%s$' % (t, u, v) for t, u, v in zip(ts, ts[7:] + ts[:7], ts[13:] + ts[:13]) if t]
        if stage == 'i':
            return ['^a%s{^b<n>$}$' % t for t in ts if t]
        return ['^a%s{^b%s$ ^c<1>$}$' % (t, u) for t, u in zip(ts, ts[7:] + ts[:7])]

    def suite(name, stage, defs, dd, block=4):
        def fn(w, blk):
            for d in blk:
                trun.compare(w, stage, prog(stage, [('x', list(d))], ['x']), dd)
                if w.enough:
                    return
        ctx.parallel(name, defs, fn, block)
    base = ['.'.join(t) for t in tagseqs(['n', 'nm', 'm'], 1, 2)] + ['n.n.n', 'n.m.n', 'nm.n.m']
    some = ['n', 'nm', 'mn', 'n.m', 'nm.n', 'm', 'n.nm']
    wt = tags(['n', 'nm', 'm', 'x'], 4)
    it = itertools
    suite('listed tags t', 't', lambda: it.chain(it.combinations(base, 1), it.permutations(base, 2), (it.combinations if ctx.quick else it.permutations)(base, 3)), docs('t', wt))
    for st in 'ip':
        suite('listed tags ' + st, st, lambda: it.chain(it.combinations(some, 1), it.permutations(some, 2), it.combinations(some, 3)), docs(st, wt))
    # four and more: the definition is compiled into nested alternatives
    suite('long definitions', 't', lambda: it.chain(it.combinations(some, 4), it.combinations(some, 5), it.combinations(['p', 'p1', 'p2', 'p3', 'p12', 'p1.p2', '1p'], 4)),
          docs('t', tags(['n', 'nm', 'm', 'p', 'p1', 'p2', 'p12'], 2)))
    # one name the beginning, the end or the middle of another, by one or more letters
    names = [''.join(t) for n in range(1, 5) for t in it.product('ab', repeat=n)]
    names4 = names if not ctx.quick else [n for n in names if len(n) < 4] + ['aaaa', 'aaab', 'abab', 'baaa', 'abba']
    suite('spellings', 't', lambda: it.chain(it.permutations(names, 2), it.combinations(names4, 3), ((a + '.' + b, c) for a in names[:6] for b in names[:6] for c in names), it.combinations(['a', 'aba', 'ab', 'b.a', 'aba.b', 'abab', 'a.ab'], 4)),
          docs('t', [''.join('<%s>' % t for t in x) for x in [(n,) for n in names + ['aaaaa', 'c']] + list(it.product(names[:6], repeat=2))]), 16)
    # tag names with characters special to regular expressions
    sp = ['1', '-', '9', 'a|b', '(x', 'p+', 'é', '😀', 'x?', '[y', '^z', 'a*', ']', '&&', '\\\\', '$q', '{2}', '+', '|']
    wsp = tags([x for x in sp if x not in ('\\\\', '[y', ']', '^z', '$q')] + ['5', 'a', 'b', 'x', 'xx', 'p', 'pp', '', 'aa', ',', '&'], 1) + tags(['-', '1', '5', 'a', 'a|b', 'p'], 2)
    wsp = sorted(set(t for t in wsp if '<>' not in t))
    suite('special characters', 't', lambda: it.chain(it.combinations(sp, 1), it.permutations(sp, 2), it.combinations(sp, 3)), docs('t', wsp))

    # predefined parts on every lemma with and without queue
    lems = [''.join(t) for n in range(1, ctx.pick(4, 5)) for t in it.product(['a', ' ', 'É', '-', '+'], repeat=n)]
    words = [l + q + t + r for l in lems for q in ('', '# b', '#_b', '#-b c') for t in ('<n>', '<n><m>') for r in ('',)] + [l + '<n># b' for l in lems]

    def fn(w, blk):
        trun.compare(w, 't', prog('t', [('x', ['n'])], ['lem', 'lemh', 'lemq', 'tags', 'whole']),
                     ['^%s/%s/%s$' % (x, y, z) for x, y, z in zip(blk, blk[1:] + blk[:1], blk[2:] + blk[:2])])
        trun.compare(w, 'i', prog('i', [('x', ['n'])], ['lem', 'tags', 'whole', 'lemh', 'lemq']), ['^%s{^q<n>$}$' % x for x in blk])
        trun.compare(w, 'p', prog('p', [('x', ['n'])], ['lem', 'tags', 'whole', 'lemh', 'lemq']), ['^%s{^%s$ ^c$}$' % (x, y) for x, y in zip(blk, blk[1:] + blk[:1])])
    ctx.parallel('predefined parts', lambda: words, fn, 150)
