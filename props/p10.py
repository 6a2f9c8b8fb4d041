"""P10: postchunk resolves numbered tags, case and defaults of every chunk."""
import itertools as it
import trun

LEMMAS = ['abc', 'Abc', 'ABC', 'a', 'A', 'É', 'ñ', 'ÉÑ', '1A', 'aB', 'Ab c', 'A\\<B', '*Abc', '\\^Ab', '', 'aBC']
TAGS = ['', '<T>', '<T><u>', '<T><2><w>', '<a><b><c><d><e><f><g><h><i><j><k>']
WORDS = ['^x<1>$', '^Yz<n><2><3>$', '^éa# bC<1>$', '^a\\<b\\/c<0><4>$', '^q$', '^*Unk$', '^<11><10>$', '^"x<n>$', '^x<t1><99>$', '^a/b<2>$', '[[t:i:x]]^w<1>$', '^a<1>+b<2>$', '^xYZ<n>$', '^1x$', '^\\@x<n><1><1>$']
BLANKS = [' ', '', '[x]', '\\^', ' [aB\\]] ', 'Tx', '~', '\\}']


def chunk(l, t, b):
    return '^%s%s{%s}$' % (l, t, b)


def clip(k, part):
    return ('clip', k, None, part)


def lu(*x):
    return ('lu',) + x


def rules():
    w = clip(1, 'whole')
    R = [
        [('out', lu(w), ('b',), lu(clip(2, 'whole')), ('b',), lu(clip(3, 'whole')))],
        [('out', lu(clip(2, 'whole')), ('b',), lu(w))],
        [('out', lu(clip(1, 'lem'), clip(0, 'tags')), ('b',), lu(clip(0, 'whole')))],
        [('let', clip(1, 'lem'), ('lit', 'new')), ('let', clip(0, 'lem'), ('lit', 'Zero')), ('out', lu(w), ('b',), lu(clip(0, 'lem')))],
        [('choose', ((('equal', ('lu-count',), ('lit', '1')), (('out', lu(('lit', 'one'), ('lu-count',)), ('b',), lu(w)),)), (('equal', ('lu-count',), ('lit', '2')), (('out', lu(clip(2, 'whole'))),))), (('out', lu(('lit', 'n'), ('lu-count',))),))],
        [('modify-case', clip(1, 'lem'), ('case-of', 0, None, 'lem')), ('out', lu(w), ('b',), lu(clip(2, 'lem'), ('lit-tag', 'q')))],
        [('call', 'm', (1,)), ('call', 'm', (2,)), ('out', lu(('var', 'v')))],
        [('out', ('mlu', lu(w), lu(clip(2, 'lemh'), clip(2, 'tags')), lu(clip(2, 'lemq'))), ('b',))],
        [('out', lu(('get-case-from', 1, ('lit', 'fOo')), ('lit-tag', 'n')))],
    ]
    macros = [('m', 1, [('append', 'v', clip(1, 'lem'), ('lit', '_')), ('out', lu(('lit', 'm'), clip(1, 'num'))), ('let', clip(1, 'num'), ('lit-tag', 'M'))])]
    for ins in R:
        yield dict(cats=[('A', [('abc', None), ('é', None), ('a', None), ('xyz*', None), ('', None)][:4])], attrs=[('num', ['T', 'n', 'n.T'])], vars=[('v', '')], macros=macros, rules=[(('A',), ins)])


NORULE = dict(cats=[('A', [('nosuch', None)])], attrs=[('num', ['x'])], vars=[('v', '')], rules=[(('A',), [('out', lu(('lit', 'x')))])])


def contents(n, words, blanks):
    for k in range(n + 1):
        for ws in it.product(words, repeat=k):
            for bs in it.product(blanks, repeat=k + 1):
                yield bs[0] + ''.join(a + b for a, b in zip(ws, bs[1:]))


def run(ctx):
    ctx.rule = ('every chunk built from the stated lemma shapes, tag lists, words (with numbered tags in and out of range) and blanks up to the bound, without a rule and with rules of every kind; '
                'output compared with the reference model of chunk resolution')
    ctx.need('apertium-preprocess-transfer', 'apertium-postchunk')
    q = ctx.quick

    def suite(name, progs, dd, opts=(), size=4000):
        work = [(p, i) for p in progs for i in range(0, len(dd), size)]

        def fn(w, blk):
            for p, i in blk:
                trun.compare(w, 'p', p, dd[i:i + size], opts)
                if w.enough:
                    return
        ctx.parallel(name + ''.join(opts), lambda: work, fn, 1)
    R = list(rules())
    # the chunk name decides rule and case
    name = [chunk(l, t, b) for l in LEMMAS if l for t in TAGS[:3] for b in ('^xY<1>$ ^z<2>$', '^\\"x$', '^1b<1>$[A]^c$', '')]
    name += [a + ' ' + b for a in name[:40:3] for b in name[::5]]
    one = [chunk(l, t, b) for l in ('abc', 'Abc', 'ABC') for t in TAGS for b in contents(1, WORDS, BLANKS)]
    two = [chunk(l, t, b) for l, t in it.product(('abc', 'Abc', 'ABC'), TAGS[1:4] if q else TAGS) for b in contents(2, WORDS, BLANKS[:1] if q else BLANKS[:3])]
    few = [WORDS[0], WORDS[1], WORDS[3], WORDS[10]]
    three = [chunk(l, '<T><u>', b) for l in ('abc', 'Abc', 'ABC') for b in contents(3, few, BLANKS[:2] if q else BLANKS[:5])]
    seqs = ['[0]'.join(p) + ' ' for p in it.product([chunk(l, '<T>', b) for l in ('abc', 'Abc', 'zzz') for b in ('^x<1>$', '', '^Y<2>$ ^z$')], repeat=ctx.pick(2, 3))]
    for o in ((), ('-w',)):
        suite('no rule', [NORULE], name + one + two + three + seqs, o)
        suite('rules, names', R, name + seqs, o)
        suite('rules, one word', R, one if not q or not o else one[:0] + [c for c in one if c.startswith('^A')], o)
        suite('rules, more words', R, (two + three) if not q else [c for c in two if '<T><u>{' in c] + three, o) if not (q and o) else None
    # every digit form of a numbered tag, with lists of up to 12 tags
    num = ['0', '1', '2', '9', '10', '11', '12', '13', '007', '2147483647']
    tl = ['<%s>' % ('t%d' % k if k % 3 else str(k)) for k in range(1, 13)]
    dd = [chunk('abc', ''.join(tl[:k]), '^w<%s><n><%s>$' % (a, b)) for k in range(13) for a in num for b in num]
    suite('tag numbers', [NORULE] + R[:2], dd)
    # capitalisation: where the first letter is
    caps = [''.join(p) for n in (1, 2, 3) for p in it.product(['a', 'É', '1', '"', '\\^', 'ß', ' ', '#'], repeat=n)]
    dd = [chunk(l, '', '^%s<n>$ ^%s$' % (a, b)) for l in ('abc', 'Abc', 'ABC') for a in caps for b in ('x', '"y')]
    suite('first letter', [NORULE, R[1]], dd)
    long = [chunk(l, '<T><u>', ' '.join(WORDS * 200)) for l in ('abc', 'Abc', 'zz')]
    suite('long chunks', [NORULE] + R, long)
