"""P09: interchunk moves and edits chunks and never touches their contents."""
import itertools as it
import trun

PIECES = ['^x$', '^Y<n><1>$', ' ', '[b]', '\\}', '\\{', '[[t:i:1]]^z<2>$', '[a\\]}$^{]', '^a\\$\\}b$', '~', '\\$', '}', '{', '\\\\', '^q/r$', '^<3>$', 'é\U0001F600', '<t>', '\n']
HEADS = ['a<N><x>', 'Ab<N>', 'z<V>', 'a\\<b\\{<N>', 'a', '*u', 'a# q<N><y>']


def bodies(n, pieces=PIECES):
    for k in range(n + 1):
        for t in it.product(pieces, repeat=k):
            yield ''.join(t)


def ok(b):
    """'}' directly before the closing '}$' would end the contents earlier"""
    return '}$' not in b.replace('\\\\', '').replace('\\}', '').replace('\\$', '')[:] or '}$^{]' in b


def clip(k, part):
    return ('clip', k, None, part)


def ch(*x):
    return ('chunk', (), None) + x


def programs():
    w1, w2 = clip(1, 'whole'), clip(2, 'whole')
    P = [
        (1, [('out', ch(w1))]),
        (1, [('out', ch(clip(1, 'lem'), clip(1, 'tags'), clip(1, 'chcontent')))]),
        (1, [('out', ch(clip(1, 'lem'), clip(1, 'tags'), ('lit', '{'), clip(1, 'content'), ('lit', '}')))]),
        (1, [('let', clip(1, 'lem'), ('lit', 'new')), ('out', ch(w1))]),
        (1, [('let', clip(1, 'tags'), ('lit-tag', 'NEW')), ('out', ch(w1))]),
        (1, [('let', clip(1, 'num'), ('lit-tag', 'NEW')), ('out', ch(w1), ('b',), ch(w1))]),
        (1, [('modify-case', clip(1, 'lem'), ('lit', 'AA')), ('out', ch(w1))]),
        (1, [('let', ('var', 'v'), clip(1, 'content')), ('out', ch(('lit', 'c{'), ('var', 'v'), ('lit', '}')))]),
        (1, [('let', ('var', 'v'), clip(1, 'whole')), ('out', ch(('var', 'v')))]),
        (1, [('append', 'v', clip(1, 'content'), ('lit', ' ')), ('out', ch(('lit', 'c{'), ('var', 'v'), ('lit', '}')))]),
        (1, [('let', clip(1, 'content'), ('lit', 'dropped')), ('out', ch(w1))]),
        (2, [('out', ch(w2), ('b',), ch(w1))]),
        (2, [('out', ch(clip(1, 'lem'), clip(2, 'tags'), ('lit', '{'), clip(1, 'content'), ('b',), clip(2, 'content'), ('lit', '}')))]),
        (2, [('out', ch(clip(2, 'lem'), ('lit', '{'), clip(2, 'content'), clip(1, 'content'), ('lit', '}')), ('b',), ch(clip(1, 'lem'), clip(1, 'chcontent')))]),
        (2, [('call', 'm', (2,)), ('out', ch(w1), ('b',), ch(w2))]),
        (2, [('choose', ((('equal', clip(1, 'content'), clip(2, 'content')), (('out', ch(('lit', 'same'))),)), (('contains-substring', clip(1, 'content'), ('lit', 'x')), (('out', ch(clip(1, 'lem'), clip(1, 'chcontent'))),))), (('out', ch(w2)),))]),
    ]
    macros = [('m', 1, [('let', clip(1, 'lem'), ('lit', 'mac')), ('let', clip(1, 'num'), ('lit-tag', 'q')), ('out', ch(clip(1, 'whole')), ('b',))])]
    for n, ins in P:
        yield dict(cats=[('A', [(None, '*'), (None, ''), ('a', 'N.*')])] if False else [('A', [(None, '*')])], attrs=[('num', ['x', 'y', 'N'])], vars=[('v', '')], macros=macros, rules=[(('A',) * n, ins)])


NORULE = dict(cats=[('A', [('nosuch', 'N')])], attrs=[('num', ['x'])], vars=[('v', '')], rules=[(('A',), [('out', ch(('lit', 'x')))])])


def run(ctx):
    ctx.rule = ('every chunk whose contents are any sequence of the stated pieces up to the bound, under rules that copy, swap, merge, edit, compare and drop chunks, and under no rule; '
                'output compared with the reference interpreter')
    ctx.need('apertium-preprocess-transfer', 'apertium-interchunk')
    q = ctx.quick
    SEP = [' ', '', '[x]', '\\^t ', '[\\]^{]\n']

    def cases(n, heads, seps, pair):
        r = []
        for b in bodies(n):
            if not ok(b):
                continue
            for h in heads:
                c = '^%s{%s}$' % (h, b)
                if not pair:
                    r.append(c)
                else:
                    for s in seps:
                        r.append(s + c + s + '^z<V>{^o$}$' + s + c)
        return r

    def suite(name, progs, dd, opts=(), size=4000):
        work = [(p, i) for p in progs for i in range(0, len(dd), size)]

        def fn(w, blk):
            for p, i in blk:
                trun.compare(w, 'i', p, dd[i:i + size], opts)
                if w.enough:
                    return
        ctx.parallel(name, lambda: work, fn, 1)
    P = list(programs())
    one = [p for p in P if len(p['rules'][0][0]) == 1]
    two = [p for p in P if len(p['rules'][0][0]) == 2]
    suite('no rule', [NORULE], cases(ctx.pick(3, 4), HEADS[:1], SEP, False) + cases(2, HEADS, SEP, True))
    suite('one chunk', one, cases(ctx.pick(2, 3), HEADS, SEP, False))
    suite('two chunks', two, cases(ctx.pick(2, 3), HEADS[:2] if q else HEADS, SEP[:2], True))
    suite('separators', two, cases(1, HEADS, SEP, True))
    few = ['^x$', '^Y<1>$', ' ', '[}]', '\\}', '[[t:i:1]]^z$']
    dd = ['^a<N>{%s}$%s^b<N><x>{%s}$' % (a, s, b) for a in bodies(2, few) for b in bodies(2, few) for s in (' ', '[s]')]
    suite('pairs of contents', two, dd)
    suite('dictionary case', one, cases(1, HEADS, SEP, True), opts=('-w',))
    # contents far longer than any internal buffer
    long = ['^a<N><x>{%s}$' % (p * 1500) for p in PIECES if ok(p * 2)]
    suite('long contents', P + [NORULE], long + [' '.join(long[:3])])
