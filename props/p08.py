"""P08: word-bound blanks go with the words they belong to."""
import itertools as it
import re
import trun

WB = [lambda k: '', lambda k: '[[t:b:%d]]' % k, lambda k: '[[t:i:\\]%d; t:u:\\[x\\\\]]' % k]


def unit(stage, x, k, wb):
    if stage == 't':
        return WB[wb](k) + '^%s<n>/%s%d<n><sg>$' % (x, x, k)
    return WB[wb](k) + '^%s%d<n><1>$' % (x, k)


def docs(stage, n, kinds, letters='az', seps=(' ',)):
    r = []
    for ws in it.product(letters, repeat=n):
        for bs in it.product(kinds, repeat=n):
            for s in seps:
                r.append(''.join((s if k else '') + unit(stage, x, k + 1, bs[k]) for k, x in enumerate(ws)))
    return r


def chunks(n, kinds, seps):
    return [s.join(unit('p', 'w', k + 1, b) for k, b in enumerate(bs)) for bs in it.product(kinds, repeat=n) for s in seps]


def prog(stage, npat, ins, default=None, macros=()):
    if stage == 't':
        cats, pat = [('A', [('a', 'n')])], ('A',) * npat
    else:
        cats, pat = [('A', [('a', None)])], ('A',)
    d = dict(cats=cats, attrs=[('num', ['sg', 'pl'])], vars=[('v', ''), ('u', 'U')], rules=[(pat, list(ins))], macros=list(macros))
    if default:
        d['default'] = default
    return d


def C(stage, k, part='lem'):
    return ('clip', k, 'tl' if stage == 't' else None, part)


def contents(stage, n):
    """contents of one lexical unit built from up to n words"""
    c = lambda k, p='lem': C(stage, k, p)
    r = [(c(k),) for k in range(1, n + 1)] + [(('lit', 'L'),), (('var', 'v'),), (c(1, 'whole'),), (c(1, 'lemh'), c(1, 'tags')), (('lit', 'L'), c(1, 'num')), (('concat', c(1), ('lit', 'x')),), (('get-case-from', 1, c(1)),)]
    if stage == 't':
        r += [(('clip', 1, 'sl', 'lem'),)]
    if n > 1:
        r += [(c(1), c(2)), (c(2), ('lit', '_'), c(1)), (c(n), c(1, 'tags')), (('get-case-from', 2, c(1)),), (('concat', c(n), ('concat', c(1))),), (('var', 'v'), c(2)), (c(1), ('var', 'u'))]
    if n > 2:
        r += [(c(1), c(3), c(2))]
    return r


def lets(stage, n):
    c = lambda k, p='lem': C(stage, k, p)
    L = [('let', ('var', 'v'), c(1)), ('let', ('var', 'v'), ('lit', 'X')), ('append', 'u', c(n)), ('let', ('var', 'u'), ('concat', c(1), c(n))), ('append', 'v', c(1), ('lit', '.')), ('let', c(n), ('lit', 'new')), ('modify-case', c(1), ('lit', 'AA')),
         ('call', 'm', (n,))]
    return L


def macros(stage):
    return [('m', 1, [('let', ('var', 'v'), C(stage, 1)), ('out', ('lu', C(stage, 1)), ('b',))])]


def run(ctx):
    ctx.rule = ('every list of output units (taking lemmas from any words, through variables, concatenations, joined units, chunks and macros) up to the bound on every word sequence with every '
                'assignment of word-bound blanks; output compared with the reference interpreter')
    ctx.need('apertium-preprocess-transfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk')
    q = ctx.quick
    loose = re.compile(r'\]\](?!\^)')

    def suite(name, stage, gen, dd, opts=(), block=2):
        def fn(w, blk):
            for p in blk:
                trun.compare(w, stage, p, dd, opts)
                if w.enough:
                    return
        ctx.parallel(name + ' ' + stage + ''.join(opts), gen, fn, block)

    def outs(stage, n, k):
        cs = contents(stage, n)
        for x in it.product(cs, repeat=k):
            yield [('out',) + tuple(y for c in x for y in (('lu',) + c, ('b',)))]

    for n in (1, 2, 3):
        dd = docs('t', n, (0, 1, 2)) + docs('t', n + 1, (0, 1)) + docs('t', min(2 * n, 4), (0, 1) if q else (0, 1, 2), letters='a')
        suite('units, %d words' % n, 't', lambda: (prog('t', n, x) for k in (1, 2) for x in outs('t', n, k)), dd)
        cs = contents('t', n)
        suite('joined units, %d words' % n, 't', lambda: (prog('t', n, [('out', ('mlu',) + tuple(('lu',) + c for c in x), ('b',), ('lu',) + y)]) for k in (1, 2) for x in it.product(cs, repeat=k) for y in ((cs[0], cs[n]) if k == 2 else cs)), dd)
        suite('chunks, %d words' % n, 't', lambda: (prog('t', n, [('out', ('chunk', (('name', 'c'),), (('lit-tag', 'S'),)) + tuple(('lu',) + c for c in x), ('b',), ('chunk', (('name', 'd'),), (), ('mlu',) + tuple(('lu',) + c for c in x)))], default='chunk')
                                                    for k in (1, 2) for x in it.product(cs, repeat=k)), dd)
        fin = [[('out', ('lu', ('var', 'v')), ('b',), ('lu', ('var', 'u'))), ('out', ('lu', C('t', n)))], [('out', ('lu', ('var', 'u'), ('var', 'v'))), ('out', ('mlu', ('lu', ('var', 'v')), ('lu', C('t', 1))), ('lu', ('var', 'u')))]]
        suite('variables, %d words' % n, 't', lambda: (prog('t', n, list(x) + f, macros=macros('t')) for k in (1, 2, 3) for x in it.product(lets('t', n), repeat=k) for f in fin), dd if q is False else dd[::1] if n == 1 else docs('t', n, (0, 1)) + docs('t', 2 * n, (0, 1), letters='a')[:256])
    # conditional output: the same unit from different words
    suite('conditional', 't', lambda: (prog('t', 2, [('choose', ((('equal', C('t', 1), ('lit', 'a1')), (('out', ('lu',) + a),)),), (('out', ('lu',) + b),)), ('out', ('lu',) + c)])
                                      for a in contents('t', 2) for b in contents('t', 2)[:5] for c in contents('t', 2)[:3]), docs('t', 2, (0, 1, 2)) + docs('t', 4, (0, 1), letters='a'))
    # default action only
    for d in (None, 'chunk'):
        suite('no rule %s' % d, 't', lambda: [prog('t', 5, [('out', ('lu', ('lit', 'x')))], default=d)], docs('t', 4, (0, 1, 2), seps=(' ', '', '[x]', '\\[')))
    suite('no lookup', 't', lambda: (prog('t', 2, x) for k in (1, 2) for x in outs('t', 2, k)), [re.sub(r'/[^$]*', '', d) for d in docs('t', 2, (0, 1, 2)) + docs('t', 3, (0, 1))], opts=('-n',))
    # postchunk: word-bound blanks inside the chunk
    for n in (0, 1, 2, 3):
        seps = (' ', '', '[x] ') if n > 1 else (' ',)
        dd = ['^%s<N>{%s}$' % (x, c) for c in chunks(n, (0, 1, 2), seps) for x in ('a', 'z', 'A')]
        dd += ['^a<N>{%s}$ ^a<M>{%s}$' % (c, e) for c in chunks(n, (0, 1), seps[:1]) for e in chunks(min(n, 2), (0, 1), seps[:1])]
        suite('chunk words, %d' % n, 'p', lambda: (prog('p', 1, x) for k in (1, 2) for x in outs('p', max(n, 1), k)), dd)
        cs = contents('p', max(n, 1))
        suite('joined chunk words, %d' % n, 'p', lambda: (prog('p', 1, [('out', ('mlu',) + tuple(('lu',) + c for c in x), ('b',), ('lu',) + cs[0])]) for k in (1, 2) for x in it.product(cs, repeat=k)), dd)
        m = max(n, 1)
        fin = [[('out', ('lu', ('var', 'v')), ('b',), ('lu', ('var', 'u'))), ('out', ('lu', C('p', m)))]]
        suite('chunk variables, %d' % n, 'p', lambda: (prog('p', 1, list(x) + f, macros=macros('p')) for k in (1, 2) for x in it.product(lets('p', m), repeat=k) for f in fin), dd)
    # interchunk never touches them
    wbchunks = ['^%s<N>{%s}$' % (x, c) for x in 'az' for n in (0, 1, 2) for c in chunks(n, (0, 1, 2), (' ', '[x]'))]
    iprogs = [[('out', ('chunk', (), None, ('clip', 1, None, 'whole')))], [('out', ('chunk', (), None, ('clip', 2, None, 'whole')), ('b',), ('chunk', (), None, ('clip', 1, None, 'whole')))],
              [('out', ('chunk', (), None, ('clip', 1, None, 'lem'), ('lit', '{'), ('clip', 1, None, 'content'), ('b',), ('clip', 2, None, 'content'), ('lit', '}')))]]
    cats = [('A', [('a', 'N')])]
    suite('interchunk', 'i', lambda: [dict(cats=cats, attrs=[('num', ['sg'])], vars=[('v', '')], rules=[(('A', 'A'), x)]) for x in iprogs], [a + ' ' + b for a in wbchunks for b in wbchunks])
