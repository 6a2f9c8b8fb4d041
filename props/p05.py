"""P05: rule actions against a direct interpreter of the rule language."""
import itertools as it
import trun

ATTRS = [('num', ['sg', 'pl']), ('pos', ['n', 'v.p', 'v'])]
LISTS = [('l1', ['abc', 'Xy', 'ab']), ('l2', ['c', 'YZ', 'q']), ('l3', ['sg'])]
VARS = [('v', ''), ('u', 'Init'), ('k', 'AA')]


def P(stage, ins, macros=(), default=None, npat=2):
    cats = [('W', [('*', None)])] if stage == 'p' else [('W', [(None, '*')])]
    d = dict(cats=cats, attrs=ATTRS, vars=VARS, lists=LISTS, macros=list(macros), rules=[(('W',) * (1 if stage == 'p' else npat), list(ins))])
    if default:
        d['default'] = default
    return d


WORDS = {
    't': ['^abc<n><sg>/xyz<n><pl>/rf<v><p><sg>$', '^Abc<v><p><pl># q/Xy<v># zw$', '^ABC<n>/@ABC<n>$', '^q# ab<v><sg>/YZ<sg>$', '^*abc/*abc$', '^a\\/b<n><sg>/c<n>/d<n>$'],
    'i': ['^abc<n><sg>{^x<1>$}$', '^Abc<v><p><pl>{^y$ ^z<2>$}$', '^XY<n>{}$', '^q# ab<v><sg>{^a\\}b$}$'],
    'p': ['^abc<n><sg>{^xyz<n><2>$ ^Q<sg>$}$', '^Abc<v><p>{^xy<v><1>$[b]^c# d<sg>$}$', '^XY<n>{^aBc<pl>$ ^d$ ^e<n>$}$'],
}


def docs(stage):
    w = WORDS[stage]
    if stage == 'p':
        return list(w) + [' '.join(w) + ' ' + w[0]]
    d = [a + b + c for i, (a, c) in enumerate(it.product(w, repeat=2)) for b in ([' ', '[<i>] '][i % 2],)]
    return d + [' '.join(d)]


# expressions ---------------------------------------------------------------
def exprs(stage, small=False):
    if stage == 't':
        e = [('lit', 'L'), ('lit-tag', 'n.sg'), ('var', 'u'), ('clip', 1, 'sl', 'lem'), ('clip', 1, 'tl', 'lem'), ('clip', 2, 'tl', 'whole'), ('clip', 2, 'sl', 'num'), ('clip', 1, 'tl', 'pos'),
             ('clip', 1, 'tl', 'num', '3'), ('case-of', 1, 'sl', 'lem'), ('get-case-from', 1, ('lit', 'ab cD')), ('concat', ('lit', 'x'), ('clip', 1, 'tl', 'lem'), ('lit-tag', 'k'))]
        if not small:
            e += [('lit', ''), ('var', 'v'), ('clip', 1, 'sl', 'whole'), ('clip', 1, 'ref', 'whole'), ('clip', 2, 'ref', 'num'), ('clip', 2, 'sl', 'tags'), ('clip', 2, 'tl', 'lemh'), ('clip', 2, 'tl', 'lemq'), ('clip', 2, 'sl', 'lemq'),
                  ('clip', 2, 'sl', 'pos', 'zz'), ('clip', 1, 'ref', 'num', '1'), ('case-of', 2, 'tl', 'lem'), ('case-of', 1, 'ref', 'lem'), ('case-of', 1, 'sl', 'num'), ('get-case-from', 2, ('clip', 1, 'tl', 'lem')),
                  ('get-case-from', 1, ('concat', ('clip', 2, 'sl', 'lem'), ('lit-tag', 'n.sg'))), ('concat', ('var', 'u'), ('concat', ('lit', '-'), ('var', 'u')))]
    elif stage == 'i':
        e = [('lit', 'L'), ('lit-tag', 'n.sg'), ('var', 'u'), ('clip', 1, None, 'lem'), ('clip', 2, None, 'whole'), ('clip', 2, None, 'num'), ('case-of', 1, None, 'lem'), ('get-case-from', 1, ('lit', 'ab cD')),
             ('concat', ('lit', 'x'), ('clip', 1, None, 'lem'), ('lit-tag', 'k')), ('clip', 1, None, 'content')]
        if not small:
            e += [('clip', 2, None, 'chcontent'), ('clip', 2, None, 'tags'), ('lit', ''), ('var', 'v'), ('clip', 1, None, 'lemq'), ('get-case-from', 2, ('clip', 1, None, 'lem')), ('case-of', 2, None, 'num')]
    else:
        e = [('lit', 'L'), ('lit-tag', 'n.sg'), ('var', 'u'), ('clip', 1, None, 'lem'), ('clip', 2, None, 'whole'), ('clip', 2, None, 'num'), ('clip', 0, None, 'lem'), ('clip', 0, None, 'num'), ('lu-count',), ('case-of', 1, None, 'lem'),
             ('get-case-from', 1, ('lit', 'ab cD')), ('concat', ('lit', 'x'), ('clip', 1, None, 'lem'), ('lit-tag', 'k'))]
        if not small:
            e += [('clip', 0, None, 'tags'), ('clip', 0, None, 'whole'), ('clip', 2, None, 'lemq'), ('clip', 1, None, 'pos'), ('lit', ''), ('case-of', 0, None, 'lem'), ('get-case-from', 2, ('clip', 1, None, 'lem'))]
    return e


def lu(stage, *x):
    return ('out', (('chunk', (), None) if stage == 'i' else ('lu',)) + x)


def clip(stage, pos, side, part):
    return ('clip', pos, side if stage == 't' else None, part)


def conds(stage):
    """conditions over all operators and operands"""
    S = [('lit', 'abc'), ('lit', 'B'), ('lit', ''), ('clip', 1, 'sl' if stage == 't' else None, 'lem'), clip(stage, 1, 'tl', 'lem'), clip(stage, 2, 'tl', 'num'), ('var', 'u'), ('lit-tag', 'sg'), ('lit', 'init')]
    for op in ('equal', 'begins-with', 'ends-with', 'contains-substring'):
        for a, b in it.product(S, repeat=2):
            for c in (False, True):
                yield (op, a, b, c)
    for op in ('in', 'begins-with-list', 'ends-with-list'):
        for a in S + [('concat', clip(stage, 1, 'tl', 'lem'), ('lit', 'c')), ('lit', 'ABC'), ('lit', 'zzyz')]:
            for l in ('l1', 'l2', 'l3'):
                for c in (False, True):
                    yield (op, a, l, c)


def trees(stage, deep):
    T = ('equal', ('lit', 'x'), ('lit', 'x'))
    F = ('equal', ('lit', 'x'), ('lit', 'y'))
    A = ('equal', clip(stage, 1, 'sl', 'lem'), ('lit', 'abc'), True)
    B = ('in', clip(stage, 2, 'tl', 'num'), 'l2')
    B = ('equal', clip(stage, 2, 'tl', 'num'), ('lit-tag', 'sg'))
    at = [T, F, A, B]
    l1 = at + [('not', x) for x in at] + [(o,) + x for o in ('and', 'or') for n in (1, 2, 3) for x in it.product(at[:3] if n == 3 else at, repeat=n)]
    yield from l1
    part = l1 if deep else at[2:] + [('not', A), ('and', A, B), ('or', A, B), ('and', T, A), ('or', F, B), ('not', ('not', B)) if deep else ('not', B)]
    for o in ('and', 'or'):
        for x in it.product(part, repeat=2):
            yield (o,) + x
    for x in l1:
        yield ('not', x)


def instrs(stage):
    """state-changing instructions"""
    c1, c2 = clip(stage, 1, 'tl', 'lem'), clip(stage, 2, 'tl', 'num')
    r = [('let', ('var', 'v'), c1), ('let', ('var', 'v'), ('var', 'u')), ('let', ('var', 'u'), ('lit', 'new')), ('append', 'v', c1), ('append', 'v', ('lit', '+'), ('var', 'u')),
         ('let', c1, ('lit', 'set')), ('let', c1, ('var', 'v')), ('let', c2, ('lit-tag', 'du')), ('let', c2, ('lit', '')), ('let', clip(stage, 2, 'tl', 'lem'), c1),
         ('modify-case', c1, ('lit', 'AA')), ('modify-case', c1, ('lit', 'Aa')), ('modify-case', ('var', 'v'), ('var', 'k')), ('modify-case', ('var', 'u'), c1),
         ('modify-case', clip(stage, 2, 'tl', 'lem'), ('case-of', 1, 'sl' if stage == 't' else None, 'lem')),
         ('choose', ((('equal', ('var', 'v'), ('lit', '')), (('let', ('var', 'v'), ('lit', 'E')),)),), (('append', 'v', ('lit', 'O')),)),
         ('choose', ((('equal', c2, ('lit-tag', 'sg')), (('let', ('var', 'u'), c1), ('let', c1, ('lit', 'S')))), (('begins-with', c1, ('lit', 'x')), ())), None),
         ('call', 'm1', (2,)), ('call', 'm2', (2, 1)), lu(stage, ('lit', 'mid.'), ('var', 'v'))]
    if stage == 't':
        r += [('let', clip(stage, 1, 'sl', 'lem'), ('lit', 'src')), ('let', clip(stage, 2, 'ref', 'whole'), ('lit', 'R')), ('modify-case', clip(stage, 1, 'ref', 'lem'), ('lit', 'AA')), ('let', ('clip', 1, 'tl', 'whole'), ('concat', ('lit', 'w'), ('lit-tag', 'v.sg')))]
    return r


def macros(stage):
    c1, c2 = clip(stage, 1, 'tl', 'lem'), clip(stage, 2, 'tl', 'lem')
    return [('m1', 1, [('let', c1, ('concat', ('lit', 'm1'), c1)), ('choose', ((('equal', clip(stage, 1, 'tl', 'num'), ('lit', '')), (('let', ('var', 'v'), ('lit', 'none')),)),), (('let', ('var', 'v'), clip(stage, 1, 'tl', 'num')),))]),
            ('m2', 2, [('append', 'v', c1, ('lit', '/') if False else ('lit', '_'), c2), ('call', 'm1', (2,)), ('let', c1, ('lit', 'm2'))]),
            ('m3', 3, [('append', 'u', c1, c2, clip(stage, 3, 'tl', 'lem')), ('call', 'm2', (3, 1))])]


def finalout(stage):
    s = [lu(stage, ('lit', 'v='), ('var', 'v')), lu(stage, ('lit', 'u='), ('var', 'u')), lu(stage, clip(stage, 1, 'tl', 'whole')), ('out', ('b',)), lu(stage, clip(stage, 2, 'tl', 'whole'))]
    if stage == 't':
        s += [lu(stage, ('clip', 1, 'sl', 'whole'), ('lit', '_'), ('clip', 2, 'ref', 'whole'))]
    return s


def run(ctx):
    ctx.rule = ('every program of the stated grammar (all expressions and pairs of them, all conditions, all boolean trees, all instruction sequences up to the bound, '
                'macros, output nodes) on all word pairs, alone and in one long document; compared with a direct interpreter')
    ctx.need('apertium-preprocess-transfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk')

    def suite(name, stage, gen, dd=None, opts=(), block=8):
        dd = dd or docs(stage)

        def fn(w, blk):
            for p in blk:
                trun.compare(w, stage, p, dd, opts)
                if w.enough:
                    return
        ctx.parallel(name + ' ' + stage + ''.join(opts), gen, fn, block)
    for st in 'tip':
        E = exprs(st)
        suite('expressions', st, lambda: (P(st, [lu(st, *x), ('out', ('b',)), lu(st, ('lit', 'z'))]) for n in (1, 2) for x in it.product(E, repeat=n)))
        if st != 't':
            suite('expressions', st, lambda: (P(st, [lu(st, *x)]) for x in it.product(exprs(st, True), repeat=2)), opts=('-w',))
        suite('conditions', st, lambda: (P(st, [('choose', ((c, (lu(st, ('lit', 'Y')),)),), (lu(st, ('lit', 'N')),))]) for c in conds(st)))
        suite('boolean trees', st, lambda: (P(st, [('choose', ((c, (lu(st, ('lit', 'Y')),)),), (lu(st, ('lit', 'N')),))]) for c in trees(st, not ctx.quick)))
        I = instrs(st)
        if st == 't' or not ctx.quick:
            n = (1, 2, 3) if not ctx.quick else (1, 2)
        else:
            n = (1, 2)
        suite('instruction sequences', st, lambda: (P(st, list(x) + finalout(st), macros(st)) for k in n for x in it.product(I, repeat=k)))
        # choose: order of alternatives, otherwise, empty bodies, nesting
        A = ('equal', clip(st, 1, 'sl', 'lem'), ('lit', 'abc'), True)
        B = ('equal', clip(st, 2, 'tl', 'num'), ('lit-tag', 'sg'))
        cs = [A, B, ('not', A), ('or', A, B)]
        bodies = lambda k: [(lu(st, ('lit', 'w%d' % k)),), (), (('let', ('var', 'v'), ('lit', 'w%d' % k)), ('choose', ((B, (lu(st, ('lit', 'n%d' % k)),)),), None), ('append', 'v', ('lit', 't')))]
        suite('choose', st, lambda: (P(st, [('choose', tuple(zip(c, b)), o), lu(st, ('lit', 'end'), ('var', 'v'))]) for k in (1, 2, 3) for c in it.product(cs, repeat=k)
                                     for b in it.product(*[bodies(j) for j in range(k)]) for o in (None, (lu(st, ('lit', 'o')),)) if k < 3 or not ctx.quick or b[1] != () and o))
        if st != 'p':
            # macros: every argument list of every macro
            suite('macro arguments', st, lambda: (P(st, [('call', m, a)] * 2 + finalout(st), macros(st), npat=3) for m, n in (('m1', 1), ('m2', 2), ('m3', 3)) for a in it.product((1, 2, 3), repeat=n)),
                  [a + ' ' + b + '[x]' + c for a, b, c in it.product(WORDS[st][:3], repeat=3)])
        else:
            suite('macro arguments', st, lambda: (P(st, [('call', m, a)] * 2 + finalout(st), macros(st)) for m, n in (('m1', 1), ('m2', 2), ('m3', 3)) for a in it.product((1, 2), repeat=n)))
    # output nodes of the first stage
    pc = [('lit', ''), ('clip', 1, 'tl', 'whole'), ('lit', '# q'), ('clip', 2, 'tl', 'lemq'), ('lit', 'x'), ('clip', 2, 'sl', 'num')]
    suite('mlu', 't', lambda: (P('t', [('out', ('mlu',) + tuple(('lu',) + y for y in x), ('b',), ('mlu', ('lu', ('lit', 'e'))))]) for k in (1, 2, 3)
                               for x in it.product([(a,) for a in pc] + [(pc[1], pc[2]), (pc[3], pc[5])], repeat=k)))
    names = [(('name', 'nAme'),), (('name', 'nAme'), ('case', 'k')), (('name', 'x'), ('case', 'u')), (('namefrom', 'v'), ('case', 'u')), (('namefrom', 'u'),), (('namefrom', 'u'), ('case', 'v'))]
    tagss = [(), (('lit-tag', 'SN'),), (('lit-tag', 'SN'), ('clip', 1, 'tl', 'num')), (('clip', 2, 'tl', 'pos'), ('var', 'v')), (('clip', 2, 'tl', 'num', '2'),)]
    kids = [(), (('lu', ('clip', 1, 'tl', 'whole')),), (('lu', ('clip', 2, 'tl', 'lem'), ('clip', 2, 'tl', 'num', '2')), ('b',), ('lu', ('clip', 1, 'tl', 'lemh'))), (('mlu', ('lu', ('lit', 'a')), ('lu', ('clip', 1, 'tl', 'lem'))),),
            (('b',), ('lu', ('var', 'u')), ('b',)), (('lu', ('lit', '')), ('lu', ('lit', 'q')))]
    pre = [(), (('let', ('var', 'v'), ('case-of', 1, 'sl', 'lem')),), (('let', ('var', 'u'), ('clip', 1, 'sl', 'lem')),)]
    ch = lambda: (P('t', list(q) + [('out', ('chunk', n, t) + c, ('b',)), ('out', ('chunk', (('name', 'z'),), (), ('lu', ('lit', 'y'))))], default='chunk') for q in pre for n in names for t in tagss for c in kids)
    suite('chunks', 't', ch)
    suite('chunks', 't', ch, opts=('-w',))
    # without bilingual lookup the word is its own translation
    nd = ['^abc<n><sg>$ ^Abc<v><p>$', '^ABC<n>$[x]^q# ab<sg>$', '^*abc$ ^a\\/b<n>$']
    suite('no lookup', 't', lambda: (P('t', [lu('t', *x), ('out', ('b',)), lu('t', ('lit', 'z'))]) for k in (1, 2) for x in it.product(exprs('t'), repeat=k)), nd + [' '.join(nd)], opts=('-n',))
    suite('no lookup, sequences', 't', lambda: (P('t', list(x) + finalout('t'), macros('t')) for x in it.product(instrs('t'), repeat=2)), nd + [' '.join(nd)], opts=('-n',))
