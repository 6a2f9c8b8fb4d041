"""P17 the HMM tagger chooses a most probable tag sequence: every model with small
entries x every sentence up to a bound, against the maximum over all paths."""
import itertools, os
import tag
from tag import Tsx, Prob, W, EOF_, SENT

END = W('', [('', EOF_)])


def best_paths(p, words):
    """the set of tag paths of maximal probability for one unambiguous-to-unambiguous
    stretch structure: resets at unambiguous words (their tag is certain)"""
    res = [()]
    prev = SENT
    i = 0
    A, B = p.A, p.B
    while i < len(words):
        j = i
        while len(cand(p, words[j])) > 1:
            j += 1
        sets = [cand(p, w) for w in words[i:j + 1]]
        ems = [p.emission_classes(s) for s in sets]
        out = set()
        for ks in itertools.product(*ems):
            ks = [p.k[c] for c in ks]
            best, arg = -1, []
            for path in itertools.product(*sets):
                x, q = 1.0, prev
                for t, k in zip(path, ks):
                    x = x * A[q][t] * B.get((t, k), ZERO)
                    q = t
                if x > best * (1 + 1e-12):
                    best, arg = x, [path]
                elif x >= best * (1 - 1e-12):
                    arg.append(path)
            out.update(arg)
        res = [r + o for r in res for o in out]
        prev = sets[-1][0]
        i = j + 1
    return res


ZERO = 1e-10


def cand(p, w):
    return sorted(w.tags) if w.tags else sorted(p.open)


def render(words, path, opts):
    return ''.join(w.out(t, opts) for w, t in zip(words, path) if w is not END)


def train(ctx, tsx, words, corpus, extra=()):
    d = ctx.scratch
    tag.write(d + '/t.tsx', tsx.xml())
    tag.write(d + '/dic', ''.join(w.text + '\n' for w in words))
    tag.write(d + '/crp', ''.join(w.text for w in corpus))
    return d


def base_model(ctx, tsx, dic, name):
    """a model file made by the real tool (supervised training on an empty-ish corpus); only its numbers are replaced"""
    import subprocess
    d = ctx.scratch + '/' + name
    os.makedirs(d)
    tag.write(d + '/t.tsx', tsx.xml())
    tag.write(d + '/dic', ''.join(w.text + '\n' for w in dic))
    tag.write(d + '/tgd', '^./.<sent>$')
    r = subprocess.run([ctx.B.binary('apertium-tagger'), '-s', '0', d + '/dic', d + '/t.tsx', d + '/m.prob', d + '/tgd', d + '/tgd'],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if r.returncode:
        raise RuntimeError('training failed: %r' % r.stderr[-500:])
    return open(d + '/m.prob', 'rb').read()


def explore(ctx, name, data, models, words, depth, optss, block=8):
    def gen():
        return models()

    sents = [t for n in range(0, depth + 1) for t in itertools.product(words, repeat=n)]
    inp = ''.join(''.join(w.text for w in s) + '\0' for s in sents).encode()

    def fn(w, blk):
        f = w.tmp + '/m.prob'
        for setA, setB in blk:
            p = Prob(data)
            for (i, j), v in setA.items():
                p.A[i][j] = v
            for (i, j), v in setB.items():
                p.B[(i, j)] = v
            tag.write(f, p.dump())
            cache = {}
            for o in optss:
                argv = ['-g', '-z'] + list(o) + [f]
                r = w.run1('apertium-tagger', argv, inp)
                w.states += len(sents)
                w.trans += sum(len(s) + 1 for s in sents)
                got = r.out.decode().split('\0')
                if r.status != 0 or len(got) < len(sents) + 1 or ''.join(got[len(sents):]):
                    w.fail('apertium-tagger', argv, inp, r, 'status %d, %d replies to %d requests' % (r.status, len(got) - 1, len(sents)))
                    continue
                w.seen(r.out)
                for s, g in zip(sents, got):
                    if s not in cache:
                        cache[s] = best_paths(p, list(s) + [END])
                    if not any(render(s + (END,), q, o) == g for q in cache[s]):
                        w.fail('apertium-tagger', argv, (''.join(x.text for x in s)).encode(), r,
                               'sentence %s tagged %s; most probable: %s (A %r B %r)' % (
                                   ''.join(x.text for x in s), g, ' or '.join(sorted({render(s + (END,), q, o) for q in cache[s]})), setA, setB))
                        break
            if len(w.samples) < 2:
                w.samples.append(dict(A=str(setA), B=str(setB), input=inp.decode()[:200], output=r.out.decode()[:200]))
    ctx.parallel(name, gen, fn, block)


def run(ctx):
    ctx.rule = ('every assignment of the listed values to the transition and emission entries that matter, x every sentence up to the bound '
                '(one request per sentence), every output option; the tags must form a path whose probability is maximal among all paths')
    ctx.need('apertium-tagger')

    # ---- two tags, all transition entries
    t = Tsx([('X', False, [(None, 'x')]), ('Y', False, [(None, 'y')])])
    X, Y = t.idx['X'], t.idx['Y']
    wx, wy = W('ex', [('ex<x>', X)]), W('wy', [('wy<y>', Y)])
    wxy = W('am', [('am<x>', X), ('bm<y>', Y)])
    wu, ws = W('unk', []), W('.', [('.<sent>', SENT)])
    data = base_model(ctx, t, [wx, wy, wxy], 'two')
    p0 = Prob(data)
    kxy = p0.k[frozenset((X, Y))]
    pos = [(SENT, X), (SENT, Y), (X, X), (X, Y), (Y, X), (Y, Y), (X, SENT), (Y, SENT)]
    eofs = [(X, EOF_), (Y, EOF_)]
    ones = {(SENT, SENT): 1.0, (SENT, EOF_): 1.0}
    b1 = {(X, p0.k[frozenset([X])]): 1.0, (Y, p0.k[frozenset([Y])]): 1.0}

    def m2():
        for v in itertools.product(ctx.pick((1.0, 2.0), (0.0, 1.0, 3.0)), repeat=len(pos)):
            for e in ctx.pick([(1.0, 2.0)], [(1.0, 1.0), (1.0, 2.0)]):
                for bb in ((1.0, 1.0), (1.0, 3.0), (3.0, 1.0)):
                    a = dict(ones)
                    a.update(zip(pos, v))
                    a.update(zip(eofs, e))
                    b = dict(b1)
                    b[(X, kxy)], b[(Y, kxy)] = bb
                    yield a, b
    explore(ctx, 'two tags', data, m2, [wx, wy, wxy, wu, ws], ctx.pick(4, 4), [()])

    def m2o():
        for v in itertools.product((1.0, 4.0), repeat=2):
            for bb in ((1.0, 1.0), (1.0, 3.0), (3.0, 1.0)):
                a = dict(ones)
                a.update({q: 1.0 for q in pos + eofs})
                a[(X, Y)], a[(SENT, X)] = v
                b = dict(b1)
                b[(X, kxy)], b[(Y, kxy)] = bb
                yield a, b
    explore(ctx, 'options', data, m2o, [wx, wxy, wu, ws], ctx.pick(4, 5), [(), ('-p',), ('-m',), ('-f',), ('-m', '-p'), ('-m', '-f')], 1)

    # ---- zero and tiny probabilities, longer ambiguous stretches
    def m3():
        for v in itertools.product((0.0, 1e-10, 0.5), repeat=4):
            for bb in ((1.0, 1.0), (1e-10, 1.0), (1.0, 0.0)):
                a = dict(ones)
                a.update({q: 0.25 for q in pos + eofs})
                a.update(zip([(X, X), (X, Y), (Y, X), (SENT, X)], v))
                b = dict(b1)
                b[(X, kxy)], b[(Y, kxy)] = bb
                yield a, b
    explore(ctx, 'stretches', data, m3, [wxy, wu, wy], ctx.pick(5, 6), [()])

    # ---- ambiguity classes not seen in training
    t = Tsx([('X', False, [(None, 'x')]), ('Y', False, [(None, 'y')]), ('Z', False, [(None, 'z')]), ('V', False, [(None, 'v')]), ('C', True, [(None, 'c')])])
    X, Y, Z, V, C = (t.idx[n] for n in 'XYZVC')
    mk = lambda s, *ts: W(s, [(s + '<%s>' % n, t.idx[n.upper()]) for n in ts])
    known = [mk('x', 'x'), mk('xyz', 'x', 'y', 'z'), mk('xv', 'x', 'v'), mk('xc', 'x', 'c')]
    new = [mk('yz', 'y', 'z'), mk('yv', 'v', 'y'), mk('xy', 'y', 'x')]
    data = base_model(ctx, t, known, 'four')
    p1 = Prob(data)
    k3, kxv, kxc, kop = (p1.k[frozenset(c)] for c in ((X, Y, Z), (X, V), (X, C), (X, Y, Z, V)))
    tags = (SENT, X, Y, Z, V, C)

    def m4():
        for v in itertools.product((1.0, 2.0), repeat=3):
            for bx in itertools.product((1.0, 3.0), repeat=ctx.pick(4, 5)):
                a = {(i, j): 1.0 for i in tags for j in tags + (EOF_,)}
                a[(X, Y)], a[(SENT, Z)], a[(Z, X)] = v
                b = {(i, k): 1.0 for i in tags for k, c in enumerate(p1.classes) if i in c}
                b[(Y, k3)], b[(Z, k3)], b[(X, kop)], b[(V, kop)] = bx[:4]
                b[(X, kxv)] = bx[4] if len(bx) > 4 else 1.0
                b[(X, kxc)] = 2.0
                b[(Y, kop)] = 2.0
                yield a, b
    explore(ctx, 'unseen classes', data, m4, [known[0], known[3]] + new + [W('unk', [])], ctx.pick(2, 3), [()])
