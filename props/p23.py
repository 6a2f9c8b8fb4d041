"""P23 training estimates: the probabilities a trained HMM or sliding-window model holds
are the published estimates of the corpus, for every corpus up to a bound."""
import itertools, os
import tag
from tag import Tsx, Prob, SENT, EOF_

ZERO = 1e-10
TINY = 2.2250738585072014e-308


class Wd:
    """untagged form, tagged form, [(tags of the analyses, tag in the tagged text or None)] one entry per unit"""

    def __init__(self, text, gold, units):
        self.text, self.gold, self.units = text, gold, units


def stream(p, words):
    """[(tag set, class index, gold tag)] with the end-of-file unit"""
    op = frozenset(p.open)
    r = []
    for w in words:
        for ts, g in w.units:
            ts = frozenset(ts) or op
            r.append((ts, p.k.get(ts), g))
    e = frozenset([EOF_])
    return r + [(e, p.k.get(e), EOF_)]


def rules(p, A):
    for i, j in p.forbid:
        A[i][j] = ZERO
    for i, js in p.enforce:
        for j in range(p.N):
            if j not in js:
                A[i][j] = ZERO
    for i in range(p.N):
        s = sum(A[i])
        A[i] = [x / s if s > 0 else 0.0 for x in A[i]]


def supervised(p, words):
    pair = [[0.0] * p.N for _ in range(p.N)]
    em = {}
    t1 = SENT
    for ts, k, g in stream(p, words):
        t2, t1 = t1, g
        if t1 is not None and t2 is not None:
            pair[t2][t1] += 1
        if t1 is not None:
            em[(t1, k)] = em.get((t1, k), 0) + 1
    A = [[(x + 1.0) / (sum(r) + p.N) for x in r] for r in pair]
    B = {}
    for i in range(p.N):
        ks = [k for k, c in enumerate(p.classes) if i in c]
        tot = sum(em.get((i, k), 0) for k in ks)
        for k in ks:
            B[(i, k)] = (em.get((i, k), 0) + 1.0 / len(ks)) / (tot + 1.0)
    rules(p, A)
    return A, B


def kupiec(p, words):
    M, N = len(p.classes), p.N
    occ = [1.0] * M
    pair = [[1.0] * M for _ in range(M)]
    k1 = p.k[frozenset([SENT])]
    for ts, k2, g in stream(p, words):
        occ[k1] += 1
        pair[k1][k2] += 1
        k1 = k2
    est = [sum(occ[k] / len(c) for k, c in enumerate(p.classes) if i in c) for i in range(N)]
    tp = [[0.0] * N for _ in range(N)]
    for a, ca in enumerate(p.classes):
        for b, cb in enumerate(p.classes):
            v = pair[a][b] / (len(ca) * len(cb))
            for i in ca:
                for j in cb:
                    tp[i][j] += v
    A = [[x / sum(r) if sum(r) > 0 else 0.0 for x in r] for r in tp]
    B = {(i, k): occ[k] / len(c) / est[i] for i in range(N) for k, c in enumerate(p.classes) if i in c}
    rules(p, A)
    return A, B


def baum_welch(p, A, B, words, num=float):
    """num: the numbers used along a stretch of ambiguous words"""
    one, none, tiny = num(1), num(0), num(TINY)
    A, B = [[num(x) for x in r] for r in A], {k: num(v) for k, v in B.items()}
    xsi, gamma, phi = {}, {}, {}
    seg = [(frozenset([SENT]), None)]
    alpha = [{SENT: one}]
    for ts, k, g in stream(p, words):
        al = {}
        for i in ts:
            v = sum((alpha[-1][j] * A[j][i] * B[(i, k)] for j in seg[-1][0]), none)
            al[i] = v if v else tiny
        alpha.append(al)
        seg.append((ts, k))
        if len(ts) > 1:
            continue
        t, = ts
        prob = al[t]
        beta = {t: one}
        for n in range(len(seg) - 1, 0, -1):
            ts, k = seg[n]
            nb = {}
            for i in ts:
                for j in seg[n - 1][0]:
                    v = A[j][i] * B[(i, k)] * beta[i]
                    nb[j] = nb.get(j, none) + v
                    xsi[(j, i)] = xsi.get((j, i), none) + alpha[n - 1][j] * v / prob
                v = alpha[n][i] * beta[i] / prob
                gamma[i] = gamma.get(i, none) + v or tiny
                phi[(i, k)] = phi.get((i, k), none) + v
            beta = nb
        seg = [(frozenset([t]), None)]
        alpha = [{t: one}]
    N, M = p.N, len(p.classes)
    A2 = [[ZERO] * N for _ in range(N)]
    B2 = {key: ZERO for key in B}
    for (i, j), v in xsi.items():
        if v > 0:
            A2[i][j] = float(v / (gamma.get(i) or tiny))
    for (i, k), v in phi.items():
        if v > 0:
            B2[(i, k)] = float(v / gamma[i])
    A2 = [[x / sum(r) for x in r] for r in A2]
    for i in range(N):
        s = sum(v for (a, k), v in B2.items() if a == i)
        for key in B2:
            if key[0] == i:
                B2[key] /= s
    return A2, B2


def lsw(p, words, iters):
    en = dict()
    for i, js in p.enforce:
        en.setdefault(i, []).append(set(js))
    fb = set(p.forbid)
    ok = lambda a, b: (a, b) not in fb and all(b in js for js in en.get(a, ()))
    ts = [frozenset([SENT])] + [t for t, k, g in stream(p, words)]
    D = {}
    wins = list(zip(ts, ts[1:], ts[2:]))
    for a, b, c in wins:
        v = [(x, y, z) for x in a for y in b for z in c if ok(x, y) and ok(y, z)]
        for q in v:
            D[q] = D.get(q, 0.0) + 1.0 / len(v)
    for _ in range(iters):
        E = {}
        for a, b, c in wins:
            qs = [(x, y, z) for x in a for y in b for z in c]
            n = sum(D.get(q, 0.0) for q in qs)
            if n > ZERO:
                for q in qs:
                    if q in D:
                        E[q] = E.get(q, 0.0) + D[q] / n
        D = E
    return {q: v for q, v in D.items() if v > ZERO}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-15


def explore(ctx, name, tsxs, words, depth, methods, block=20):
    """methods: list of (kind, iterations)"""
    corpora = lambda: ((ti, c) for ti in range(len(tsxs)) for n in range(depth + 1) for c in itertools.product(words, repeat=n))

    def fn(w, blk):
        d = w.tmp + '/t'
        os.makedirs(d, exist_ok=True)
        for ti, c in blk:
            t = tsxs[ti]
            tag.write(d + '/t.tsx', t.xml())
            tag.write(d + '/dic', '\n'.join(x.text for x in words) + '\n^./.<sent>$\n')
            tag.write(d + '/U', ' '.join(x.text for x in c) + '\n')
            tag.write(d + '/T', ' '.join(x.gold for x in c) + '\n')
            files = [d + '/t.tsx', d + '/dic', d + '/U', d + '/T']
            for kind, it in methods:
                argv = {'s': ['-s', str(it)] + [d + '/dic'] + ([d + '/U'] if it else []) + [d + '/t.tsx', d + '/m.prob', d + '/T', d + '/U'],
                        't': ['-t', str(it), d + '/dic', d + '/U', d + '/t.tsx', d + '/m.prob'],
                        'w': ['-w', '-t', str(it), d + '/dic', d + '/U', d + '/t.tsx', d + '/m.prob'],
                        'r': ['-s', '0', d + '/dic', d + '/t.tsx', d + '/m.prob', d + '/T', d + '/U'],
                        'v': ['-w', '-t', '0', d + '/dic', d + '/U', d + '/t.tsx', d + '/m.prob']}[kind]
                if kind == 'w' and not c or kind == 'v' and not c:
                    continue
                r = w.run1('apertium-tagger', argv)
                if r.status == 0 and kind in 'rv':
                    argv = ['-r', str(it)] + (['-w'] if kind == 'v' else []) + [d + '/U', d + '/m.prob']
                    if kind == 'v':
                        argv = ['-w'] + argv[:2] + argv[3:]
                    r = w.run1('apertium-tagger', argv)
                if r.status:
                    w.fail('apertium-tagger', argv, b'', r, 'corpus %s: status %d' % (' '.join(x.text for x in c), r.status), files)
                    return
                w.states += 1
                w.trans += len(c) + 1
                p = Prob(open(d + '/m.prob', 'rb').read(), lsw=kind in 'wv')
                m = None
                if kind in 'wv':
                    D = lsw(p, c, it)
                    for q in set(D) | set(p.D):
                        if not close(D.get(q, 0.0), p.D.get(q, 0.0)):
                            m = 'D%r = %r, expected %r' % (tuple(t.names[i] for i in q), p.D.get(q, 0.0), D.get(q, 0.0))
                            break
                    w.seen(str(sorted(p.D.items())))
                else:
                    A, B = kupiec(p, c) if kind == 't' else supervised(p, c)
                    for _ in range(it):
                        A, B = baum_welch(p, A, B, c)
                    if it or kind == 't' or kind == 'r':
                        rules(p, A)
                    for i in range(p.N):
                        for j in range(p.N):
                            if m is None and not close(A[i][j], p.A[i][j]):
                                m = 'A[%s][%s] = %r, expected %r' % (t.names[i], t.names[j], p.A[i][j], A[i][j])
                    if m is None and set(B) != set(p.B):
                        m = 'emissions of other pairs'
                    for q in B:
                        if m is None and not close(B[q], p.B[q]):
                            m = 'B[%s][%s] = %r, expected %r' % (t.names[q[0]], ','.join(t.names[i] for i in sorted(p.classes[q[1]])), p.B[q], B[q])
                    w.seen(str(p.A[4]))
                if m:
                    w.fail('apertium-tagger', argv, ' '.join(x.text for x in c).encode(), r, 'corpus %s tagged %s (rules: forbid %s enforce %s), %s %d iterations: %s' % (
                        ' '.join(x.text for x in c), ' '.join(x.gold for x in c), t.forbid, t.enforce, {'s': 'supervised', 't': 'Kupiec', 'w': 'sliding window', 'r': 'supervised, retrained', 'v': 'sliding window, retrained'}[kind], it, m), files)
                    return
        if len(w.samples) < 2:
            w.samples.append(dict(corpus=' '.join(x.text for x in c), method=str((kind, it))))
    ctx.parallel(name, corpora, fn, block)


def run(ctx):
    ctx.rule = ('every corpus (untagged and tagged) of at most the stated number of words, x tag sets with and without forbid and enforce rules, x '
                'supervised, Kupiec, Baum-Welch, sliding-window initialisation and iterations, re-training: every entry of the saved model')
    ctx.assumptions.append('floating point: values agree to a relative error of 1e-9')
    ctx.need('apertium-tagger')

    def mk(**kw):
        return Tsx([('X', False, [(None, 'x')]), ('Y', False, [(None, 'y')]), ('Z', True, [(None, 'z')])], **kw)
    T = [mk(), mk(forbid=[('X', 'Y')]), mk(enforce=[('X', ['Y', 'SENT'])]), mk(forbid=[('Y', 'X'), ('Z', 'Z')], enforce=[('Y', ['Z', 'kEOF', 'X']), ('Z', ['X', 'Y', 'SENT', 'kEOF'])]),
         mk(forbid=[('X', 'X'), ('X', 'Y'), ('X', 'Z'), ('X', 'SENT'), ('X', 'kEOF')])]
    X, Y, Z = (T[0].idx[n] for n in 'XYZ')
    ex = Wd('^ex/ex<x>$', '^ex/ex<x>$', [((X,), X)])
    ax = Wd('^am/am<x>/bm<y>$', '^am/am<x>$', [((X, Y), X)])
    ay = Wd('^am/am<x>/bm<y>$', '^am/bm<y>$', [((X, Y), Y)])
    un = Wd('^un/*un$', '^un/*un$', [((), None)])
    uz = Wd('^uk/*uk$', '^uk/uk<y>$', [((), Y)])
    st = Wd('^./.<sent>$', '^./.<sent>$', [((SENT,), SENT)])
    xz = Wd('^xz/x<x>+z<z>$', '^xz/x<x>+z<z>$', [((X,), X), ((Z,), Z)])
    az = Wd('^az/p<z>/q<x>$', '^az/p<z>$', [((X, Z), Z)])
    wq = Wd('^wq/wq<w>$', '^wq/wq<w>$', [((6,), 6)])
    words = [ex, ax, ay, un, uz, st, xz, az, wq]
    one = [ex, ax, un, st, xz, az]
    d = ctx.pick(3, 4)
    explore(ctx, 'supervised', T, words, d, [('s', 0)])
    explore(ctx, 'supervised and Baum-Welch', T[:4], words[1:], ctx.pick(2, 3), [('s', 1), ('s', 2), ('r', 0), ('r', 1), ('r', 2)])
    explore(ctx, 'Kupiec', T[:4], one, d, [('t', 0), ('t', 1), ('t', 3)])
    explore(ctx, 'sliding window', T, one, d, [('w', 0), ('w', 1), ('w', 4), ('v', 0), ('v', 2)])
    explore(ctx, 'longer corpora', T[:2] if ctx.quick else T, [ex, ax, un, st], ctx.pick(4, 6), [('t', 2), ('w', 2), ('s', 2)])
