"""P18 the light sliding-window tagger chooses a tag of greatest weight in the
window of one word on each side: every sparse parameter table x every sentence."""
import itertools, os, subprocess
import tag
from tag import Tsx, Prob, W, EOF_, SENT


def base_model(ctx, tsx, dic, name):
    d = ctx.scratch + '/' + name
    os.makedirs(d)
    tag.write(d + '/t.tsx', tsx.xml())
    tag.write(d + '/dic', ''.join(w.text + '\n' for w in dic))
    tag.write(d + '/crp', '^./.<sent>$ ^./.<sent>$')
    r = subprocess.run([ctx.B.binary('apertium-tagger'), '-w', '-t', '0', d + '/dic', d + '/crp', d + '/t.tsx', d + '/m.prob'],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if r.returncode:
        raise RuntimeError('training failed: %r' % r.stderr[-500:])
    return open(d + '/m.prob', 'rb').read()


def choices(p, words):
    """per word: the tags of greatest weight"""
    op = set(p.open)
    tags = [{SENT}] + [set(w.tags) or op for w in words] + [{EOF_}]
    res = []
    for i, w in enumerate(words):
        if not w.tags:
            res.append([None])
            continue
        s = {m: sum(p.D.get((l, m, r), 0.0) for l in tags[i] for r in tags[i + 2]) for m in w.tags}
        b = max(s.values())
        res.append([m for m in sorted(s) if s[m] >= b * (1 - 1e-9)])
    return res


def explore(ctx, name, data, models, words, depth, optss, block=16):
    sents = [t for n in range(0, depth + 1) for t in itertools.product(words, repeat=n)]
    inp = ''.join(''.join(w.text for w in s) + '\0' for s in sents).encode()

    def fn(w, blk):
        f = w.tmp + '/m.prob'
        for D in blk:
            p = Prob(data, True)
            p.D = dict(D)
            tag.write(f, p.dump())
            for o in optss:
                argv = ['-g', '-w', '-z'] + list(o) + [f]
                r = w.run1('apertium-tagger', argv, inp)
                w.states += len(sents)
                w.trans += sum(len(s) + 1 for s in sents)
                got = r.out.decode().split('\0')
                if r.status != 0 or len(got) < len(sents) + 1 or ''.join(got[len(sents):]):
                    w.fail('apertium-tagger', argv, inp, r, 'status %d, %d replies to %d requests' % (r.status, len(got) - 1, len(sents)))
                    continue
                w.seen(r.out)
                for s, g in zip(sents, got):
                    exp = {''.join(x.out(t, o) for x, t in zip(s, q)) for q in itertools.product(*choices(p, s))}
                    if g not in exp:
                        w.fail('apertium-tagger', argv, ''.join(x.text for x in s).encode(), r,
                               'sentence %s tagged %s, expected %s (D %r)' % (''.join(x.text for x in s), g, ' or '.join(sorted(exp)), D))
                        break
            if len(w.samples) < 2:
                w.samples.append(dict(D=str(D), input=inp.decode()[:200], output=r.out.decode()[:200]))
    ctx.parallel(name, models, fn, block)


def run(ctx):
    ctx.rule = ('every parameter table with at most the stated number of non-zero entries from the listed values, x every sentence up to the '
                'bound (one request per sentence); every chosen tag must have the greatest sum over the tags of its neighbours')
    ctx.need('apertium-tagger')
    t = Tsx([('X', False, [(None, 'x')]), ('Y', False, [(None, 'y')])])
    X, Y = t.idx['X'], t.idx['Y']
    wx, wxy, wu, ws = W('ex', [('ex<x>', X)]), W('am', [('am<x>', X), ('bm<y>', Y)]), W('unk', []), W('.', [('.<sent>', SENT)])
    data = base_model(ctx, t, [wx, wxy, W('wy', [('wy<y>', Y)])], 'two')
    pos = [(l, m, r) for l in (SENT, X, Y) for m in (X, Y) for r in (X, Y, SENT, EOF_)]

    def m2():
        yield {}
        for n in range(1, ctx.pick(2, 3) + 1):
            for c in itertools.combinations(pos, n):
                for v in itertools.product((1.0, 2.0), repeat=n):
                    yield dict(zip(c, v))
    explore(ctx, 'two tags', data, m2, [wx, wxy, wu, ws], ctx.pick(4, 4), [()])

    def mo():
        for a in pos:
            yield {a: 0.5}
    explore(ctx, 'options', data, mo, [wx, wxy, wu, ws], ctx.pick(4, 5), [(), ('-p',), ('-m',), ('-m', '-p')], 1)

    t = Tsx([('X', True, [(None, 'x')]), ('Y', False, [(None, 'y')]), ('Z', True, [(None, 'z')])])
    X, Y, Z = (t.idx[n] for n in 'XYZ')
    mk = lambda s, *ts: W(s, [(s + '<%s>' % n, t.idx[n.upper()]) for n in ts])
    wxz, wyz, wz, wxyz = mk('xz', 'x', 'z'), mk('yz', 'z', 'y'), mk('z', 'z'), mk('xyz', 'y', 'x', 'z')
    data = base_model(ctx, t, [wxz, wz], 'three')
    pos3 = [(l, m, r) for l in (SENT, X, Y, Z) for m in (X, Y, Z) for r in (X, Y, Z, EOF_)]

    def m3():
        for n in range(1, 3):
            for c in itertools.combinations(pos3, n):
                for v in ([1.0, 1.0], [2.0, 1.0])[:n]:
                    yield dict(zip(c, v))
    explore(ctx, 'three tags', data, m3, [wxz, wyz, wxyz, W('unk', [])], ctx.pick(3, 4), [()])
