"""P22 tagger model files hold exactly what was declared and trained, and survive being
read and written again."""
import itertools, os, struct
import tag
from tag import Tsx, Prob, mb


def enc(s):
    u = s.encode('utf-32-le')
    c = struct.unpack('<%dI' % (len(u) // 4), u)
    return mb(len(c)) + b''.join(mb(x) for x in c)


def check_fields(p, t, prefer, discard, plain):
    """None or what differs from the declaration"""
    names = ['TAG_' + n for n in t.names[:7]] + [l[0] for l in t.labels] + [m[0] for m in t.mults]
    ix = {('TAG_' + n): i for n, i in t.idx.items()}
    if set(p.open) != t.open:
        return 'open class %s, declared %s' % (sorted(p.open), sorted(t.open))
    if p.forbid != [(t.idx[a], t.idx[b]) for a, b in t.forbid]:
        return 'forbid rules %s' % p.forbid
    if [x for x in p.array if x in names] != names or p.array[:7] != names[:7]:
        return 'tag names %s, declared %s' % (p.array, names)
    if dict(p.index) != ix:
        return 'tag index %s' % p.index
    if [(i, sorted(js)) for i, js in p.enforce] != [(t.idx[a], sorted(t.idx[b] for b in bs)) for a, bs in t.enforce]:
        return 'enforce rules %s, declared %s' % (p.enforce, t.enforce)
    rx = ['<' + x.replace('.', '><') + '>' for x in prefer]
    if p.prefer != rx:
        return 'preferences %s, declared %s' % (p.prefer, rx)
    dd = ['<' + x.replace('.', '><') + '>' for x in discard]
    tail = mb(len(dd)) + b''.join(enc(x) for x in dd) if dd else b''
    if p.rest != plain + tail:
        return 'discard rules (declared %s) or patterns' % dd
    return None


MODES = [('hmm', False), ('lsw', True)]


def train(w, t, d, lsw, dic='', corpus='^./.<sent>$\n^./.<sent>$\n'):
    tag.write(d + '/t.tsx', t if isinstance(t, str) else t.xml())
    tag.write(d + '/dic', dic)
    tag.write(d + '/U', corpus)
    argv = (['-w', '-t', '0', d + '/dic', d + '/U', d + '/t.tsx', d + '/m.prob'] if lsw else ['-t', '0', d + '/dic', d + '/U', d + '/t.tsx', d + '/m.prob'])
    return argv, w.run1('apertium-tagger', argv)


def declared_suite(ctx, decls):
    def fn(w, blk):
        d = w.tmp + '/d'
        os.makedirs(d, exist_ok=True)
        for labels, mults, forbid, enforce, prefer, discard in blk:
            t0 = Tsx(labels, mults)
            t = Tsx(labels, mults, forbid, enforce, prefer, discard)
            for kind, lsw in MODES:
                argv, r = train(w, t0, d, lsw)
                plain = Prob(open(d + '/m.prob', 'rb').read(), lsw).rest if r.status == 0 else b''
                if r.status == 0:
                    argv, r = train(w, t, d, lsw)
                w.states += 1
                if r.status:
                    w.fail('apertium-tagger', argv, b'', r, 'status %d for %s' % (r.status, t.xml()), [d + '/t.tsx', d + '/U', d + '/dic'])
                    return
                b = open(d + '/m.prob', 'rb').read()
                p = Prob(b, lsw)
                m = check_fields(p, t, prefer, discard, plain)
                w.seen(b)
                if not m:
                    argv = ['-r', '0', d + '/U', d + '/m.prob'] if not lsw else ['-w', '-r', '0', d + '/U', d + '/m.prob']
                    r = w.run1('apertium-tagger', argv)
                    m = compare(p, b, open(d + '/m.prob', 'rb').read(), r)
                if m:
                    w.fail('apertium-tagger', argv, t.xml().encode(), r, '%s model of forbid %s enforce %s prefer %s discard %s labels %s: %s' % (
                        kind, forbid, enforce, prefer, discard, labels, m), [d + '/t.tsx', d + '/U', d + '/dic'])
                    return
        if len(w.samples) < 2:
            w.samples.append(dict(kind=kind, specification=t.xml()[:500]))
    ctx.parallel('declarations', decls, fn, 8)


def compare(p, old, new, r):
    """the file written again after reading: identical, except that reading a hidden
    Markov model to train it further normalises the transition rows"""
    if r.status:
        return 'reading and writing again: status %d' % r.status
    if p.lsw:
        return None if old == new else 'the file differs after reading and writing it'
    try:
        q = Prob(new, False)
    except Exception:
        return 'the file is malformed after reading and writing it'
    if q.head != p.head or q.rest != p.rest or (q.N, q.M) != (p.N, p.M):
        return 'the declarations differ after reading and writing the file'
    if {k: struct.pack('>d', v) for k, v in q.B.items()} != {k: struct.pack('>d', v) for k, v in p.B.items()}:
        k = next(k for k in p.B if struct.pack('>d', q.B.get(k, -1)) != struct.pack('>d', p.B[k]))
        return 'B%r = %r after reading and writing %r' % (k, q.B.get(k), p.B[k])
    for i in range(p.N):
        for a, b in zip(p.A[i], q.A[i]):
            if abs(a - b) > 1e-12:
                return 'A[%d] = %r after reading and writing %r' % (i, b, a)
    return None


def numbers_suite(ctx):
    """every binary exponent with the listed fractions, in every cell position class"""
    fr = [0, 1, 1 << 51, (1 << 52) - 1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x00000ffffffff, 0x7ffff00000000] + [1 << k for k in range(2, 52, 7)]
    t = Tsx([('X%d' % i, False, [(None, 'x%d' % i)]) for i in range(4)])

    def fn(w, blk):
        d = w.tmp + '/n'
        os.makedirs(d, exist_ok=True)
        if not hasattr(w, 'base'):
            w.base = {}
            for kind, lsw in MODES:
                argv, r = train(w, t, d, lsw, '^a/a<x0>/b<x1>/c<x2>/d<x3>$ ^a/a<x0>/b<x1>$\n')
                w.base[lsw] = open(d + '/m.prob', 'rb').read()
        for ex in blk:
            for kind, lsw in MODES:
                vals = [struct.unpack('>d', struct.pack('>Q', ex << 52 | f))[0] for f in fr]
                p = Prob(w.base[lsw], lsw)
                if lsw:
                    vals = [v for v in vals if v > 1e-10]
                    p.D = {q: v for q, v in zip(itertools.product(range(p.N), repeat=3), vals * 20)}
                    argv = ['-w', '-r', '0', d + '/U', d + '/m.prob']
                else:
                    p.B = {q: vals[i % len(vals)] for i, q in enumerate(sorted(p.B))}
                    argv = ['-r', '0', d + '/U', d + '/m.prob']
                b = p.dump()
                tag.write(d + '/m.prob', b)
                r = w.run1('apertium-tagger', argv)
                w.states += len(vals)
                m = compare(p, b, open(d + '/m.prob', 'rb').read(), r)
                w.seen(b)
                if m:
                    tag.write(d + '/m.prob', b)
                    w.fail('apertium-tagger', argv, b'', r, '%s model, exponent %d: %s' % (kind, ex, m), [d + '/m.prob', d + '/U'])
                    return
    ctx.parallel('numbers', lambda: range(0, 2047, 1), fn, 16)


def sizes_suite(ctx):
    """tag sets whose size crosses the limits of the integer encoding, rules between tags of every magnitude"""
    ns = [1, 2, 20, 55, 56, 57, 58, 63, 64, 65, 100] + ([] if ctx.quick else [200, 256, 257, 300])

    def fn(w, blk):
        d = w.tmp + '/s'
        os.makedirs(d, exist_ok=True)
        for n, nm in blk:
            names = [nm + str(i) for i in range(n)]
            L = [(x, i % 3 == 0, [(None, 't%d' % i)]) for i, x in enumerate(names)]
            pick = sorted({0, n // 2, n - 1, min(n - 1, 56), min(n - 1, 57)})
            t = Tsx(L, forbid=[(names[a], names[b]) for a in pick for b in pick if a != b], enforce=[(names[pick[0]], names)],
                    prefer=['t%d' % i for i in pick], discard=['x' * k for k in (1, 61, 62, 63, 64, 65, 130)])
            t0 = Tsx(L)
            words = ['^w/%s$' % '/'.join('a<t%d>' % i for i in range(k)) for k in sorted({1, n, max(1, n // 2), min(n, 63), min(n, 64), min(n, 65)})]
            dic = ' '.join(words) + '\n'
            for kind, lsw in MODES:
                if lsw and n > 70:
                    continue
                argv, r = train(w, t0, d, lsw, dic, words[0] + '\n^./.<sent>$\n')
                plain = Prob(open(d + '/m.prob', 'rb').read(), lsw).rest if r.status == 0 else b''
                if r.status == 0:
                    argv, r = train(w, t, d, lsw, dic, words[0] + '\n^./.<sent>$\n')
                w.states += n
                m = 'status %d' % r.status if r.status else None
                if not m:
                    b = open(d + '/m.prob', 'rb').read()
                    p = Prob(b, lsw)
                    m = check_fields(p, t, t.prefer, t.discard, plain)
                    want = {frozenset([i]) for i in range(t.N)} | {frozenset(t.open)} | {frozenset(t.idx[x] for x in names[:k]) for k in (1, n, max(1, n // 2), min(n, 63), min(n, 64), min(n, 65))}
                    if not m and set(p.classes) != want:
                        m = 'ambiguity classes'
                    w.seen(b)
                if not m:
                    argv = ['-r', '0', d + '/U', d + '/m.prob'] if not lsw else ['-w', '-r', '0', d + '/U', d + '/m.prob']
                    r = w.run1('apertium-tagger', argv)
                    m = compare(p, b, open(d + '/m.prob', 'rb').read(), r)
                if not m and lsw and n == 20:        # more than 16384 entries
                    p.D = {q: 1.0 + i for i, q in enumerate(itertools.product(range(p.N), repeat=3))}
                    b = p.dump()
                    tag.write(d + '/m.prob', b)
                    r = w.run1('apertium-tagger', argv)
                    m = compare(p, b, open(d + '/m.prob', 'rb').read(), r)
                if m:
                    w.fail('apertium-tagger', argv, dic.encode(), r, '%s model with %d labels named %s0...: %s' % (kind, n, nm, m), [d + '/t.tsx', d + '/U', d + '/dic'])
                    return
    ctx.parallel('sizes', lambda: ((n, nm) for n in ns for nm in ('L', 'n' * 61, 'n' * 64, 'éß')), fn, 1)


def run(ctx):
    ctx.rule = ('every combination of declarations up to the bound, every binary exponent of the stored numbers, tag sets across the limits of the integer '
                'encoding: the fields of the model file are read back by an independent reader and compared with the declaration; the file after being '
                'read and written again is identical (transition rows up to normalisation)')
    ctx.need('apertium-tagger')
    base = [([('X', False, [(None, 'x')]), ('Y', True, [(None, 'y')])], []),
            ([('X', False, [(None, 'x'), ('a', 'y.*')]), ('Y', False, [(None, 'y')]), ('Z', True, [(None, 'z.*')])], [('M', False, [[('label', 'X'), ('label', 'Y')]])]),
            ([('X', True, [(None, 'x')]), ('Y', True, [(None, 'y')])], [('M', True, [[('label', 'X'), ('tags', 'b', 'y')], [('label', 'Y'), ('label', 'Y')]]), ('O', False, [[('label', 'Y'), ('label', 'X')]])])]

    def decls():
        q = ctx.quick
        for l, m in base:
            names = [x[0] for x in l] + [x[0] for x in m] + ['SENT'] + ([] if q else ['kEOF'])
            pairs = list(itertools.product(names, repeat=2))
            for n in (0, 1, 2):
                for f in itertools.combinations(pairs, n):
                    yield l, m, list(f), [], [], []
            for a in names:
                for k in (1, 2, 3):
                    for bs in itertools.permutations(names, k) if not q else itertools.combinations(names, k):
                        yield l, m, [], [(a, list(bs))], [], []
                        if k == 1:
                            yield l, m, [(a, bs[0])], [(a, list(bs)), (bs[0], [a, bs[0]] if a != bs[0] else [a])], ['x.*'], ['y']
            R = ['x', 'x.*', '*', 'x.*.y', 'aé']
            for np, nd in itertools.product((0, 1, 2), repeat=2):
                for p in itertools.permutations(R, np):
                    for dd in itertools.permutations(R, nd):
                        yield l, m, pairs[:1] * (np == 2), [], list(p), list(dd)
    declared_suite(ctx, decls)
    numbers_suite(ctx)
    sizes_suite(ctx)
