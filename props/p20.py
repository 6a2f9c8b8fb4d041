"""P20 the perceptron tagger: features are what the specification text says, tagging
returns a best-scoring sequence within the beam, training is the averaged perceptron.

The specification language is interpreted here directly on its expressions; the real
tool compiles it to byte code.  Features are observed through the weights that one
training update leaves in the model file."""
import itertools, os, re, struct
import tag
from tag import Tsx

# ------------------------------------------------------------------ sentences
TUF = ('!TOK_UNDERFLOW!', ('!TUF!',))
TOF = ('!TOK_OVERFLOW!', ('!TOF!',))
UNT = ('!UNTAGGED!', ('!UT!',))


def parse(a):
    r = []
    for m in a.split('+'):
        i = m.index('<')
        r.append((m[:i], tuple(m[i + 1:-1].split('><'))))
    return tuple(r)


class Tok:
    def __init__(self, sf, *ans):
        self.sf, self.raw = sf, ans
        self.ans = [parse(a) for a in ans]
        self.text = '^%s/%s$' % (sf, '/'.join(ans) if ans else '*' + sf)

    def gold(self, i):
        return '^%s/%s$' % (self.sf, self.raw[i] if self.ans else '*' + self.sf)


COARSE = {('x',): 'X', ('y',): 'Y', ('z',): 'Z', ('sent',): 'TAG_SENT'}


def coarse(m):
    return COARSE.get(m[1], 'TAG_kUNDEF')


# ---------------------------------------------------------------- expressions
class C:
    """evaluation context: chosen analyses so far, the sentence, position"""
    def __init__(self, tagged, sent, tok, wrd):
        self.tagged, self.sent, self.tok, self.wrd, self.env = tagged, sent, tok, wrd, {}

    def words(self, t):
        return self.tagged[t] if self.tagged[t] else (UNT,)


# perceptron_spec.cc has recorded defects (known_findings.txt).  Features that can meet one are
# checked one per specification; HITS collects the defects a run of the model came across, and
# SWAP evaluates order comparisons the way the tool is known to.
HITS = set()
SWAP = [False]
QUIRKY = re.compile('<(?:lte?|gte?|and|or|for-each|slice|subscript idx="-)')


class E:
    def __init__(self, xml, fn):
        self.xml, self.fn = xml, fn

    def __call__(self, c):
        return self.fn(c)


def el(_t, *subs, **at):
    return '<%s%s%s' % (_t, ''.join(' %s="%s"' % kv for kv in at.items()), '>%s</%s>' % (''.join(s.xml for s in subs), _t) if subs else '/>')


def INT(n): return E(el('int', val=n), lambda c: n)
TOKADDR = E('<tokaddr/>', lambda c: c.tok)
WRDIDX = E('<wrdidx/>', lambda c: c.wrd)
SENTLEN = E('<sentlen/>', lambda c: len(c.sent))
WRDADDR = E('<wrdaddr/>', lambda c: (c.tok, c.wrd))
def ADD(a, b): return E(el('add', a, b), lambda c: a(c) + b(c))
def TOKLEN(a): return E(el('toklen', a), lambda c: len(c.words(a(c))))
def STRLEN(a): return E(el('strlen', a), lambda c: len(a(c).encode()))
def ARRLEN(a): return E(el('arrlen', a), lambda c: len(a(c)))
def ADDRINTS(a, b): return E(el('addr-of-ints', a, b), lambda c: (a(c), b(c)))
def ADDA(a, b): return E(el('add', a, b), lambda c: tuple(x + y for x, y in zip(a(c), b(c))))


def ADJUST(a):
    def f(c):
        t, w = a(c)
        if 0 <= t < len(c.tagged):
            while w < 0 and t > 0:
                t -= 1
                w += len(c.words(t))
            while w >= len(c.words(t)) and t < len(c.tagged) - 1:
                w -= len(c.words(t))
                t += 1
        return t, w
    return E(el('adjust', a), f)


def CLAMP(a):
    def f(c):
        t, w = a(c)
        t = min(max(t, 0), len(c.tagged) - 1)
        return t, min(max(w, 0), len(c.words(t)) - 1)
    return E(el('clamp', a), f)


def WORDOID(a):
    def f(c):
        t, w = a(c)
        if t < 0:
            return TUF
        if t >= len(c.tagged):
            return TOF
        ws = c.words(t)
        return TUF if w < 0 else TOF if w >= len(ws) else ws[w]
    return E(el('ex-wordoid', a), f)


def WORDOIDS(a):
    def f(c):
        t = a(c)
        return (TUF,) if t < 0 else (TOF,) if t >= len(c.tagged) else c.words(t)
    return E(el('ex-wordoids', a), f)


def SURF(a):
    def f(c):
        t = a(c)
        return '!SURF_UNDERFLOW!' if t < 0 else '!SURF_OVERFLOW!' if t >= len(c.sent) else c.sent[t].sf
    return E(el('ex-surf', a), f)


def LEMMA(w): return E(el('ex-lemma', w), lambda c: w(c)[0])
def COARSETAG(w): return E(el('ex-coarse', w), lambda c: coarse(w(c)))
def TAGS(w): return E(el('ex-tags', w), lambda c: list(w(c)[1]))


def AMBGSET(a):
    def f(c):
        t = a(c)
        ans = [(TUF,)] if t < 0 else [(TOF,)] if t >= len(c.sent) else c.sent[t].ans
        return ['+'.join(coarse(m) for m in an) for an in ans]
    return E(el('ex-ambgset', a), f)


def SUBSCRIPT(a, i):
    def f(c):
        v = a(c)
        j = i + len(v) if i < 0 else i
        return v[min(max(j, 0), len(v) - 1)]
    return E(el('subscript', a, idx=i), f)


def SLICE(a, s=None, e=None):
    at = {}
    if s is not None:
        at['start'] = s
    if e is not None:
        at['end'] = e

    def f(c):
        v = a(c)
        if isinstance(v, list) and not v[s:e]:
            HITS.add('slice')
        return v[s:e]
    return E(el('slice', a, **at), f)


def JOIN(a, sep=None): return E(el('join', a, **({'val': sep} if sep else {})), lambda c: (sep or '.').join(a(c)))
def VAR(n): return E(el('var', name=n), lambda c: c.env[n])


def FOREACH(n, it, body):
    def f(c):
        r = []
        HITS.add('uninitialised')
        for x in it(c):
            c.env[n] = x
            r.append(body(c))
        return r
    return E(el('for-each', it, body, **{'as': n}), f)


def CMP(op, a, b):
    import operator as o
    g = dict(eq=o.eq, neq=o.ne, lt=o.lt, lte=o.le, gt=o.gt, gte=o.ge)[op]

    def f(c):
        x, y = a(c), b(c)
        if op not in ('eq', 'neq') and x != y:
            HITS.add('comparison')
            if SWAP[0]:
                x, y = y, x
        return g(x, y)
    return E(el(op, a, b), f)


def logic(name, stop):
    def make(*s):
        def f(c):
            v = [x(c) for x in s]
            r = v[0]
            for x in v[1:]:
                if x == stop:
                    HITS.add('and-or')        # the other operand stays on the stack
                r = (r and x) if name == 'and' else (r or x)
            return r
        return E(el(name, *s), f)
    return make


AND, OR = logic('and', False), logic('or', True)
def NOT(a): return E(el('not', a), lambda c: not a(c))
def STREQ(a, v): return E(el('streq', a, val=v), lambda c: a(c) == v)
def STREQN(a, n, v): return E(el('streq', a, name=n), lambda c: a(c) == v)
def STRIN(a, vs): return E(el('strin', a, val=' '.join(vs)), lambda c: a(c) in vs)
def STRINN(a, n, vs): return E(el('strin', a, name=n), lambda c: a(c) in vs)
def HASANY(a, vs): return E(el('sethasany', a, val=' '.join(vs)), lambda c: any(x in vs for x in a(c)))
def HASALL(a, vs): return E(el('sethasall', a, val=' '.join(vs)), lambda c: all(x in vs for x in a(c)))


class Macro:
    def __init__(self, name, e):
        self.name, self.e = name, e
        self.use = E('<macro name="%s"></macro>' % name, e.fn)


# ------------------------------------------------------------------- features
OUT, MANY, PRED = 'out', 'out-many', 'pred'


class Spec:
    """feats: list of lists of (kind, expr)"""
    def __init__(self, feats, beam=None, pred=None, defns='', coarse=True):
        self.feats, self.beam, self.pred, self.defns, self.coarse = feats, beam, pred, defns, coarse

    def xml(self):
        return '<?xml version="1.0" encoding="UTF-8"?>\n<metatag>\n%s%s%s%s<feats>\n%s</feats>\n</metatag>\n' % (
            '<coarse-tags tag="t.tsx"/>\n' if self.coarse else '',
            '<beam-width val="%d"/>\n' % self.beam if self.beam else '',
            '<defns>%s</defns>\n' % self.defns if self.defns else '',
            '<global-pred>%s</global-pred>\n' % self.pred.xml if self.pred else '',
            ''.join('<feat>%s</feat>\n' % ''.join('<%s>%s</%s>' % (k, e.xml, k) for k, e in f) for f in self.feats))

    def features(self, tagged, sent, tok):
        """multiset (list) of feature keys of the last chosen token"""
        res = []
        for w in range(len(tagged[tok])):
            mk = lambda: C(tagged, sent, tok, w)
            if self.pred:
                HITS.add('uninitialised')
            if self.pred and not self.pred(mk()):
                continue
            for i, f in enumerate(self.feats):
                keys = [(chr(i),)]
                for k, e in f:
                    v = e(mk())
                    if k == PRED:
                        if not v:
                            keys = []
                            break
                    elif k == MANY:
                        keys = [x + (s,) for s in v for x in keys]
                    else:
                        keys = [x + (('t' if v else 'f') if isinstance(v, bool) else str(v),) for x in keys]
                res += keys
        return res


def add(vec, keys, s=1.0):
    for k in keys:
        vec[k] = vec.get(k, 0.0) + s
    return vec


# ----------------------------------------------------------------- model file
def rd_int(b, i):
    n = b[i]
    return int.from_bytes(b[i + 1:i + 1 + n], 'big'), i + 1 + n


def wr_int(v):
    n = max(1, (v.bit_length() + 7) // 8)
    return bytes([n]) + v.to_bytes(n, 'big')


def rd_weights(b):
    i = 0
    n, i = rd_int(b, i)
    w = {}
    for _ in range(n):
        m, i = rd_int(b, i)
        key = []
        for _ in range(m):
            l, i = rd_int(b, i)
            s = bytearray()
            for _ in range(l):
                x, i = rd_int(b, i)
                s.append(x)
            key.append(s.decode('utf8', 'replace'))
        d, i = rd_int(b, i)
        w[tuple(key)] = struct.unpack('>d', d.to_bytes(8, 'big'))[0]
    if i != len(b):
        raise ValueError('trailing data')
    return w


def wr_weights(w):
    o = bytearray(wr_int(len(w)))
    for k in sorted(w, key=lambda k: [s.encode() for s in k]):
        o += wr_int(len(k))
        for s in k:
            s = s.encode()
            o += wr_int(len(s)) + b''.join(wr_int(c) for c in s)
        o += wr_int(struct.unpack('>Q', struct.pack('>d', w[k]))[0])
    return bytes(o)


def compile_spec(w, spec, d, key=None):
    """prefix of the model file that holds the compiled specification"""
    os.makedirs(d, exist_ok=True)
    f = tag.write(d + '/s.mtx', spec.xml())
    tag.write(d + '/t.tsx', TSX)
    e = tag.write(d + '/empty', '')
    r = w.run1('apertium-tagger', ['-x', '-s', '0', d + '/p.prob', e, e, f])
    b = open(d + '/p.prob', 'rb').read() if r.status == 0 else b''
    if r.status and key and w.known_finding(key):
        return None
    if r.status or not b.endswith(b'\1\0'):
        w.fail('apertium-tagger', ['-x', '-s', '0', d + '/p.prob', e, e, f], b'', r, 'specification rejected:\n' + spec.xml()[:3000], [f])
        return None
    return b[:-2]


TSX = Tsx([('X', False, [(None, 'x')]), ('Y', False, [(None, 'y')]), ('Z', False, [(None, 'z')])]).xml()


def train(w, spec, pre, d, sents, iters):
    """sents: [(tokens, gold indices)] -> weights"""
    T = tag.write(d + '/T', '\n'.join(' '.join(t.gold(g) for t, g in zip(s, gs)) for s, gs in sents) + '\n')
    U = tag.write(d + '/U', '\n'.join(' '.join(t.text for t in s) for s, gs in sents) + '\n')
    if os.path.exists(d + '/q.prob'):
        os.unlink(d + '/q.prob')
    argv = ['-x', '-s', str(iters), d + '/q.prob', T, U, d + '/s.mtx']
    r = w.run1('apertium-tagger', argv)
    if r.status:
        w.fail('apertium-tagger', argv, b'', r, 'training on %s failed' % open(U).read(), [T, U, d + '/s.mtx'])
        return None
    b = open(d + '/q.prob', 'rb').read()
    if not b.startswith(pre):
        w.fail('apertium-tagger', argv, b'', r, 'the compiled specification depends on the corpus', [T, U, d + '/s.mtx'])
        return None
    return rd_weights(b[len(pre):])


# ----------------------------------------------------- suite 1: feature values
def features_suite(ctx, name, specs, quirky=False):
    L = [Tok('Ex', 'ex<x>'), Tok('xc', 'xq<x>+c<z>'), Tok('unk')]
    A = [Tok('am', 'am<x>', 'bm<y><pl>'), Tok('cw', 'ex<x>+d<z><q>', 'ey<y>'), Tok('tri', 'é<z>+f<y>+g<x>', 'ex<q><x>+h<y>')]
    R = [Tok('Ex', 'ex<x>'), Tok('unq'), Tok('am2', 'am<x>', 'o<y>+p<z>')]
    lefts = [p for n in range(0, ctx.pick(3, 4)) for p in itertools.product(L, repeat=n)]
    rights = [p for n in range(0, 2) for p in itertools.product(R, repeat=n)]
    if quirky and ctx.quick:
        lefts = [x for x in lefts if len(x) < 2]
    ctxs = [(l, a, r) for l in lefts for a in A for r in rights]

    def fn(w, blk):
        for si in blk:
            spec = specs[si]
            d = '%s/s%d' % (w.tmp, si)
            pre = compile_spec(w, spec, d, 'negative-subscript' if 'subscript idx="-' in spec.xml() else None)
            if pre is None:
                continue
            for l, a, r in ctxs:
                s = list(l) + [a] + list(r)
                k = len(l)
                pre_t = [t.ans[0] if t.ans else None for t in l]
                HITS.clear()
                SWAP[0] = False
                f = fs = [add({}, spec.features(pre_t + [an], s, k)) for an in a.ans]
                hits = set(HITS)
                if 'comparison' in hits:
                    SWAP[0] = True
                    fs = [add({}, spec.features(pre_t + [an], s, k)) for an in a.ans]
                    hits |= HITS
                    SWAP[0] = False
                w.states += 1
                updates = 0
                known = False
                for g in (0, 1):
                    # the word to the right stays ambiguous in the sentence but unknown in the gold text
                    got = train_one(w, spec, pre, d, s, k, g, hits)
                    if got == 'known':
                        known = True
                        continue
                    if got is None:
                        return

                    def weights(f):
                        exp = {}
                        for key in set(f[0]) | set(f[1]):
                            v = f[g].get(key, 0) - f[1 - g].get(key, 0)
                            if v:
                                exp[key] = v
                        return exp
                    exp = weights(f)
                    w.trans += len(exp)
                    if got:
                        updates += 1
                        w.seen(str(sorted(got)))
                    if got != exp and fs != f and (got or fs[0] == fs[1]) and got in ({}, weights(fs)) and w.known_finding('comparison'):
                        known = True
                        continue
                    if got and got != exp:
                        m = sorted(set(got.items()) ^ set(exp.items()))
                        i = ord(m[0][0][0])
                        w.fail('apertium-tagger', [], (' '.join(t.text for t in s)).encode(), None,
                               'sentence %s, reading %s: feature %s has weights %s, expected %s' % (
                                   ' '.join(t.text for t in s), a.raw[g], ''.join('<%s>%s</%s>' % (q, e.xml, q) for q, e in spec.feats[i]),
                                   {k: v for k, v in got.items() if k[0] == chr(i)}, {k: v for k, v in exp.items() if k[0] == chr(i)}),
                               [d + '/s.mtx', d + '/T', d + '/U'])
                        return
                if updates != 1 and f[0] != f[1] and not known:
                    w.fail('apertium-tagger', [], (' '.join(t.text for t in s)).encode(), None,
                           '%d of the two opposite gold readings led to an update' % updates, [d + '/s.mtx', d + '/T', d + '/U'])
            if len(w.samples) < 2:
                w.samples.append(dict(spec=spec.xml()[:600], weights=str(got)[:300]))

    def train_one(w, spec, pre, d, s, k, g, hits=()):
        T = tag.write(d + '/T', ' '.join(t.gold(g) if i == k else '^%s/*%s$' % (t.sf, t.sf) if len(t.ans) != 1 else t.gold(0) for i, t in enumerate(s)) + '\n')
        U = tag.write(d + '/U', ' '.join(t.text for t in s) + '\n')
        if os.path.exists(d + '/q.prob'):
            os.unlink(d + '/q.prob')
        argv = ['-x', '-s', '1', d + '/q.prob', T, U, d + '/s.mtx']
        r = w.run1('apertium-tagger', argv)
        if r.status and any(h in ('and-or', 'uninitialised', 'slice') and w.known_finding(h) for h in sorted(hits)):
            return 'known'
        if r.status:
            w.fail('apertium-tagger', argv, b'', r, 'training on %s failed' % open(U).read(), [T, U, d + '/s.mtx'])
            return None
        b = open(d + '/q.prob', 'rb').read()
        if not b.startswith(pre):
            w.fail('apertium-tagger', argv, b'', r, 'the compiled specification depends on the corpus', [T, U, d + '/s.mtx'])
            return None
        return rd_weights(b[len(pre):])
    ctx.parallel(name, lambda: range(len(specs)), fn, 1)


def macro_suite(ctx):
    """macros with one argument: correct when the argument is the first thing the body
    evaluates; otherwise the argument's code is misplaced (known finding)"""
    lef = Tok('unk')
    A = [Tok('am', 'am<x>', 'bm<y>'), Tok('cw', 'ex<x>+d<z>', 'ey<y>')]

    def build(body, arg, nargs=1):
        x = body(E('<var name="a"/>', None)).xml
        return '<def-macro as="m" args="a">%s</def-macro>' % x, '<macro name="m">%s</macro>' % arg.xml, body(arg)

    first = [(lambda a: LEMMA(WORDOID(ADDRINTS(a, WRDIDX))), t) for t in (TOKADDR, INT(0), ADD(TOKADDR, INT(-1)))]
    later = [(lambda a: LEMMA(WORDOID(ADDRINTS(TOKADDR, a))), t) for t in (INT(0), INT(1))]

    def fn(w, blk):
        for k in blk:
            body, arg = (first + later)[k]
            df, use, e = build(body, arg)
            spec = Spec([[(OUT, E(use, e.fn))]], defns=df)
            d = '%s/m%d' % (w.tmp, k)
            pre = compile_spec(w, spec, d)
            if pre is None:
                return
            for n in (0, 1, 2):
                for a in A:
                    s = [lef] * n + [a]
                    f = [add({}, spec.features([None] * n + [an], s, n)) for an in a.ans]
                    for g in (0, 1):
                        got = train(w, spec, pre, d, [(s, [0] * n + [g])], 1)
                        if got is None:
                            return
                        exp = {q: f[g].get(q, 0) - f[1 - g].get(q, 0) for q in set(f[0]) | set(f[1])}
                        exp = {q: v for q, v in exp.items() if v}
                        w.states += 1
                        w.seen(str(sorted(got)))
                        if got and got != exp and not (k >= len(first) and w.known_finding('macro-arguments')):
                            w.fail('apertium-tagger', [], b'', None, 'macro %s used as %s: weights %s, expected %s' % (df, use, got, exp), [d + '/s.mtx', d + '/T', d + '/U'])
                            return
    ctx.parallel('macro arguments', lambda: range(len(first) + len(later)), fn, 1)


def expressions(quick):
    addrs = [WRDADDR] + [ADDA(WRDADDR, ADDRINTS(INT(a), INT(b))) for a, b in ((0, -1), (0, 1), (-1, 0), (1, 0))]
    addrs += [ADJUST(ADDA(WRDADDR, ADDRINTS(INT(0), INT(b)))) for b in (-1, -2, 1, -3)]
    addrs += [CLAMP(ADDA(WRDADDR, ADDRINTS(INT(a), INT(b)))) for a, b in ((-3, 0), (0, 5), (-1, 1), (0, -1))]
    addrs += [ADDRINTS(TOKADDR, WRDIDX), ADDRINTS(INT(0), INT(0)), ADJUST(ADDRINTS(INT(-1), INT(1))), ADDRINTS(ADD(TOKADDR, INT(-1)), INT(1))]
    wrds = [WORDOID(a) for a in addrs] + [SUBSCRIPT(WORDOIDS(t), i) for t in (TOKADDR, ADD(TOKADDR, INT(-1)), INT(7)) for i in (0, 1, -1, -2)]
    w0, wp = wrds[0], WORDOID(addrs[5])
    F = []
    F += [[(OUT, LEMMA(w))] for w in wrds]
    F += [[(OUT, COARSETAG(w))] for w in (wrds if not quick else wrds[:10])]
    toks = [TOKADDR, ADD(TOKADDR, INT(-1)), ADD(TOKADDR, INT(1)), INT(0), INT(-1), ADD(ADD(TOKADDR, INT(-2)), WRDIDX)]
    F += [[(OUT, SURF(t))] for t in toks]
    F += [[(MANY, AMBGSET(t))] for t in toks]
    arrs = [TAGS(w0), TAGS(wp), AMBGSET(TOKADDR), FOREACH('v', WORDOIDS(TOKADDR), LEMMA(VAR('v'))), FOREACH('u', TAGS(w0), VAR('u')),
            FOREACH('t', FOREACH('s', WORDOIDS(TOKADDR), COARSETAG(VAR('s'))), SLICE(VAR('t'), 0, 1)),
            FOREACH('a', WORDOIDS(ADD(TOKADDR, INT(-1))), JOIN(FOREACH('b', TAGS(VAR('a')), JOIN(FOREACH('c', TAGS(w0), VAR('c')), '-')), '_'))]
    F += [[(MANY, a)] for a in arrs]
    F += [[(OUT, JOIN(a, s))] for a in arrs for s in (None, '/')]
    F += [[(MANY, SLICE(a, s, e))] for a in arrs for s, e in ((None, 1), (-1, None), (0, -1))]
    F += [[(OUT, SUBSCRIPT(a, i))] for a in arrs for i in (0, -1, 1)]
    F += [[(OUT, ARRLEN(a))] for a in arrs]
    F += [[(MANY, SLICE(AMBGSET(ADD(TOKADDR, INT(-1))), *se))] for se in ((None, 1), (0, -1))]
    lem, sur = LEMMA(w0), SURF(TOKADDR)
    F += [[(OUT, SLICE(x, s, e))] for x in (sur, COARSETAG(w0)) for s, e in ((0, 1), (None, 2), (-1, None), (0, -1), (-2, None))]
    F += [[(OUT, STRLEN(x))] for x in (sur, lem, JOIN(TAGS(w0)))]
    ints = [INT(0), INT(2), INT(-1), TOKADDR, WRDIDX, SENTLEN, TOKLEN(TOKADDR), ADD(TOKADDR, INT(1)), STRLEN(sur), ARRLEN(TAGS(w0)), ADD(WRDIDX, TOKADDR)]
    F += [[(OUT, i)] for i in ints]
    ops = ['eq', 'neq', 'lt', 'lte', 'gt', 'gte']
    prs = list(itertools.permutations(ints[1:9] if quick else ints, 2)) if not quick else [(ints[a], ints[b]) for a, b in ((3, 0), (0, 3), (4, 5), (5, 6), (6, 4), (8, 1), (9, 1), (1, 7), (10, 6))]
    F += [[(OUT, CMP(o, a, b))] for o in ops for a, b in prs]
    bs = [CMP('neq', WRDIDX, INT(0)), STREQ(lem, 'ex'), STRIN(COARSETAG(w0), ['X', 'Y']), HASANY(TAGS(w0), ['y', 'z']), HASALL(TAGS(w0), ['x', 'q']),
          HASANY(TAGS(wp), ['x']), STREQ(sur, 'cw'), HASALL(AMBGSET(TOKADDR), ['X', 'Y'])]
    gt = CMP('gt', WRDIDX, INT(0))
    F += [[(OUT, NOT(gt))], [(PRED, gt), (OUT, lem)], [(OUT, lem), (PRED, NOT(gt))]]
    F += [[(OUT, b)] for b in bs] + [[(OUT, NOT(b))] for b in bs]
    F += [[(OUT, o(a, b))] for o in (AND, OR) for a, b in itertools.permutations(bs, 2) if not quick or (a in bs[:4] and b in bs[:4])]
    F += [[(OUT, o(a, b, c))] for o in (AND, OR) for a, b, c in itertools.permutations(bs[:4], 3)]
    F += [[(OUT, o(AND(a, b), OR(c, NOT(a))))] for o in (AND, OR) for a, b, c in itertools.permutations(bs[:4], 3)]
    # several items, predicates in every place
    F += [[(PRED, b), (OUT, lem)] for b in bs] + [[(OUT, lem), (PRED, b)] for b in bs] + [[(OUT, lem), (PRED, b), (MANY, TAGS(w0)), (OUT, WRDIDX)] for b in bs]
    F += [[(MANY, a), (MANY, b)] for a, b in itertools.product(arrs[:5], repeat=2)]
    F += [[(MANY, arrs[0]), (OUT, lem), (MANY, arrs[2]), (OUT, bs[0])], [(PRED, bs[0]), (PRED, bs[3]), (OUT, sur)]]
    return F


# ------------------------------------------------------------- suite 2: tagging
def paths(spec, W, sent, beam):
    """sets of token sequences the beam search may return; None if the beam cuts through a tie"""
    ag = {(): 0.0}
    for i, t in enumerate(sent):
        if len(t.ans) <= 1:
            ag = {p + ((t.ans[0] if t.ans else None),): s for p, s in ag.items()}
            continue
        new = {}
        for p, s in ag.items():
            for a in t.ans:
                q = p + (a,)
                new[q] = s + sum(W.get(k, 0.0) for k in spec.features(q, sent, i))
        if beam == 1:
            m = max(new.values())
            return_sets = [q for q in new if new[q] >= m - 1e-9]
            if len(return_sets) > 1:
                res = []
                for q in return_sets:
                    r = paths_from(spec, W, sent, i + 1, q, new[q])
                    res += r
                return res
            new = {return_sets[0]: m}
        elif len(new) > beam:
            o = sorted(new.values(), reverse=True)
            if o[beam - 1] - o[beam] < 1e-9:
                return None
            new = {q: s for q, s in new.items() if s >= o[beam - 1] - 1e-12}
        ag = new
    m = max(ag.values())
    return [p for p, s in ag.items() if s >= m - 1e-9]


def paths_from(spec, W, sent, i, p, s):
    """greedy continuation"""
    st = [p]
    for j in range(i, len(sent)):
        t, nx = sent[j], []
        for q in st:
            if len(t.ans) <= 1:
                nx.append(q + ((t.ans[0] if t.ans else None),))
                continue
            sc = {a: sum(W.get(k, 0.0) for k in spec.features(q + (a,), sent, j)) for a in t.ans}
            m = max(sc.values())
            nx += [q + (a,) for a in sc if sc[a] >= m - 1e-9]
        st = nx
    return st


def render(sent, p):
    return ''.join('^%s$' % ('*' + t.sf if a is None else t.raw[t.ans.index(a)]) for t, a in zip(sent, p))


def tagging_suite(ctx, name, spec, words, depth, keys, vals, nz, stop):
    sents = [s for n in range(depth + 1) for s in itertools.product(words, repeat=n)]
    inp = ''.join(''.join(t.text for t in s) + '\0' for s in sents).encode()
    beam = spec.beam or 4

    def models():
        for n in range(nz + 1):
            for ks in itertools.combinations(keys, n):
                for vs in itertools.product(vals, repeat=n):
                    yield dict(zip(ks, vs))

    def split(s):
        r, cur = [], []
        for t in s:
            cur.append(t)
            if t is stop:
                r.append(cur)
                cur = []
        return r + [cur] if cur else r

    def fn(w, blk):
        d = w.tmp + '/tg'
        if not hasattr(w, 'pre'):
            w.pre = {}
        if name not in w.pre:
            w.pre[name] = compile_spec(w, spec, d)
        pre = w.pre[name]
        if pre is None:
            return
        memo = {}
        for W in blk:
            f = tag.write(d + '/m.prob', pre + wr_weights(W))
            argv = ['-g', '-x', '-z', f]
            r = w.run1('apertium-tagger', argv, inp)
            outs = r.out.decode().split('\0')
            if r.status or len(outs) < len(sents):
                w.fail('apertium-tagger', argv, inp, r, 'status %d, %d replies to %d requests' % (r.status, len(outs) - 1, len(sents)))
                return
            w.seen(r.out)
            cache = {}
            for s, g in zip(sents, outs):
                w.states += 1
                w.trans += len(s)
                alts = ['']
                for part in split(s):
                    part = tuple(part)
                    if part not in cache:
                        p = paths(spec, W, part, beam)
                        cache[part] = None if p is None else [render(part, q) for q in p]
                    if cache[part] is None:
                        alts = None
                        break
                    alts = [a + b for a in alts for b in cache[part]]
                if alts is None:
                    w.extra['undetermined_by_ties'] = w.extra.get('undetermined_by_ties', 0) + 1
                elif g not in alts:
                    w.fail('apertium-tagger', argv, ''.join(t.text for t in s).encode(), r, '%s tagged %s, expected %s (weights %s)' % (
                        ''.join(t.text for t in s), g, ' or '.join(alts), W))
                    return
        if len(w.samples) < 2:
            w.samples.append(dict(weights=str(W), sentence=''.join(t.text for t in s), output=g))
    ctx.parallel(name, models, fn, 4)


# ------------------------------------------------------------ suite 3: training
def simulate(spec, corpus, iters, beam):
    """set of weight vectors training may end with (any sentence order, any choice among ties)"""
    fz = lambda d: tuple(sorted((k, v) for k, v in d.items()))
    start = (fz({}), fz({}), fz({}), 0)                     # weights, totals, timestamps, updates
    states = {start}
    fcache = {}

    def feats(q, s, i):
        k = (q, id(s), i)
        if k not in fcache:
            fcache[k] = spec.features(q, s, i)
        return fcache[k]

    def upd(st, bad, good):
        w, tot, ts, n = dict(st[0]), dict(st[1]), dict(st[2]), st[3]
        for vec, sign in ((bad, -1.0), (good, 1.0)):
            for k in vec:
                tot[k] = tot.get(k, 0.0) + (n - ts.get(k, 0)) * w.get(k, 0.0)
                ts[k] = n
            for k, v in vec.items():
                w[k] = w.get(k, 0.0) + sign * v
        return fz(w), fz(tot), fz(ts), n + 1

    def one(st, sent, gold):
        W = dict(st[0])
        gp = tuple((t.ans[g] if t.ans else None) for t, g in zip(sent, gold))
        # agenda: list of (path, score, vec as list of keys)
        outs = set()

        def go(i, ag):
            while i < len(sent) and len(sent[i].ans) <= 1:
                ag = [(p + ((sent[i].ans[0] if sent[i].ans else None),), s, v) for p, s, v in ag]
                i += 1
            if i == len(sent):
                m = max(s for p, s, v in ag)
                for p, s, v in ag:
                    if s >= m - 1e-12:
                        outs.add(st if p == gp else upd(st, add({}, v), add({}, [v for p, s, v in ag if p == gp][0])))
                return
            new = []
            for p, s, v in ag:
                for a in sent[i].ans:
                    q = p + (a,)
                    ks = feats(q, sent, i)
                    new.append((q, s + sum(W.get(k, 0.0) for k in ks), v + ks))
            if beam == 1:
                m = max(s for p, s, v in new)
                for it in new:
                    if it[1] >= m - 1e-12:
                        if it[0] == gp[:i + 1]:
                            go(i + 1, [it])
                        else:
                            good = [v for p, s, v in new if p == gp[:i + 1]][0]
                            outs.add(upd(st, add({}, it[2]), add({}, good)))
            else:
                assert len(new) <= beam
                go(i + 1, new)
        go(0, [((), 0.0, [])])
        return outs
    for _ in range(iters):
        nxt = set()
        for order in set(itertools.permutations(range(len(corpus)))):
            cur = states
            for c in order:
                cur = set().union(*(one(st, *corpus[c]) for st in cur))
            nxt |= cur
        states = nxt
    res = []
    for w, tot, ts, n in states:
        w, tot, ts = dict(w), dict(tot), dict(ts)
        r = {}
        for k in w:
            t = tot.get(k, 0.0) + (n - ts.get(k, 0)) * w[k]
            if t:
                r[k] = t / n
        res.append(r)
    return res


def training_suite(ctx, name, spec, corpora, iters, beam):
    def fn(w, blk):
        d = w.tmp + '/tr'
        if not hasattr(w, 'pre'):
            w.pre = {}
        if name not in w.pre:
            w.pre[name] = compile_spec(w, spec, d)
        pre = w.pre[name]
        if pre is None:
            return
        for corpus in blk:
            for n in iters:
                got = train(w, spec, pre, d, corpus, n)
                if got is None:
                    return
                exp = simulate(spec, corpus, n, beam)
                w.states += len(exp)
                w.trans += n * len(corpus)
                w.seen(str(sorted(got.items())))
                if not any(set(got) == set(e) and all(abs(got[k] - e[k]) < 1e-9 for k in e) for e in exp):
                    w.fail('apertium-tagger', [], b'', None, 'training on %s, gold %s, %d iterations: weights %s, expected one of %d: %s' % (
                        ' | '.join(''.join(t.text for t in s) for s, g in corpus), ' | '.join(''.join(t.gold(i) for t, i in zip(s, g)) for s, g in corpus),
                        n, got, len(exp), exp[:3]), [d + '/s.mtx', d + '/T', d + '/U'])
                    return
        if len(w.samples) < 2:
            w.samples.append(dict(corpus=str([''.join(t.text for t in s) for s, g in corpus]), weights=str(got)[:300]))
    ctx.parallel(name, corpora, fn, 8)


def run(ctx):
    ctx.rule = ('(1) every listed expression of the feature language in every listed context, observed through the weights of one training update; '
                '(2) every sparse weight table x every sentence up to the bound, against the beam search; (3) every corpus up to the bound and number of '
                'iterations, against the averaged perceptron over every sentence order and every choice among equal scores')
    ctx.assumptions.append('macros with an argument only where the body evaluates it first (the rest is a known finding); the wordoid count of the sentence (pathlen) is not implemented by the tool and not used')
    ctx.need('apertium-tagger')
    F = expressions(ctx.quick)
    sound = [f for f in F if not QUIRKY.search(Spec([f]).xml())]
    quirky = [Spec([f]) for f in F if QUIRKY.search(Spec([f]).xml())]
    specs = [Spec(sound[i:i + 50]) for i in range(0, len(sound), 50)]
    w0 = WORDOID(WRDADDR)
    lem = LEMMA(w0)
    mac = [Macro('m1', LEMMA(w0)), Macro('m2', JOIN(AMBGSET(TOKADDR), '+')), Macro('m3', COARSETAG(WORDOID(ADJUST(ADDA(WRDADDR, ADDRINTS(INT(0), INT(-1)))))))]
    defs = '<def-set name="S1"><set-member tag="x"/><set-member str="ex"/></def-set><def-set name="S2"><set-member str="q"/><set-member tag="y"/></def-set>' \
           '<def-str name="A1" str="ex"/><def-str name="A2" tag="X"/>' + ''.join('<def-macro as="%s">%s</def-macro>' % (m.name, m.e.xml) for m in mac)
    named = [[(OUT, m.use)] for m in mac] + [[(OUT, mac[a].use), (OUT, mac[b].use)] for a, b in itertools.product(range(3), repeat=2)]
    named += [[(OUT, STRINN(lem, 'S1', ['x', 'ex']))], [(OUT, STRINN(lem, 'S2', ['q', 'y']))], [(PRED, STREQN(lem, 'A1', 'ex')), (OUT, mac[1].use)],
              [(OUT, STREQN(COARSETAG(w0), 'A2', 'X'))], [(OUT, STREQ(mac[0].use, 'am'))], [(OUT, STREQN(mac[2].use, 'A2', 'X'))]]
    specs.append(Spec(named, defns=defs))
    mf = Macro('m2', JOIN(FOREACH('v', WORDOIDS(TOKADDR), COARSETAG(VAR('v'))), '+'))
    quirky.append(Spec([[(OUT, mf.use)], [(OUT, mf.use), (OUT, lem)]], defns='<def-macro as="m2">%s</def-macro>' % mf.e.xml))
    for p in (CMP('neq', WRDIDX, INT(0)), STREQ(COARSETAG(w0), 'X'), NOT(HASANY(TAGS(w0), ['y', 'q']))):
        quirky.append(Spec([[(OUT, lem)], [(OUT, SURF(TOKADDR))], [(MANY, TAGS(w0)), (OUT, WRDIDX)]], pred=p))
    specs.append(Spec([[(OUT, lem)], [(OUT, WRDIDX), (MANY, TAGS(w0))]], coarse=False))
    features_suite(ctx, 'feature values', specs)
    features_suite(ctx, 'feature values, alone', quirky, True)
    macro_suite(ctx)

    am, bm, un, ex, co, st = (Tok('am', 'am<x>', 'bm<y>'), Tok('an', 'an<y>', 'ao<z>', 'am<x>'), Tok('unk'), Tok('ex', 'ex<x>'),
                              Tok('co', 'p<x>+q<y>', 'r<z>'), Tok('.', '.<sent>'))
    prev = COARSETAG(WORDOID(ADJUST(ADDA(WRDADDR, ADDRINTS(INT(0), INT(-1))))))
    cur = COARSETAG(w0)
    FT = [[(OUT, cur)], [(OUT, prev), (OUT, cur)], [(OUT, SURF(ADD(TOKADDR, INT(1)))), (OUT, cur)]]
    keys = [('\0', c) for c in 'XYZ'] + [('\1', a, b) for a in ('X', 'Y', 'Z', 'TAG_kUNDEF') for b in 'XYZ'] + [('\2', s, c) for s in ('am', '.', '!SURF_OVERFLOW!') for c in 'XY']
    tagging_suite(ctx, 'tagging', Spec(FT), [am, un, ex, st, co], 4, keys, (1.0, -1.5) if ctx.quick else (1.0, -1.5), 2, st)
    tagging_suite(ctx, 'tagging, beam 1', Spec(FT, beam=1), [am, bm, ex, st], 3, keys, (1.0, -0.5), 2, st)
    tagging_suite(ctx, 'tagging, beam 2', Spec(FT, beam=2), [am, bm, co], 3, keys, (1.0, -0.5, 0.25), 2, st)
    tagging_suite(ctx, 'tagging, beam 9', Spec(FT, beam=9), [am, bm, co, un], 3, keys, (1.0, -0.5), 2, st)

    ws = [am, ex, co, un]
    def golds(s):
        return itertools.product(*[range(max(1, len(t.ans))) for t in s])
    S = [(s, g) for n in ((1, 2, 3) if ctx.quick else (1, 2, 3, 4)) for s in itertools.product(ws, repeat=n) for g in golds(s)]
    ends = [(s + (st,), g + (0,)) for s, g in S]
    one = lambda: ([x] for x in ends + S)
    small = [x for x in ends if len(x[0]) <= 3]
    two = lambda: ([x, y] for i, x in enumerate(small) for y in small[i if not ctx.quick else i:] if any(len(t.ans) > 1 for t in x[0]) and any(len(t.ans) > 1 for t in y[0]))
    training_suite(ctx, 'training', Spec(FT, beam=16), one, (1, 2, 3), 16)
    training_suite(ctx, 'training, beam 1', Spec(FT, beam=1), one, (1, 2, 3), 1)
    training_suite(ctx, 'training, two sentences', Spec(FT, beam=9), two, (1, 2) if ctx.quick else (1, 2, 3), 9)
