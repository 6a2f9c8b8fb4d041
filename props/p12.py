"""P12: capitalisation: what extract records, and which case restore gives every word."""
import itertools as it
import re
from core import describe, show, judge_eq

# ---------------------------------------------------------------- words

def getcase(s):
    if not s or not s[0].isupper():
        return 'aa'
    return 'AA' if len(s) > 1 and s[-1].isupper() else 'Aa'


def apply_case(c, s):
    return {'dix': s, 'aa': s.lower(), 'Aa': s.title(), 'AA': s.upper()}[c]


# ---------------------------------------------------------------- patterns
NONTAG, UP, LOW = '[^<]', 'U', 'L'


def enc(s):
    """text -> regex subject: every character is followed by its class"""
    return ''.join(c + ('U' if c.isupper() else 'L') for c in s)


def spec(s):
    if s is None:
        s = '*'
    r = ''
    for c in s:
        r += '(?:.[UL])+' if c == '*' else '(?: L)+' if c == ' ' else '(?:.U)+' if c.isupper() else '(?:.L)+'
    return r


def literal(s):
    return ''.join('(?:.[UL])+' if c == '*' else re.escape(enc(c)) for c in s)


TAGS = {'*': '(?:<[^>]*>)*', '+': '(?:<[^>]*>)+', '?': '<[^>]*>'}


def tagre(t):
    t = '*' if t is None else t
    return ''.join(TAGS.get(p) or '(?:<%s>)' % p for p in t.split('.') if p)


class Match:
    def __init__(self, select=None, **a):
        self.a, self.select = a, select
        g = a.get
        self.src = re.compile(spec(g('srcsurf')) + '/' + spec(g('srclem')))
        self.lem = re.compile(literal(g('lemma')) if g('lemma') else spec(g('trglem')))
        self.tags = re.compile(tagre(g('tags')))
        self.surf = re.compile(literal(g('surface')) if g('surface') else spec(g('trgsurf')))

    def xml(self):
        return '<match %s/>' % ' '.join('%s="%s"' % kv for kv in list(self.a.items()) + ([('select', self.select)] if self.select else []) if kv[1] is not None)

    def ok(self, w):
        if w.memo.get(self) is None:
            src, lem, tags, surf = w.parts
            w.memo[self] = bool(tags is not None and self.src.fullmatch(src) and self.lem.fullmatch(lem) and self.tags.fullmatch(tags) and self.surf.fullmatch(surf))
        return w.memo[self]

    def runs(self, words, i):
        if i < len(words) and self.ok(words[i]):
            yield i + 1, ((i, self.select),)


class Begin:
    def xml(self):
        return '<begin/>'

    def runs(self, words, i):
        if i == 0:
            yield 0, ()


class Seq:
    def __init__(self, *p):
        self.p = p

    def xml(self):
        return ''.join(x.xml() for x in self.p)

    def runs(self, words, i, k=0):
        if k == len(self.p):
            yield i, ()
            return
        for j, l in self.p[k].runs(words, i):
            for e, m in self.runs(words, j, k + 1):
                yield e, l + m


class Or(Seq):
    def xml(self):
        return '<or>%s</or>' % Seq.xml(self)

    def runs(self, words, i, k=0):
        for p in self.p:
            yield from p.runs(words, i)


class Repeat:
    def __init__(self, lo, hi, *p):
        self.lo, self.hi, self.p = lo, hi, Seq(*p)

    def xml(self):
        return '<repeat from="%d" upto="%d">%s</repeat>' % (self.lo, self.hi, self.p.xml())

    def runs(self, words, i):
        for n in range(self.lo, self.hi + 1):
            yield from Seq(*[self.p] * n).runs(words, i)


class Rule(Seq):
    def __init__(self, *p, weight=None):
        Seq.__init__(self, *p)
        self.weight = weight

    def xml(self):
        return '<rule%s>%s</rule>' % ('' if self.weight is None else ' weight="%s"' % self.weight, Seq.xml(self))


def xml(rules):
    return '<capitalization><rules>%s</rules></capitalization>\n' % ''.join(r.xml() for r in rules)


class W:
    """one unit: blank before it, other word-bound blanks, source case, form, surface"""
    cache = {}

    def __init__(self, src, form, surf, extra=('', '')):
        self.src, self.form, self.surf, self.extra = src, form, surf, extra
        m = re.fullmatch(r'((?:\\.|[^<\\])*)((?:<[^<>]*>)*)', form)
        s = src or 'aa/aa'
        self.parts = ('/'.join(enc(x) for x in s.split('/')), enc(m.group(1)) if m else '', m.group(2) if m else None, enc(surf))
        self.memo = {}
        wb = '; '.join(x for x in (extra[0], 'c:' + src if src else '', extra[1]) if x)
        self.text = ('[[%s]]' % wb if wb else '') + ('^%s/%s$' % (form, surf) if form else '^%s$' % surf)      # a single field is the surface
        self.keep, self.strip = wb, '; '.join(x for e in extra for x in e.split('; ') if x and not x.startswith('c:'))

    def out(self, c, k):
        s = apply_case(c, self.surf)
        wb = self.keep if k else self.strip
        return '[[%s]]%s[[/]]' % (wb, s) if wb else s


def weights(rules, words):
    """list of alternatives, each a dict word -> {case: weight}.  A rule counts
    once for every end position; if it covers that stretch in more than one way
    any of them may be the one that counts."""
    votes = []
    for r in rules:
        per = {}
        for i in range(len(words)):
            for e, l in r.runs(words, i):
                if e > i or l:
                    per.setdefault(e, set()).add(tuple(sorted((j, s) for j, s in l if s)))
        for e, ls in per.items():
            if ls != {()}:
                votes.append((1.0 if r.weight is None else float(r.weight), sorted(ls)))
    free = [v for v in votes if len(v[1]) > 1]
    n = 1
    for v in free:
        n *= len(v[1])
    if n > 200:
        return None
    base = [(w, ls[0]) for w, ls in votes if len(ls) == 1]
    res = []
    for ch in it.product(*[v[1] for v in free]):
        t = {}
        for w, l in base + [(v[0], c) for v, c in zip(free, ch)]:
            for j, s in l:
                t.setdefault(j, {}).setdefault(s, 0.0)
                t[j][s] += w
        res.append(t)
    return res


ORDER = ['dix', 'aa', 'Aa', 'AA']


def decide(t):
    best = max(t.get(c, 0.0) for c in ORDER)
    return next(c for c in ORDER if t.get(c, 0.0) == best)


def expected(rules, words):
    """set of tuples of cases"""
    al = weights(rules, words)
    if al is None:
        return None
    return {tuple(decide(t.get(j, {})) for j in range(len(words))) for t in al}


def go(w, rules, docs, opts=(), sep=' '):
    """docs: list of lists of W"""
    x, b = w.tmp + '/r.crx', w.tmp + '/r.bin'
    open(x, 'w').write(xml(rules))
    r = w.run1('apertium-compile-caps', [x, b])
    if r.status:
        w.fail('apertium-compile-caps', [x, b], b'', r, 'rules not compiled: ' + describe(r.status))
        return
    w.n += 1
    a = ['-z'] + list(opts) + [b]
    r = w.server('apertium-restore-caps').run(a, b'\0'.join(sep.join(u.text for u in d).encode() for d in docs) + b'\0')
    got = r.out.decode('utf8', 'replace').split('\0') if r.status == 0 else []
    for i, d in enumerate(docs):
        ex = expected(rules, d)
        if ex is None:
            continue
        w.states += 1
        w.trans += len(d)
        outs = {sep.join(u.out(c, '-k' in opts) for u, c in zip(d, cs)) for cs in ex}
        if i < len(got) and got[i] in outs:
            w.seen(got[i])
            continue
        for tail in ('', '\n'):
            inp = (sep.join(u.text for u in d) + tail).encode()
            r = w.run1('apertium-restore-caps', list(opts) + [b], inp)
            if r.status or r.out.decode('utf8', 'replace') not in {o + tail for o in outs}:
                w.fail('apertium-restore-caps', list(opts) + [b], inp, r, 'got %r, expected %r' % (show(r.out), sorted(outs)), files=[x])
                break
        if w.enough:
            return


def run(ctx):
    ctx.rule = ('every match description times every word; every rule set up to the bound (sequences, alternatives, repetitions, document start, weights) on every word sequence up to the bound; every stream of units and blanks up to the bound; '
                'output of the real compiler and restorer compared with a direct summation of rule weights')
    ctx.need('apertium-compile-caps', 'apertium-restore-caps', 'apertium-extract-caps')
    q = ctx.quick

    # --- one match, every attribute against every word
    SS = [None, 'aa', 'Aa', 'AA', '*', 'A*']
    SL = [None, 'aa', 'Aa', 'AA']
    LEM = [('trglem', x) for x in (None, 'aa', 'Aa', 'AA', '*A', 'a*', 'aAa', 'a a')] + [('lemma', x) for x in ('ab', 'Ab', 'ab*', '*b', 'a*b', 'ab cd', 'É*')]
    TG = [None, '', 'n', 'n.*', '*.pl', 'n.+', '+', '?', 'n.?', '*.pl.*', 'n.pl', '?.pl']
    SU = [('trgsurf', x) for x in (None, 'aa', 'Aa', 'AA', '*A', 'Aa aa')] + [('surface', x) for x in ('xY', 'x*', '*y')]
    words = [W(c, f, s) for c in (None, 'aa/aa', 'Aa/aa', 'AA/Aa', 'aa/AA', 'Aa/AA')
             for f in ('ab', 'ab<n>', 'Ab<n>', 'AB<n><pl>', 'abb<n><pl><x>', 'aBc<pl>', 'ab cd<n><pl>', 'Écd<n>', 'ab<n>+cd<pl>', 'ab<n># cd')
             for s in ('xY', 'xy', 'Xy', 'XY', 'Xy xy', 'éÉ')]
    docs1 = [[u] for u in words]

    def gen1():
        for ss, sl in (list(it.product(SS, SL)) if not q else [(a, b) for a, b in it.product(SS, SL) if a is None or b is None or (a, b) in (('Aa', 'Aa'), ('AA', 'aa'))]):
            for l, t, s in it.product(LEM, TG, SU):
                if q and (ss or sl) and (t not in (None, 'n', '*.pl') or s[1] not in (None, 'Aa', 'x*')):
                    continue
                yield dict([('srcsurf', ss), ('srclem', sl), l, ('tags', t), s])

    def fn1(w, blk):
        for a in blk:
            go(w, [Rule(Match('AA', **a))], docs1)
            if w.enough:
                return
    ctx.parallel('match attributes', gen1, fn1, 8)

    # --- rule sets on word sequences
    L = [W(c + '/aa', f, s) for c, f, s in (('aa', 'ab<n>', 'xYz'), ('Aa', 'ab<n>', 'xYz'), ('AA', 'ab<v>', 'xYz'))]
    D = [list(d) for n in range(1, ctx.pick(4, 5) + 1) for d in it.product(L, repeat=n)]
    D3 = [d for d in D if len(d) <= 3]
    M = lambda s=None, c=None, **a: Match(s, srcsurf=c, **a)
    sel = [None, 'AA', 'Aa', 'aa', 'dix']
    one = [M(s, c) for s in sel for c in (None, 'AA', 'Aa', 'aa')]

    def suite(name, gen, dd, block=4, opts=()):
        def fn(w, blk):
            for rs in blk:
                go(w, rs, dd, opts)
                if w.enough:
                    return
        ctx.parallel(name, gen, fn, block)
    suite('sequences', lambda: ([Rule(*p)] for n in (1, 2) for p in it.product(one, repeat=n)), D)
    few = [M('AA', 'Aa'), M(None, None), M('Aa', 'AA'), M('aa', None), M('dix', 'aa')]
    suite('longer sequences', lambda: ([Rule(*p)] for n in (3, 4) for p in it.product(few[:4] if q else few, repeat=n)), D)
    rules = [(M('AA', 'aa'),), (M('Aa'),), (M('aa', 'AA'),), (M('dix', 'Aa'),), (M(None, 'Aa'), M('AA')), (M('AA'), M('Aa', 'aa')), (M(), M('dix'), M('aa')), (Begin(), M('Aa')), (M('AA', 'Aa'), M(None, 'Aa'))]
    wts = [None, '2', '0.5', '-1', '1.25', '0']
    suite('weights, pairs', lambda: ([Rule(*a, weight=v), Rule(*b, weight=u)] for a, b in it.product(rules, repeat=2) for v, u in it.product(wts if not q else wts[:4], repeat=2)), D3)
    suite('weights, triples', lambda: ([Rule(*a, weight=v), Rule(*b, weight=u), Rule(*c, weight=x)] for a, b, c in it.product(rules if not q else rules[:6], repeat=3) for v, u, x in ((None, None, None), ('1', '0.25', '0.8'), ('0.3', '0.3', '0.5'), ('0.1', '0.2', '0.3')[:3])), D3)
    # alternatives, repetition, start of the document
    base = [M('AA', 'aa'), M('Aa', 'Aa'), M(None, 'AA')]
    pieces = base + [Or(a, b) for a, b in it.permutations(base, 2)] + [Or(Begin(), base[0]), Or(base[1], Begin()), Begin(), Or(Seq(base[0]), Seq(base[1])) if False else Or(*base)]
    reps = [Repeat(lo, hi, p) for lo, hi in ((0, 1), (1, 1), (1, 2), (2, 3), (0, 2), (3, 5)) for p in (base[0], base[1], Or(base[0], base[1]))] + \
           [Repeat(1, 2, base[0], base[1]), Repeat(0, 2, base[1], base[2]), Repeat(1, 2, Repeat(1, 2, base[0]), base[1]), Or(Repeat(2, 2, base[0]), base[1]), Repeat(0, 1, Or(base[0], Repeat(2, 2, base[2])))]
    tail = [M('AA', 'Aa'), M('dix', 'AA'), M('Aa')]
    suite('alternatives', lambda: ([Rule(*p)] for n in (1, 2) for p in it.product(pieces, repeat=n)), D)
    suite('repetition', lambda: ([r] for p in reps for r in [Rule(p)] * (not isinstance(p, Repeat) or p.lo > 0) + [Rule(p, t) for t in tail] + [Rule(t, p) for t in tail] + [Rule(t, p, u) for t in tail for u in tail]
                                 + [Rule(Begin(), p, t) for t in tail] + [Rule(Or(Begin(), tail[0]), p, t) for t in tail]), D)
    suite('many rules', lambda: ([Rule(M(s, c), weight=w) for c in ('aa', 'Aa', 'AA') for s, w in p] for p in it.permutations([('aa', '1.1'), ('Aa', '1.2'), ('AA', '1.05'), ('dix', '0.9')], 4)), D3)

    # --- streams: blanks, word-bound blanks, words without word-bound blank, ends of input
    U = [W('Aa/aa', 'ab<n>', 'xy'), W(None, 'ab<n>', 'Xy'), W('AA/aa', 'ab<n>', 'x\\/y', ('t:b:1', '')), W('AA/aa', 'cd<v>', 'xy zw', ('', 't:i:2')), W('aa/aa', 'é<n>', 'É', ('t:b:1; t:i', 'c:AA/AA; t:u:3')),
         W(None, 'ab<n>', 'q', ('t:b:1', '')), W('AA/AA', '', 'w v')]
    B = ['', ' ', '\n', '[<b>]', 'a\\^b', '[]', '\\[x', '\0']
    RS = [Rule(Or(Begin(), M(None, 'Aa')), M('AA')), Rule(M('Aa', 'AA'), M('aa', None)), Rule(M('dix', 'Aa'), weight='0.5')]

    def gen3():
        n = ctx.pick(2, 3)
        for k in range(0, n + 1):
            for us in it.product(U, repeat=k):
                for bs in it.product(B, repeat=k + 1):
                    yield us, bs

    def fn3(w, blk):
        x, b = w.tmp + '/s.crx', w.tmp + '/s.bin'
        open(x, 'w').write(xml(RS))
        r = w.run1('apertium-compile-caps', [x, b])
        for o in ([], ['-k'], ['-z']):
            cs = []
            for us, bs in blk:
                inp, out = bs[0], bs[0]
                segs, cur = [], []
                for u, bl in zip(us, bs[1:]):
                    cur.append(u)
                    if bl == '\0':
                        segs.append(cur)
                        cur = []
                segs.append(cur)
                cases = [c for s in segs for c in list(expected(RS, s))[0]]
                for u, bl, c in zip(us, bs[1:], cases):
                    inp += u.text + bl
                    out += u.out(c, '-k' in o) + bl
                cs.append((o + [b], inp.encode(), out.encode()))
                w.states += 1
                w.trans += len(us)
            w.check('apertium-restore-caps', cs, judge_eq)
            if w.enough:
                return
    ctx.parallel('streams', gen3, fn3, 400)

    # escapes at every position of lemma and surface
    esc = ['a', 'A', '\\/', '\\$', '\\\\', '\\<', ' ']
    es = [''.join(t) for n in range(1, 4) for t in it.product(esc, repeat=n)]
    es = [t for t in es if not t.startswith(' ')]
    short = [t for t in es if len(t.replace('\\', '')) <= 2]

    def gen3b():
        for l in es:
            yield l, 'xy'
        for t in es:
            yield 'ab', t
        for p in it.product(short, repeat=2):
            yield p

    def fn3b(w, blk):
        x, b = w.tmp + '/s.crx', w.tmp + '/s.bin'
        open(x, 'w').write(xml(RS))
        r = w.run1('apertium-compile-caps', [x, b])
        for o in ([], ['-k']):
            cs = []
            for l, t in blk:
                us = [W('Aa/aa', l + '<n>', t), W('AA/aa', 'ab<v>', t), W(None, l + '<n>', t)]
                c = list(expected(RS, us))[0]
                cs.append((o + [b], ' '.join(u.text for u in us).encode(), ' '.join(u.out(k, '-k' in o) for u, k in zip(us, c)).encode()))
                w.states += 1
                w.trans += len(us)
            w.check('apertium-restore-caps', cs, judge_eq)
            if w.enough:
                return
    ctx.parallel('escapes', gen3b, fn3b, 100)

    # --- extraction
    def ext(surf, reads, wb='', keep=False):
        r = reads[0] if reads else ''
        p = r.rfind('>+')
        e = r.find('<', max(p, 0))
        c = 'c:%s/%s' % (getcase(surf), getcase(r[:e] if e >= 0 else r))
        return '[[%s]]^%s%s$' % (wb + '; ' + c if wb else c, surf + '/' if keep else '', r)

    alpha = ['a', 'A', 'é', 'É', '1', ' ', '\\/']
    strs = [''.join(t) for n in range(1, ctx.pick(4, 5) + 1) for t in it.product(alpha, repeat=n)]
    o2 = [[], ['-s'], ['-z']]

    def fn4(w, blk):
        for o in o2:
            cs = []
            for s in blk:
                for a, b in ((s, 'ab<n>'), ('ab', s + '<n>')) + ((('ab', 'xy<n>+' + s + '<n>'), ('ab', s + '<n>+xy<v>')) if '1' not in s else ()):
                    cs.append((o, ('^%s/%s$' % (a, b)).encode(), ext(a, [b], keep='-s' in o).encode()))
            w.states += len(cs)
            w.trans += len(cs)
            w.check('apertium-extract-caps', cs, judge_eq)
    ctx.parallel('case of words', lambda: strs, fn4, 300)

    # words joined with +: the case is that of the whole text up to the last part's tags
    parts = [l + t for l in ('b', 'B', 'Ab', 'aB', '1', '\\+C', '') for t in ('<n>', '<n><sg>', '<>', '# Q', '<n># Q')]

    def gen6():
        for n in range(1, 4):
            for t in it.product(parts if n < 3 else parts[::ctx.pick(3, 1)], repeat=n):
                yield '+'.join(t)

    def fn6(w, blk):
        for o in o2:
            cs = [(o, ('^%s/%s$' % (a, b)).encode(), ext(a, [b], keep='-s' in o).encode()) for b in blk for a in ('a', 'AB')]
            w.states += len(cs)
            w.trans += len(cs)
            w.check('apertium-extract-caps', cs, judge_eq)
    ctx.parallel('joined words', gen6, fn6, 300)

    E = [('Ab', ['ab<n>'], ''), ('AB', ['Ab<n>', 'a\\$b\\/\\\\<v>', 'C'], ''), ('aB', ['*aB'], ''), ('a\\/b', ['a\\/b<n>', 'X<n>'], 't:b:1'), ('É', ['É<n>+b<v># q r'], 't:b:1; t:\\]i'), ('Ab', [], ''), ('x', ['A\\$b<n>'], '')]
    BL = [' ', '', '\n', '[<b>\\]^x$]', 'a\\^', '[]', '\\[\\[', '\0', '[[t:b]]']

    def gen5():
        k = ctx.pick(2, 3)
        for n in range(0, k + 1):
            for us in it.product(E, repeat=n):
                for bs in it.product(BL[:-1], repeat=n + 1):
                    yield us, bs

    def fn5(w, blk):
        for o in o2:
            cs = []
            for us, bs in blk:
                inp, out = bs[0], bs[0]
                for (s, rs, wb), bl in zip(us, bs[1:]):
                    inp += ('[[%s]]' % wb if wb else '') + '^' + '/'.join([s] + rs) + '$' + bl
                    out += ext(s, rs, wb, '-s' in o) + bl
                cs.append((o, inp.encode(), out.encode()))
                w.states += 1
                w.trans += len(us)
            w.check('apertium-extract-caps', cs, judge_eq)
            if w.enough:
                return
    ctx.parallel('extraction streams', gen5, fn5, 500)
