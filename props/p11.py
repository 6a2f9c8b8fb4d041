"""P11 tag sets: every analysis is divided into the declared units and gets the coarse
tag the tag-set file declares; preference and discard rules choose among analyses.

The division is observed through the ambiguity classes of a model the real tool makes
from a dictionary in which every analysis stands beside one with tags of its own."""
import itertools, os, re
import tag
from tag import Tsx, Prob, UNDEF


def toks(s):
    return re.findall(r'<[^>]*>|[^<]', s)


def pat(item):
    """tags-item -> regular expression over an analysis"""
    lem, tags = item
    r = re.escape(lem) if lem else '[^<]+'
    for t in tags.split('.'):
        r += '(?:<[^>]+>)+' if t == '*' else '<%s>' % re.escape(t)
    return r


class Set(Tsx):
    def regs(self):
        """[(label index, compiled expression)]"""
        if not hasattr(self, '_r'):
            L = {n: ['%s' % pat(i) for i in its] for n, c, its in self.labels}
            r = [(self.idx[n], '|'.join('(?:%s)' % x for x in L[n])) for n in L]
            for n, c, seqs in self.mults:
                alts = []
                for q in seqs:
                    alts.append(r'\+'.join('(?:%s)' % ('|'.join(L[e[1]]) if e[0] == 'label' else pat((e[1], e[2]))) for e in q))
                r.append((self.idx[n], '|'.join('(?:%s)' % x for x in alts)))
            self._r = [(i, re.compile(x)) for i, x in r]
        return self._r

    def coarse(self, s):
        """lowest declared tag matching the whole of s"""
        s = s.lower()
        m = [i for i, x in self.regs() if x.fullmatch(s)]
        return min(m) if m else None

    def divide(self, a):
        """[(tag, text)]: longest declared units from the left; None where a first unit
        is found but the rest cannot be divided (not specified)"""
        t = toks(a)
        res, i = [], 0
        while True:
            ends = [len(t)] + [j for j in range(len(t) - 1, i, -1) if t[j] == '+']
            for e in ends:
                c = self.coarse(''.join(t[i:e]))
                if c is not None:
                    break
            else:
                return None if res else [(UNDEF, a)]
            res.append((c, ('+' if res else '') + ''.join(t[i:e])))
            if e == len(t):
                return res
            i = e + 1


def rtags(n):
    return ['r%d%s' % (i, 'abc'[k]) for i in range(n) for k in (0, 1, 2)]


def classes_suite(ctx, name, sets, analyses):
    ana = list(analyses)
    n = len(ana)

    def fn(w, blk):
        d = w.tmp + '/c'
        os.makedirs(d, exist_ok=True)
        tag.write(d + '/e', '')
        for labels, mults in blk:
            rs = [(r.upper(), True, [(None, r)]) for r in rtags(n)]
            s = Set(rs + labels, mults)
            exp = {frozenset([i]) for i in range(s.N)} | {frozenset(s.open)}
            lines = []
            for i, a in enumerate(ana):
                k = s.divide(a)
                if k is None:
                    w.extra['not_specified'] = w.extra.get('not_specified', 0) + 1
                    continue
                parts = a.count('+') + 1
                r = ['r<r%d%s>' % (i, x) for x in 'abc'][:parts]
                lines.append('^w/%s/%s$' % (a, '+'.join(r)))
                for j in range(max(len(k), parts)):
                    c = set()
                    if j < len(k):
                        c.add(k[j][0])
                    if j < parts:
                        c.add(s.idx['R%d%s' % (i, 'ABC'[j])])
                    exp.add(frozenset(c))
                w.states += 1
                w.trans += len(k)
            tag.write(d + '/t.tsx', s.xml())
            tag.write(d + '/dic', '\n'.join(lines) + '\n')
            argv = ['-s', '0', d + '/dic', d + '/t.tsx', d + '/m.prob', d + '/e', d + '/e']
            r = w.run1('apertium-tagger', argv)
            if r.status:
                w.fail('apertium-tagger', argv, b'', r, 'status %d' % r.status, [d + '/t.tsx', d + '/dic'])
                continue
            got = set(Prob(open(d + '/m.prob', 'rb').read()).classes)
            eof = frozenset([5])
            w.seen(str(sorted(sorted(c) for c in got)))
            if got - {eof} != exp - {eof}:
                nm = lambda c: '{%s}' % ','.join(sorted(s.names[i] for i in c))
                w.fail('apertium-tagger', argv, '\n'.join(lines).encode(), r, 'tag set %s %s: classes missing %s, unexpected %s (the analyses in question: %s)' % (
                    labels, mults, ' '.join(map(nm, sorted(exp - got, key=sorted)[:4])), ' '.join(map(nm, sorted(got - exp, key=sorted)[:4])),
                    ' '.join(sorted({ana[int(re.match(r'R(\d+)', s.names[i]).group(1))] for c in exp ^ got for i in c if s.names[i].startswith('R') and s.names[i][1].isdigit()})[:4])),
                    [d + '/t.tsx', d + '/dic'])
            elif len(w.samples) < 2:
                w.samples.append(dict(labels=str(labels), mults=str(mults), dictionary=lines[:4]))
    ctx.parallel(name, sets, fn, 4)


def choice_suite(ctx, name, sets, words, optss):
    """prefer and discard: what the tagger prints"""
    def rx(p):
        return re.compile('<' + p.replace('.', '><').replace('<*>', '(<[^>]+>)+') + '>') if 0 else re.compile(('<' + p.replace('.', '><') + '>').replace('<*>', '(<[^>]+>)+'))

    def fn(w, blk):
        d = w.tmp + '/ch'
        os.makedirs(d, exist_ok=True)
        for labels, prefer, discard in blk:
            s = Set(labels, prefer=prefer, discard=discard)
            tag.write(d + '/t.tsx', s.xml())
            tag.write(d + '/e', '')
            tag.write(d + '/dic', '')
            argv = ['-s', '0', d + '/dic', d + '/t.tsx', d + '/m.prob', d + '/e', d + '/e']
            r = w.run1('apertium-tagger', argv)
            if r.status:
                w.fail('apertium-tagger', argv, b'', r, 'status %d' % r.status, [d + '/t.tsx'])
                continue
            P, D = [rx(p) for p in prefer], [rx(p) for p in discard]
            inp = ''.join('^w/%s$\0' % '/'.join(a) for a in words).encode()
            for kind in ('', '-w'):
                if kind:
                    argv = ['-w', '-t', '0', d + '/dic', d + '/e', d + '/t.tsx', d + '/m.prob']
                    tag.write(d + '/e', '^w/%s$ ^w/%s$' % (words[0][0], words[0][0]))
                    r = w.run1('apertium-tagger', argv)
                    if r.status:
                        w.fail('apertium-tagger', argv, b'', r, 'status %d' % r.status, [d + '/t.tsx'])
                        continue
                argv = ['-g'] + ([kind] if kind else []) + ['-f', '-z', d + '/m.prob']
                r = w.run1('apertium-tagger', argv, inp)
                got = r.out.decode().split('\0')
                if r.status or len(got) < len(words) + 1:
                    w.fail('apertium-tagger', argv, inp, r, 'status %d, %d replies' % (r.status, len(got) - 1), [d + '/t.tsx'])
                    continue
                w.seen(r.out)
                for a, g in zip(words, got):
                    w.states += 1
                    w.trans += len(a)
                    keep = {}
                    for x in a:
                        c = s.coarse(x)
                        c = UNDEF if c is None else c
                        if c not in keep or any(p.search(x) for p in P):
                            keep[c] = x
                    for p in D:
                        for c in sorted(keep):
                            if len(keep) > 1 and p.search(keep[c]):
                                del keep[c]
                    m = re.fullmatch(r'\^w/(.*)\$', g)
                    if not m or sorted(m.group(1).split('/')) != sorted(keep.values()):
                        w.fail('apertium-tagger', argv, ('^w/%s$' % '/'.join(a)).encode(), r, 'labels %s prefer %s discard %s: ^w/%s$ gives %s, expected the analyses %s' % (
                            labels, prefer, discard, '/'.join(a), g, ' '.join(keep.values())), [d + '/t.tsx'])
                        break
            if len(w.samples) < 2:
                w.samples.append(dict(prefer=prefer, discard=discard, input=inp.decode()[:200], output=r.out.decode()[:200]))
    ctx.parallel(name, sets, fn, 8)


def run(ctx):
    ctx.rule = ('(1) every list of labels over the item pool and every compound declaration, on every analysis of the pool: the units and coarse tags; '
                '(2) every choice of preference and discard rules on every word of up to three analyses')
    ctx.assumptions.append('where a first unit is found but the rest of the analysis belongs to no declared unit the division is not specified')
    ctx.need('apertium-tagger')
    I = [(None, 'n'), (None, 'n.*'), (None, 'n.pl'), ('a', 'n'), ('ab', 'n.*'), (None, 'v'), ('a', 'v.n'), (None, 'n.*.pl'), (None, '*'), ('é', 'n'),
         ('a b', '*'), (None, 'v.*')]
    lem = ['a', 'ab', 'b', 'A', 'é', 'a b', 'a-c']
    tg = ['<n>', '<n><pl>', '<n><sg><pl>', '<n><pl><u>', '<v>', '<v><n>', '<u>', '<n><n>', '<pl>']
    simple = [l + t for l in lem for t in (tg if l in ('a', 'ab') or not ctx.quick else tg[:5])]

    def one():
        for k in (1, 2) if ctx.quick else (1, 2, 3):
            for its in itertools.permutations(I if k < 3 else I[:9], k):
                for c in ([True] * k, [False] * k):
                    yield [('L%d' % j, c[j], [it]) for j, it in enumerate(its)], []
        for a, b in itertools.combinations(I, 2):
            for c in I[:4]:
                yield [('L0', False, [a, b]), ('L1', True, [c])], []
    classes_suite(ctx, 'labels', one, simple)

    comp = [x + '+' + y for x in ('a<n>', 'b<n><pl>', 'a<v>', 'c<u>', 'ab<v><n>') for y in ('a<n>', 'b<v>', 'ab<n><pl>', 'é<u>')]
    comp += ['a<n>+b<v>+a<n>', 'b<v>+a<n>+c<u>', 'x+y<n>', 'x+y<n>+b<v>', 'a<n>+b<v><n>+a<n>', 'a<n>', 'b<v>']
    base = [[('N', False, [(None, 'n'), (None, 'n.*')]), ('V', False, [(None, 'v')])],
            [('N', False, [('a', 'n'), (None, 'n.pl')]), ('V', True, [(None, 'v'), (None, 'v.*')])],
            [('V', False, [(None, 'v')]), ('N', False, [(None, 'n')]), ('B', True, [('b', '*')])]]
    el = [('label', 'N'), ('label', 'V'), ('tags', 'b', 'v'), ('tags', None, 'n'), ('tags', 'ab', '*')]

    def mults():
        for b in base:
            e = [x for x in el if x[0] == 'tags' or x[1] in [l[0] for l in b]]
            yield b, []
            for q in itertools.product(e, repeat=2):
                yield b, [('M', False, [list(q)])]
            for q in itertools.product(e[:3] if ctx.quick else e, repeat=3):
                yield b, [('M', True, [list(q)])]
            # sequences of labels only: lttoolbox itself mixes up sequences that share a beginning but declare it differently
            lb = [x for x in e if x[0] == 'label']
            for q, p in itertools.product(itertools.product(lb, repeat=2), repeat=2):
                yield b, [('M', False, [list(q), list(p)])]
                yield b, [('M', False, [list(q)]), ('O', False, [list(p)])]
                yield b, [('M', False, [list(q)]), ('O', False, [list(p), list(q) + [p[0]]])]
    classes_suite(ctx, 'compounds', mults, comp)

    A = ['a<n>', 'b<n><pl>', 'c<v>', 'd<n><sg>', 'e<v><x><y>', 'f<u>']
    words = [p for k in (1, 2, 3) for p in itertools.permutations(A, k)]
    lab = [[('N', False, [(None, 'n'), (None, 'n.*')]), ('V', False, [(None, 'v'), (None, 'v.*')])],
           [('V', True, [(None, 'v'), (None, 'v.*'), (None, 'n')]), ('N', False, [(None, 'n.*')])],
           [('P', False, [(None, 'n.pl')]), ('N', False, [(None, 'n'), (None, 'n.*')]), ('V', False, [(None, 'v')]), ('W', False, [(None, 'v.x.y')])]]
    R = ['n', 'n.pl', 'v', 'n.*', 'v.*', '*', 'v.*.y', 'u', 'sg']

    def rules():
        for l in lab:
            for np, nd in ((0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1)) + (() if ctx.quick else ((2, 1), (1, 2), (2, 2))):
                for p in itertools.permutations(R, np):
                    for q in itertools.permutations(R, nd):
                        yield l, list(p), list(q)
    choice_suite(ctx, 'preference and discard rules', rules, words, [()])
