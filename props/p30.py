"""P30 tagger maintenance tools: filter-ambiguity, tagger-readwords, tagger-apply-new-rules."""
import itertools, os
import tag
from tag import Tsx, Prob
from p23 import rules, close
from core import describe


class Wd:
    """text, [(surface, {tag name: form})] one entry per unit"""

    def __init__(self, text, *units):
        self.text, self.units = text, units


WORDS = [Wd('^A/a<x>/a<y>$', ('A', {'X': 'a<x>', 'Y': 'a<y>'})), Wd('^B/b<y>/b<x>/b<x><p>$', ('B', {'X': 'b<x>', 'Y': 'b<y>'})), Wd('^c/c<x>$', ('c', {'X': 'c<x>'})),
         Wd('^d/d<y>$', ('d', {'Y': 'd<y>'})), Wd('^e/*e$', ('e', {})), Wd('^f/f<x>+g<y>$', ('f', {'M': 'f<x>+g<y>'})),
         Wd('^h/h<y>+g<x>$', ('h', {'Y': 'h<y>'}), ('', {'X': 'g<x>'})), Wd('^i/i<y>+g<x>/i<x>$', ('i', {'Y': 'i<y>', 'X': 'i<x>'}), ('', {'X': 'g<x>'})),
         Wd('^q/q<z>$', ('q', {'Z': 'q<z>'})), Wd('^r/r<z>$', ('r', {'kUNDEF': 'r<z>'})), Wd('^./.<sent>$', ('.', {'SENT': '.<sent>'})),
         Wd('^\\//\\/<y>/s<x>/s\\^<z>$', ('\\/', {'X': 's<x>', 'Y': '\\/<y>', 'kUNDEF': 's\\^<z>'})), Wd('^r/r<z>/q<z>$', ('r', {'kUNDEF': 'r<z>', 'Z': 'q<z>'}))]
LABELS = [('X', False, [(None, 'x'), (None, 'x.*')]), ('Y', False, [(None, 'y')]), ('Z', True, [('q', 'z')])]
MULTS = [('M', False, [[('label', 'X'), ('label', 'Y')]])]


def words_suite(ctx, depth):
    t = Tsx(LABELS, MULTS)
    other = Tsx([LABELS[1], LABELS[2], LABELS[0]], MULTS)
    name = {5: 'TAG_kEOF', 4: 'TAG_SENT', 6: 'TAG_kUNDEF'}

    def fn(w, blk):
        d = w.tmp + '/w'
        os.makedirs(d, exist_ok=True)
        for k, s in (('t', t), ('o', other)):
            tag.write('%s/%s.tsx' % (d, k), s.xml())
            tag.write(d + '/e', '')
            if not os.path.exists('%s/%s.prob' % (d, k)):
                # every ambiguity class of the words is known to the model
                tag.write(d + '/dic', '\n'.join(x.text for x in WORDS))
                w.run1('apertium-tagger', ['-s', '0', d + '/dic', '%s/%s.tsx' % (d, k), '%s/%s.prob' % (d, k), d + '/e', d + '/e'])
        w.states += len(blk)
        for k, s in (('t', t), ('o', other)):
            A, B, C, P = [], [], [], []
            for c in blk:
                inp = ''.join(x.text + (' ', '\n', '[<b>]')[i % 3] for i, x in enumerate(c)).encode()
                w.trans += len(c)
                units = [(sf, sorted((s.idx[n], f) for n, f in fs.items())) for x in c for sf, fs in x.units]
                seen, out = set(), ''
                for sf, fs in units:
                    cl = frozenset(i for i, f in fs)
                    if cl and cl not in seen:
                        seen.add(cl)
                        out += '^%s%s$\n' % (sf, ''.join('/' + f for i, f in fs))
                lines = ['%s {%s}' % (sf, ','.join(name.get(i, s.names[i]) for i, f in fs)) for sf, fs in units] + [' {TAG_kEOF}']
                A.append((['%s/%s.tsx' % (d, k)], inp, out.encode()))
                B.append((['-x', '%s/%s.tsx' % (d, k)], inp, lines))
                C.append((['-x', '%s/%s.tsx' % (d, k), '-l', '2'], inp, lines[:2]))
                P.append((['-p', '%s/%s.prob' % (d, k)], inp, lines))

            def same(exp, r):
                if r.status:
                    return describe(r.status)
                if r.out != exp:
                    return 'got %r, expected one word of each new ambiguity class: %r' % (r.out.decode(errors='replace'), exp.decode())

            def same2(exp, r):
                if r.status:
                    return describe(r.status)
                if r.out.decode(errors='replace').split('\n') != exp + ['']:
                    return 'got %r, expected %r' % (r.out.decode(errors='replace').split('\n'), exp)
            w.check('apertium-filter-ambiguity', A, same)
            w.check('apertium-tagger-readwords', B, same2)
            w.check('apertium-tagger-readwords', C, same2)
            w.check('apertium-tagger-readwords', P, same2)
    ctx.parallel('words', lambda: (c for n in range(depth + 1) for c in itertools.product(WORDS, repeat=n)), fn, 40)


def rules_suite(ctx):
    N = ['X', 'Y', 'SENT']
    pairs = list(itertools.product(N, repeat=2))
    F = [()] + [(p,) for p in pairs] + list(itertools.combinations(pairs, 2)) + ([] if ctx.quick else list(itertools.combinations(pairs, 3)))
    E = [()] + [((a, b),) for a in N for b in (['X'], ['Y', 'SENT'], ['kEOF'])] + [(('X', ['Y']), ('Y', ['X', 'SENT'])), (('X', ['Y']), ('X', ['SENT', 'Y']))]
    PR = [(), ('x', 'y.*')]
    old = [((), (), ()), ((('X', 'Y'),), (), ('y',)), ((), (('Y', ['SENT']),), ()), ((('Y', 'Y'), ('SENT', 'X')), (('X', ['X', 'Y']),), ('x', 'x.p'))]
    if ctx.quick:
        F, old = F[:22], old[:4]
    corpora = ['^A/a<x>/a<y>$ ^c/c<x>$ ^d/d<y>$ ^./.<sent>$ ^A/a<x>/a<y>$ ^./.<sent>$\n^d/d<y>$ ^c/c<x>$']

    def fn(w, blk):
        d = w.tmp + '/r'
        os.makedirs(d, exist_ok=True)
        for (of, oe, op), f, e, pr in blk:
            t0 = Tsx(LABELS[:2], (), of, oe, op)
            t1 = Tsx(LABELS[:2], (), f, e, pr)
            tag.write(d + '/o.tsx', t0.xml())
            tag.write(d + '/n.tsx', t1.xml())
            tag.write(d + '/U', corpora[0])
            tag.write(d + '/dic', corpora[0])
            key = d + '/%x.prob' % (hash((of, str(oe), op)) & 0xffffffff)
            if not os.path.exists(key):
                r = w.run1('apertium-tagger', ['-t', '3', d + '/dic', d + '/U', d + '/o.tsx', key])
                if r.status:
                    w.fail('apertium-tagger', ['-t', '3', d + '/dic', d + '/U', d + '/o.tsx', key], b'', r, 'training failed', [d + '/o.tsx'])
                    continue
            tag.write(d + '/n.prob', '')
            argv = ['-i', key, '-o', d + '/n.prob', '-x', d + '/n.tsx']
            r = w.run1('apertium-tagger-apply-new-rules', argv)
            w.states += 1
            w.trans += len(f) + len(e)
            m = None
            if r.status:
                m = describe(r.status)
            else:
                p, raw = Prob(open(key, 'rb').read()), open(d + '/n.prob', 'rb').read()
                w.seen(raw)
                try:
                    q = Prob(raw)
                except Exception as x:
                    m = 'the model cannot be read: %r' % x
            if m is None:
                p.forbid = [(t1.idx[a], t1.idx[b]) for a, b in f]
                p.enforce = [(t1.idx[a], [t1.idx[b] for b in bs]) for a, bs in e]
                A = [list(x) for x in p.A]
                rules(p, A)
                if q.forbid != p.forbid or [(a, sorted(b)) for a, b in q.enforce] != [(a, sorted(b)) for a, b in p.enforce]:
                    m = 'rules in the model: forbid %s enforce %s' % (q.forbid, q.enforce)
                elif len(q.prefer) != len(pr):
                    m = 'preferences in the model: %s' % q.prefer
                elif (q.open, q.array, q.index, q.const, q.classes, q.N, q.M) != (p.open, p.array, p.index, p.const, p.classes, p.N, p.M) or q.rest != p.rest:
                    m = 'something other than the rules changed: %s' % [n for n in ('open', 'array', 'index', 'const', 'classes', 'N', 'M', 'rest') if getattr(p, n) != getattr(q, n)]
                elif q.B != p.B:
                    m = 'emission probabilities changed'
                else:
                    bad = [(i, j, q.A[i][j], A[i][j]) for i in range(p.N) for j in range(p.N) if not close(q.A[i][j], A[i][j])]
                    if bad:
                        m = 'transition %s -> %s is %r, expected %r' % (t1.names[bad[0][0]], t1.names[bad[0][1]], bad[0][2], bad[0][3])
            if m:
                w.fail('apertium-tagger-apply-new-rules', argv, b'', r, 'model with forbid %s enforce %s, new rules forbid %s enforce %s prefer %s: %s' % (of, oe, f, e, pr, m), [key, d + '/n.tsx'])
    ctx.parallel('rules', lambda: itertools.product(old, F, E, PR), fn, 20)


def run(ctx):
    ctx.rule = ('every sequence of analysed words up to the bound x two tag sets through filter-ambiguity and readwords; every combination of old and new rules through apply-new-rules; '
                'outputs and model files compared with the reference')
    ctx.need('apertium-filter-ambiguity', 'apertium-tagger-readwords', 'apertium-tagger-apply-new-rules', 'apertium-tagger')
    words_suite(ctx, ctx.pick(4, 5))
    rules_suite(ctx)
