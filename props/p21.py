"""P21 whatever a tagger decides, its output keeps the stream: the same blanks in the
same places, one lexical unit per input unit, each with (one of) its own analyses,
surface forms, marks and the remaining analyses as the options ask for."""
import itertools, os, re, subprocess
import tag
from tag import Tsx

MTX = '''<?xml version="1.0" encoding="UTF-8"?>
<metatag><coarse-tags tag="t.tsx"/><feats>
<feat><out><ex-lemma><ex-wordoid><wrdaddr/></ex-wordoid></ex-lemma></out></feat>
<feat><out><ex-coarse><ex-wordoid><wrdaddr/></ex-wordoid></ex-coarse></out></feat>
</feats></metatag>
'''


class LU:
    def __init__(self, sf, *ans, classes=None, mixed=False):
        self.sf, self.ans, self.mixed = sf, ans, mixed
        self.text = '^%s/%s$' % (sf, '/'.join(ans) if ans else '*' + sf)
        self.classes = classes if classes is not None else len(ans)   # number of coarse tags


def move_queue(a):
    """take<v># out -> take# out<v>: both forms name the same analysis"""
    return re.sub(r'((?:<[^<>]*>)+)(#[^<>+]*)', r'\2\1', a)


def split_lu(s):
    r, cur, i = [], '', 0
    while i < len(s):
        if s[i] == '\\':
            cur += s[i:i + 2]
            i += 2
        elif s[i] == '/':
            r.append(cur)
            cur = ''
            i += 1
        else:
            cur += s[i]
            i += 1
    return r + [cur]


def tokens(s):
    """[(blank, unit|None)]: blanks as given, superblanks and escapes respected"""
    res, b, i = [], '', 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            b += s[i:i + 2]
            i += 2
        elif c == '[':
            e = ']]' if s.startswith('[[', i) else ']'
            j = i
            while not s.startswith(e, j):
                j += 2 if s[j] == '\\' else 1
                if j >= len(s):
                    raise ValueError
            b += s[i:j + len(e)]
            i = j + len(e)
        elif c == '^':
            j = i + 1
            while s[j] != '$':
                j += 2 if s[j] == '\\' else 1
            res.append((b, s[i + 1:j]))
            b = ''
            i = j + 1
        else:
            b += c
            i += 1
    return res + [(b, None)]


def judge_lu(lu, got, kind, opts):
    """None or what is wrong with the unit printed for lu"""
    stat = kind in ('hmm', 'lsw')
    n = lu.classes if stat else len(lu.ans)
    p = split_lu(got)
    if '-m' in opts and lu.ans and n > 1:
        if not p[0].startswith('='):
            return 'ambiguous word not marked'
        p[0] = p[0][1:]
    elif p[0].startswith('='):
        return 'marked'
    first = '-f' in opts
    if '-p' in opts or (first and stat):
        if p[0] != lu.sf:
            return 'surface form changed'
        p = p[1:]
    if not lu.ans:
        return None if p == ['*' + lu.sf] else 'unknown word changed'
    ok = [move_queue(a) for a in lu.ans]
    p = [move_queue(a) for a in p]
    if not p or any(a not in ok for a in p):
        return 'not an analysis of the word'
    want = (n if first else 1)
    if len(p) != want or len(set(p)) != len(p):
        return '%d analyses, expected %d' % (len(p), want)
    return None


def pieces_of(lu, got):
    ok = {x for a in lu.ans for x in a.split('+')}
    p = split_lu(got)
    return all(x in ok for x in p[-1].split('+')) and p[:-1] in ([], [lu.sf], ['=' + lu.sf])


def explore(ctx, name, taggers, lus, blanks, depth, optss, block=2500, flush=True):
    seqs = lambda: ((bs, ls) for n in range(depth + 1) for ls in itertools.product(lus, repeat=n) for bs in itertools.product(blanks, repeat=n + 1))

    def fn(w, blk):
        texts = [''.join(b + l.text for b, l in zip(bs, ls)) + bs[-1] for bs, ls in blk]
        inp = '\0'.join(texts + ['']).encode()
        for kind, base, prob in taggers:
            for o in optss:
                argv = base + list(o) + (['-z'] if flush else []) + [prob]
                if flush:
                    r = w.run1('apertium-tagger', argv, inp)
                    outs = r.out.decode('utf8', 'replace').split('\0')
                    if r.status or len(outs) < len(blk) + 1:
                        w.fail('apertium-tagger', argv, inp, r, 'status %d, %d replies to %d requests' % (r.status, len(outs) - 1, len(blk)))
                        continue
                    results = [(0, x) for x in outs]
                else:
                    results = [(r.status, r.out.decode('utf8', 'replace')) for r in w.many('apertium-tagger', [(argv, t.encode()) for t in texts])]
                for (bs, ls), t, (st, g) in zip(blk, texts, results):
                    w.states += 1
                    w.trans += len(ls)
                    if st:
                        w.fail('apertium-tagger', argv, t.encode(), None, 'status %d on %s' % (st, t))
                        break
                    try:
                        tk = tokens(g)
                    except (ValueError, IndexError):
                        tk = None
                    m = None
                    if tk is None or len(tk) != len(ls) + 1:
                        m = 'not the same number of units'
                    elif [b for b, u in tk] != list(bs):
                        m = 'blanks changed'
                    else:
                        for l, (b, u) in zip(ls, tk):
                            e = judge_lu(l, u, kind, o)
                            if e:
                                if l.mixed and kind in ('hmm', 'lsw') and pieces_of(l, u) and w.known_finding('ambiguous-compound'):
                                    continue
                                m = '^%s$ for %s: %s' % (u, l.text, e)
                                break
                    if m:
                        w.fail('apertium-tagger', argv, t.encode(), None, '%s tagger %s: %s gives %s: %s' % (kind, ' '.join(o), t, g, m))
                        break
                w.seen(inp, kind, str(o))
        if len(w.samples) < 2:
            w.samples.append(dict(tagger=kind, input=texts[-1], output=g))
    ctx.parallel(name, seqs, fn, block)


def prepare(ctx):
    ctx.need('apertium-tagger')
    T = ctx.B.binary('apertium-tagger')
    t = Tsx([('X', False, [(None, 'x'), (None, 'x.*')]), ('Y', False, [(None, 'y'), (None, 'y.*')]), ('Z', True, [('c', 'z')])],
            [('XZ', False, [[('label', 'X'), ('label', 'Z')]])])
    d = ctx.scratch + '/m'
    os.makedirs(d)
    tag.write(d + '/t.tsx', t.xml())
    tag.write(d + '/dic', '^ex/ex<x>$ ^ey/ey<y>$ ^am/am<x>/bm<y>$ ^c/c<z>$ ^xc/x<x>+c<z>$ ^./.<sent>$\n')
    tag.write(d + '/crp', '^ex/ex<x>$ ^am/am<x>/bm<y>$ ^./.<sent>$ ^ey/ey<y>$ ^am/am<x>/bm<y>$ ^xc/x<x>+c<z>$ ^./.<sent>$\n')
    tag.write(d + '/unt', '^ex/ex<x>$ ^am/am<x>/bm<y>$ ^./.<sent>$ ^ey/ey<y>$ ^am/am<x>/bm<y>$ ^./.<sent>$\n')
    tag.write(d + '/tgd', '^ex/ex<x>$ ^am/bm<y>$ ^./.<sent>$ ^ey/ey<y>$ ^am/am<x>$ ^./.<sent>$\n')
    tag.write(d + '/s.mtx', MTX)

    def run(*a):
        r = subprocess.run([T] + list(a), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if r.returncode:
            raise RuntimeError('training failed: %s %r' % (a, r.stderr[-500:]))
    run('-t', '2', 'dic', 'crp', 't.tsx', 'h.prob')
    run('-w', '-t', '2', 'dic', 'crp', 't.tsx', 'w.prob')
    for m in '123':
        run('-s', '0', '-u', m, 'u%s.prob' % m, 'tgd')
    run('-x', '-s', '3', 'p.prob', 'tgd', 'unt', 's.mtx')
    return [('hmm', ['-g'], d + '/h.prob'), ('lsw', ['-g', '-w'], d + '/w.prob')] + \
        [('uni' + m, ['-g', '-u', m], d + '/u%s.prob' % m) for m in '123'] + [('perc', ['-g', '-x'], d + '/p.prob')]


def run(ctx):
    ctx.rule = ('every sequence of at most the stated number of units and blanks, x HMM, sliding-window, three unigram and perceptron taggers x '
                'option sets; the output is re-tokenised and compared unit by unit and blank by blank')
    T = prepare(ctx)
    L = [LU('ex', 'ex<x>'), LU('am', 'am<x>', 'bm<y>'), LU('Unk'), LU('a\\/\\^b', 'a\\/\\^b<x>', 'é\\$<y><pl>'),
         LU('xs', 'o<x>', 'p<x><pl>', classes=1), LU('q', 'q<w>', 'r<w>', classes=1), LU('take', 'take<x># out', 'take<y># o'),
         LU('xc', 'x<x>+c<z>'), LU('xy', 'xx<x>+yy<y>'), LU('\U0001d50a', '\U0001d50a<x>', 'g<y>'), LU('.', '.<sent>'), LU('\\*b'),
         LU('xca', 'x<x>+c<z>', 'y<y>'), LU('three', 'a<x>', 'b<y>', 'c<z>')]
    core = L[:4]
    B = ['', ' ', '[<b>]', '\n', '\\[', '[\\[é]', '[[t:b:1]]', '.', ' [a] [b]\\@']
    O = [(), ('-p',), ('-m',), ('-f',), ('-m', '-p'), ('-f', '-p'), ('-f', '-m')]
    explore(ctx, 'units', T, L, ['', ' '], ctx.pick(2, 3), O, ctx.pick(200, 2000))
    explore(ctx, 'units, three', T, L[:8], ['', ' '], 3, O[:4], 400)
    explore(ctx, 'blanks', T, core, B, 2, O)
    explore(ctx, 'units, no flush', T, L, ['', ' '], ctx.pick(1, 2), O, 10, flush=False)
    if not ctx.quick:
        explore(ctx, 'blanks and units', T, L, B[:6], 2, [()])
    # compounds whose readings divide differently
    M = [LU('mix', 'xx<x>+yy<y>', 'z<y>', mixed=True), LU('mix', 'z<y>', 'xx<x>+yy<y>', mixed=True), LU('ex', 'ex<x>'),
         LU('two', 'xx<x>+yy<y>', 'zz<x>+ww<y>', mixed=True)]
    explore(ctx, 'ambiguous compounds', T, M, ['', ' '], 2, O[:2], 20)
