"""P31 the spelling of a source file (layout, comments, DOCTYPE, how XML writes its tags and
attributes) changes nothing: the compiled file is the same and the tools behave the same."""
import itertools as it, os, shutil
import sources as S
import tag
from core import describe
from trun import TOOL, PRE, argv


def read(f):
    try:
        return open(f, 'rb').read()
    except OSError:
        return None


def files(d):
    return {os.path.relpath(os.path.join(r, f), d): read(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


class Rules:
    """transfer, interchunk or postchunk rules: compiled file and output of the stage"""
    def __init__(self, stage):
        self.stage, self.text, self.root = stage, S.RULES[stage], {'t': 'transfer', 'i': 'interchunk', 'p': 'postchunk'}[stage]
        self.tools = (PRE, TOOL[stage])
        self.inp = '\0'.join(S.DOCS[stage]).encode() + b'\0'

    def observe(self, w, d, text):
        x, b = d + '/r.x', d + '/r.b'
        open(x, 'w').write(text)
        r = w.run1(PRE, [x, b])
        if r.status or read(b) is None:
            return None, PRE, [x, b], r
        a = argv(self.stage, (x, b), ['-z'])
        r = w.run1(TOOL[self.stage], a, self.inp)
        return ((read(b), r.out) if r.status == 0 else None), TOOL[self.stage], a, r


class Tagger:
    tools = ('apertium-tagger',)

    def __init__(self, kind):
        self.kind, self.text, self.root = kind, S.MTX if kind == 'mtx' else S.TSX, 'metatag' if kind == 'mtx' else 'tagger'

    def observe(self, w, d, text):
        f = tag.write('%s/%s' % (d, 's.mtx' if self.kind == 'mtx' else 't.tsx'), text)
        if self.kind == 'mtx':
            tag.write(d + '/t.tsx', S.TSX)
        e, crp, T = tag.write(d + '/e', ''), tag.write(d + '/crp', '^am/am<x>/bm<y>$ ^co/co<z><q>/bo<y>$ ^.../..<sent>$\n'), tag.write(d + '/T', '^am/am<x>$ ^co/co<z><q>$\n')
        U = tag.write(d + '/U', '^am/am<x>/bm<y>$ ^co/co<z><q>/bo<y>$\n')
        p = d + '/m.prob'
        if os.path.exists(p):
            os.unlink(p)
        a = {'hmm': ['-s', '0', crp, e, f, p, T, U], 'lsw': ['-w', '-t', '1', crp, crp, f, p], 'mtx': ['-x', '-s', '0', p, T, U, f]}[self.kind]
        r = w.run1('apertium-tagger', a)
        return (read(p) if r.status == 0 else None), 'apertium-tagger', a, r


class Caps:
    tools, text, root = ('apertium-compile-caps',), S.CRX, 'capitalization'

    def observe(self, w, d, text):
        x, b = tag.write(d + '/c.crx', text), d + '/c.b'
        if os.path.exists(b):
            os.unlink(b)
        r = w.run1('apertium-compile-caps', [x, b])
        return (read(b) if r.status == 0 else None), 'apertium-compile-caps', [x, b], r


class Modes:
    tools, text, root = ('apertium-gen-modes', 'apertium-wblank-mode'), S.MODES, 'modes'

    def observe(self, w, d, text):
        m = d + '/m'
        shutil.rmtree(m, ignore_errors=True)
        os.mkdir(m)
        x = tag.write(m + '/modes.xml', text)
        r = w.run1('apertium-gen-modes', [x])
        if r.status:
            return None, 'apertium-gen-modes', [x], r
        fs = files(m)
        del fs['modes.xml']
        return fs, 'apertium-gen-modes', [x], r


SUBJECTS = [('transfer', Rules('t')), ('interchunk', Rules('i')), ('postchunk', Rules('p')), ('hmm tag set', Tagger('hmm')), ('sliding window tag set', Tagger('lsw')), ('perceptron', Tagger('mtx')), ('caps', Caps()), ('modes', Modes())]


def spellings(ctx, s):
    """(description, text): every spelling up to the bound"""
    t = S.toks(s.text)
    base = ''.join(t)
    for n, h in S.HEADS.items():
        h = h.replace('%s', s.root)
        yield n, h + base
        yield n + ', newlines', h + '\n'.join(t) + '\n'
    for n, k in S.KINDS.items():
        yield n + ' everywhere', k.join(t) + k
        for i in range(1, len(t) + 1):
            yield '%s at %d' % (n, i), ''.join(t[:i]) + k + ''.join(t[i:])
    for a, b in it.product(list(S.KINDS.values())[:ctx.pick(2, 5)], repeat=2):
        yield 'two kinds everywhere', ''.join(x + (a, b)[i % 2] for i, x in enumerate(t))
    for n, f in S.TAGS.items():
        u = [f(x) for x in t]
        yield n + ' everywhere', ''.join(u)
        yield n + ' everywhere, comments', '<!--c-->'.join(u)
        for i, x in enumerate(u):
            if x != t[i]:
                yield '%s at %d' % (n, i), ''.join(t[:i]) + x + ''.join(t[i + 1:])
    for (n, f), (m, g) in it.permutations(S.TAGS.items(), 2):
        if 'references' in m:
            continue            # those come first
        yield n + ' and ' + m, ''.join(g(f(x)) for x in t)
    u = S.JOIN(t)
    if u != t:
        yield 'empty elements', ''.join(u)
        yield 'empty elements, comments', '<!--c-->'.join(u)
    if not ctx.quick:
        for i, j in it.combinations(range(1, len(t)), 2):
            yield 'comments at %d and %d' % (i, j), ''.join(t[:i]) + '<!--a-->' + ''.join(t[i:j]) + '\n<!--b-->' + ''.join(t[j:])


def run(ctx):
    ctx.rule = ('for every compiler a source in which every kind of element occurs; every spelling of it: each of five kinds of layout at every single gap between tags, at all gaps, two kinds in turn, every head, each of seven tag spellings at every tag and everywhere, pairs of them (thorough: comments at every pair of gaps); compiled file and output of the tool compared with those of the plain spelling')
    for name, s in SUBJECTS:
        ctx.need(*s.tools)

        def fn(w, blk, s=s):
            d = w.tmp
            if not hasattr(w, 'base'):
                w.base, tool, a, r = s.observe(w, d, s.text)
                if w.base is None:
                    w.fail(tool, a, b'', r, 'plain spelling: ' + describe(r.status))
            if w.base is None:
                return
            for n, text in blk:
                got, tool, a, r = s.observe(w, d, text)
                w.states += 1
                w.trans += 1
                w.seen(str(got))
                if got != w.base:
                    w.fail(tool, a, text.encode(), r, '%s: %s' % (n, describe(r.status) if got is None else 'the result differs from that of the plain spelling'))
                if w.enough:
                    return
            if len(w.samples) < 1:
                w.samples.append(dict(spelling=blk[0][0], text=blk[0][1][:300]))
        ctx.parallel(name, lambda s=s: spellings(ctx, s), fn, 5)
