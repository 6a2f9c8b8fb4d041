"""P29 every stream tool ends on its own however its input is cut off: all cuts, at every
byte, of all streams of a bounded set, with and without null flush."""
import itertools, os, subprocess
import fmt, p02
from core import show, describe


def judge(data, r):
    if os.WIFSIGNALED(r.status):
        return describe(r.status)
    if len(r.out) > 20000 + 200 * len(data):
        return 'unbounded output: %d bytes' % len(r.out)
    return None


def cuts(docs, full, depth, bytewise=False):
    """all distinct prefixes (by characters or bytes) of all sequences of at most depth documents"""
    yield b''
    for n in range(1, depth + 1):
        for seq in itertools.product(docs if n <= full else docs[:6], repeat=n):
            lead, last = b''.join(seq[:-1]), seq[-1]
            for k in range(1, len(last) + 1):
                if bytewise or k == len(last) or last[k] & 0xc0 != 0x80:
                    yield lead + last[:k]


def blocks(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


MORE = {
    'apertium-pretransfer': ['^é\\+x/a\\/<x><y># é q+b<y>~c<z>/d<x>$', '[[t:b:1; t:i:\\]2]]^a<x>+b<y>$', '[é\\]]'],
    'apertium-transfer': ['[[t:b:1; t:\\]é]]^d\\<et<d>/dé\\/t<d># q$', '^cat<n># q r/gat# é<n>/b<n>$[\\]é]', '^\\^/@\\$<n>$'],
    'apertium-interchunk': ['[[t:b:1]]^é\\{<A><pl>{^x\\$<1>/y$[\\]é][[t:\\]:2]]^z# q$}$', '^a<A>{}$'],
    'apertium-postchunk': ['[[t:b:1]]^é\\{<A><pl>{^x\\$<1>/y<12>$[\\]é][[t:\\]:2]]^z# q$}$', '^a<A>{}$', '^b<A><pl>{^x<\\>2>$}$'],
    'apertium-tagger': ['^é\\/m/a\\+é<x># q/b<y>+c<z>$[\\]é]', '[[t:b:\\]1]]^é/*é$', '^am/am<x>/bm<y>\\$$'],
    'apertium-extract-caps': ['[[t:b:\\]1]]^É\\/x/é\\<<n># q/b$[\\]é]'],
    'apertium-restore-caps': ['[[t:b:\\]1; c:AA/aa]]^é\\/x<n># q/É$[\\]é]'],
    'apertium-wblank-attach': ['[[t:\\]é:1; t:i:2]]^é\\$x/b<x>$ [\\]é][[/]]'],
    'apertium-wblank-detach': ['[[t:\\]é:1; t:i:2]]^é\\$x/b<x>$ [\\]é]'],
    'apertium-posttransfer': ['~é [\\]é] \\~ '],
    'apertium-cleanstream': ['^é\\/m/a\\+é<x># q/b<y>+c<z>$[\\]é]', '[[t:b:\\]1]]^é/*é$', ' ', '^u/@u$x', '[<b>\n]', '[[/]]', '\\^\\é'],
    'apertium-multiple-translations': ['^det<d>/det<d>$ ', '^cat<n><pl>/gat<n><pl>/cot<n>$', '[<é>\\]]', '^run<v>/@run$', '[[t:b:1]]^x<n>/y\\/<n># q$', '\\^'],
}


def run(ctx):
    ctx.rule = ('every byte-prefix of every sequence of at most the stated number of documents of each tool\'s set, x option sets, with and without null flush; '
                'every byte-prefix of every sequence of tokens of each document format for the de- and re-formatters; the tool must end by itself with bounded output')
    stream = ['apertium-pretransfer', 'apertium-posttransfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk', 'apertium-extract-caps',
              'apertium-restore-caps', 'apertium-wblank-attach', 'apertium-wblank-detach', 'apertium-tagger']
    ctx.need(*stream, 'apertium-cleanstream', 'apertium-multiple-translations', 'apertium-compile-caps', p02.PRE)
    C = p02.configs(ctx)
    cfg = []
    for tool, z, eof, docs in C:
        d = [x.encode() for x in MORE.get(tool, []) + [x for x in docs if x]]
        if '-t' in z:
            continue
        cfg.append((tool, z, d))
        if eof is not None:
            cfg.append((tool, eof, d))
    r1 = [a for t, a, d in cfg if t == 'apertium-transfer'][0][-2:]
    m = [x.encode() for x in MORE['apertium-cleanstream']]
    for o in ([], ['-n'], ['-e'], ['-n', '-e'], ['-t', 'x']):
        if o[:1] != ['-t']:
            cfg.append(('apertium-cleanstream', o, m))
    m = [x.encode() for x in MORE['apertium-multiple-translations']]
    for o in (['-b'], ['-b', '-m'], ['-b', '-t']):
        cfg.append(('apertium-multiple-translations', o + r1, m))

    def items():
        for tool, argv, docs in cfg:
            for b in blocks(cuts(docs, 2, ctx.pick(2, 3)), 400):
                yield tool, argv, b

    def fn(w, blk):
        for tool, argv, data in blk:
            w.states += len(data)
            w.trans += sum(map(len, data))
            w.check(tool, [(argv, d, d) for d in data], judge)
    ctx.parallel('streams', items, fn, 1)

    names = [f for f in fmt.F]
    ctx.need(*['apertium-des' + f for f in names], *['apertium-re' + f for f in names if f != 'mediawiki'])

    def fitems():
        for f in names:
            a = [x.encode() for x in fmt.COMMON + fmt.SPECIAL[f]]
            c = [x.encode() for x in fmt.CORE[f]]
            for b in blocks(cuts(a, 1, 1, f != 'rtf'), 400):
                yield f, b
            for b in blocks(cuts(c if ctx.quick else a, 2, 2, f != 'rtf'), 400):
                yield f, b

    def ffn(w, blk):
        for f, data in blk:
            des = 'apertium-des' + f
            for o in ([], ['-i'], ['-n']):
                w.states += len(data)
                w.trans += sum(map(len, data))
                w.check(des, [(o, d, d) for d in data], judge)
            if f == 'mediawiki' and 'apertium-remediawiki' not in w.tools:
                continue
            re_ = 'apertium-re' + f
            outs = w.many(des, [([], d) for d in data])
            pre = {o.out[:k] for o in outs for k in range(max(0, len(o.out) - 12), len(o.out) + 1)} | set(data)
            pre = sorted(p for p in pre if b'[@/' not in p)
            w.states += len(pre)
            w.check(re_, [([], d, d) for d in pre], judge)
    ctx.parallel('formats', fitems, ffn, 1)

    L = [x.encode() for x in ('a', 'é', '\\begin{it*}', '\\end{b}', '\\t{oo}', '\\\'{e}', '\\^\\i', '"a', '$x<y$', '$$', '\\verb|<a>|', '% c\r\n', '\\usepackage[ngerman]{babel}',
                                '[p]', '{', '}', '\\%', '\\\\', '~', '?`', '<MATH_DOLLAR>', '&quot;', '<COMMENT>', '</it_STAR>', '<HASH_1/>', '<PARAM>x', '\\(', '\\#1', '\n', '\\foo*', '😀', 'ß')]
    lt = ['apertium-prelatex', 'apertium-postlatex', 'apertium-postlatex-raw']
    ctx.need(*lt)

    def litems():
        for t in lt:
            for b in blocks(cuts(L, 2, ctx.pick(2, 3)), 400):
                yield t, b

    def lfn(w, blk):
        for t, data in blk:
            w.states += len(data)
            w.trans += sum(map(len, data))
            w.check(t, [([], d, d) for d in data], judge)
    ctx.parallel('latex', litems, lfn, 1)
