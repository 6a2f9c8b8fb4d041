"""P02 null flush: every document is processed as if it were the only one, and its reply
comes at once.

The oracle is the tool itself: what it prints for a document alone in a process of its own.
All ordered pairs and triples of documents that fill and empty every piece of state are fed
to one process; in addition every pair is played over pipes against a running tool, the next
document being sent only after the complete reply to the one before."""
import itertools, os, select, subprocess, time
import p21
from core import show, describe
from trun import PRE

T1X = '''<?xml version="1.0" encoding="UTF-8"?>
<transfer%s>
<section-def-cats><def-cat n="n"><cat-item tags="n.*"/><cat-item tags="n"/></def-cat><def-cat n="v"><cat-item tags="v.*"/></def-cat>
<def-cat n="d"><cat-item lemma="det" tags="d"/></def-cat><def-cat n="r"><cat-item tags="r"/></def-cat></section-def-cats>
<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/></def-attr></section-def-attrs>
<section-def-vars><def-var n="seen" v="none"/><def-var n="last"/><def-var n="num" v="&lt;sg&gt;"/><def-var n="blank"/></section-def-vars>
<section-def-lists><def-list n="l"><list-item v="a"/></def-list></section-def-lists>
<section-rules>
<rule><pattern><pattern-item n="d"/><pattern-item n="n"/><pattern-item n="v"/></pattern><action>
 <let><var n="num"/><clip pos="2" side="tl" part="num"/></let><let><var n="blank"/><b pos="1"/></let>
 <out>%s</out></action></rule>
<rule><pattern><pattern-item n="d"/><pattern-item n="n"/></pattern><action>
 <let><var n="last"/><clip pos="2" side="tl" part="lemh"/></let><append n="seen"><clip pos="2" side="tl" part="lem"/></append>
 <out>%s</out></action></rule>
<rule><pattern><pattern-item n="n"/></pattern><action>
 <let><clip pos="1" side="tl" part="num"/><var n="num"/></let>
 <choose><when><test><equal><var n="last"/><lit v=""/></equal></test><let><var n="last"/><clip pos="1" side="tl" part="lem"/></let></when>
 <otherwise><append n="seen"><lit v="+"/><clip pos="1" side="tl" part="lem"/></append></otherwise></choose>
 <out>%s</out></action></rule>
<rule><pattern><pattern-item n="v"/></pattern><action>
 <choose><when><test><equal><var n="seen"/><lit v="none"/></equal></test><out>%s</out></when><otherwise><reject-current-rule shifting="no"/></otherwise></choose></action></rule>
<rule><pattern><pattern-item n="v"/><pattern-item n="r"/></pattern><action><reject-current-rule shifting="yes"/></action></rule>
</section-rules></transfer>
'''
LU = '<lu>%s</lu>'
CLIP = '<clip pos="%d" side="tl" part="whole"/>'
VARS = '<lu><var n="last"/><lit v="."/><var n="seen"/><lit-tag v="x"/><var n="num"/></lu>'


def t1x(chunk):
    def w(*lus):
        s = '<b/>'.join(lus)
        if not chunk:
            return s
        return '<chunk name="c"><tags><tag><lit-tag v="SN"/></tag></tags>%s</chunk>' % s
    return T1X % (' default="chunk"' if chunk else '', w(LU % (CLIP % 3), VARS, LU % (CLIP % 1)), w(LU % (CLIP % 1), LU % (CLIP % 2), VARS), w(LU % (CLIP % 1), VARS),
                  w(LU % (CLIP % 1), LU % '<var n="num"/>'))


T2X = '''<?xml version="1.0" encoding="UTF-8"?>
<interchunk>
<section-def-cats><def-cat n="A"><cat-item tags="A.*"/><cat-item tags="A"/></def-cat><def-cat n="B"><cat-item tags="B"/></def-cat></section-def-cats>
<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/></def-attr></section-def-attrs>
<section-def-vars><def-var n="seen" v="none"/><def-var n="num" v="&lt;sg&gt;"/></section-def-vars>
<section-rules>
<rule><pattern><pattern-item n="A"/><pattern-item n="B"/><pattern-item n="A"/></pattern><action>
 <let><var n="num"/><clip pos="1" part="num"/></let><append n="seen"><clip pos="1" part="lem"/></append>
 <out><chunk><clip pos="3" part="whole"/></chunk><b/><chunk><clip pos="1" part="lem"/><var n="num"/><clip pos="1" part="chcontent"/></chunk></out></action></rule>
<rule><pattern><pattern-item n="A"/></pattern><action>
 <let><clip pos="1" part="num"/><var n="num"/></let>
 <choose><when><test><equal><var n="seen"/><lit v="none"/></equal></test><let><var n="seen"/><clip pos="1" part="lem"/></let></when></choose>
 <out><chunk><clip pos="1" part="whole"/></chunk><b/><chunk><lit v="v"/><var n="seen"/><lit-tag v="V"/><lit v="{^x$}"/></chunk></out></action></rule>
<rule><pattern><pattern-item n="B"/></pattern><action>
 <choose><when><test><equal><var n="seen"/><lit v="none"/></equal></test><out><b/></out></when><otherwise><reject-current-rule shifting="no"/></otherwise></choose></action></rule>
</section-rules></interchunk>
'''
T3X = '''<?xml version="1.0" encoding="UTF-8"?>
<postchunk>
<section-def-cats><def-cat n="a"><cat-item name="a"/></def-cat><def-cat n="b"><cat-item name="b"/></def-cat></section-def-cats>
<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/></def-attr></section-def-attrs>
<section-def-vars><def-var n="seen" v="none"/><def-var n="num" v="&lt;sg&gt;"/></section-def-vars>
<section-rules>
<rule><pattern><pattern-item n="a"/></pattern><action>
 <choose><when><test><equal><var n="seen"/><lit v="none"/></equal></test><let><var n="seen"/><clip pos="1" part="lem"/></let></when></choose>
 <let><var n="num"/><clip pos="1" part="num"/></let>
 <out><lu><clip pos="1" part="whole"/></lu><b/><lu><var n="seen"/></lu></out></action></rule>
<rule><pattern><pattern-item n="b"/></pattern><action>
 <append n="seen"><clip pos="1" part="lem"/></append>
 <out><lu><var n="num"/><var n="seen"/></lu></out></action></rule>
</section-rules></postchunk>
'''
CRX = '''<?xml version="1.0" encoding="UTF-8"?>
<capitalization source="surface">
<rules>
<rule weight="1"><match tags="n.*" trglem="aa" select="aa"/></rule>
<rule weight="2"><begin/><match select="Aa"/></rule>
<rule weight="3"><match tags="n.*"/><match tags="v.*" select="AA"/></rule>
<rule weight="1"><match trglem="*" srcsurf="AA" select="AA"/></rule>
</rules></capitalization>
'''

LEX = ['', ' ', '^det<d>/det<d>$ ^cat<n><pl>/gat<n><pl>$', '^det<d>/det<d>$', '^cat<n>/gat<n>$[<b>]', '[ <i>]^run<v><x>/correr<v><x>$',
       '^run<v><x>/correr<v><x>$ ^q<r>/q<r>$', '^det<d>/det<d>$[1]^Cat<n><sg>/Gat<n><sg>$[2]^run<v><x>/CORRER<v><x>$', '[[t:b:1]]^cat<n>/gat<n><pl>$ x', '^unk/@unk$.[]',
       '[[t:b:1]]^det<d>/det<d>$ [[t:i:2]]^cat<n><pl>/gat<n><pl>$', '^run<v><x>/correr<v><x>$', '\\^a\\$ ^zz<q>/zz<q>$', '^cat<n><pl>/gat<n><pl>$\n^cat<n>/gat<n>$']
CH = ['', ' ', '^a<A><pl>{^x<1>$}$ ^b<B>{^y$}$ ^a<A>{^z$}$', '^a<A><pl>{^x<2>$}$', '^a<A>{^x$}$[<b>]', '[ <i>]^b<B>{^y<t>$}$', '^b<B>{^y$}$ ^a<A>{^z$}$', '^a<A>{^x$}$ ^b<B>{^y$}$',
      '^zz<Q>{^x$ ^y$}$ x', '[[t:b:1]]^a<A><pl>{[[t:i:2]]^x<2>$[k]^y$}$', '\\[^A<A>{^x$}$', '^Aa<B>{^y$}$']
PC = ['', ' ', '^a<A><pl>{^x<2>$}$', '^b<A>{^y<t>$}$', '^zz<Q>{^x<1>$ ^y$}$[<b>]', '[ <i>]^A<A>{^x$}$', '^AA<A>{^x$ [k]^y$}$', '^b<B>{^y$}$ ^a<A><sg>{^z<2>$}$', '[[t:b:1]]^a<A><pl>{[[t:i:2]]^x<2>$}$',
      'x\\{', '^a<A>{^w<1>$}$\n', '^Zz<Q>{^x# q<a>$}$']
PRE_T = ['', ' ', '^a<x>$', '^a<x>+b<y>$ ', '[<b>]^a<x>+b<y># q$', '^a/a<x># q/b<y>$', '[[t:b:1]]^a<x>+b<y>$', '\\^x', '^u/*u$[]', '^a<x>~b<y>$.', '^a<x># q+b<y>$', '^a/a<x>$\n']
PRE_N = [d.replace('^a<', '^s/a<') for d in PRE_T]
POST_T = ['', ' ', 'a', '~a', 'a ~', '[<b>]b', '\\~c', '[[t:b:1]]a[[/]]', '~', 'a\n~b c', '.', '\\\\']
EXT_T = ['', ' ', '^Aa/aa<n>$', '^AA/aa<n>$[<b>]', '[[t:b:1]]^aA/aa<n>$', '^a/A<n>/b<n>$', '\\^', '^U/*U$.', '[[c:Aa/aa]]^b/b$', '^Ñandú/ñandú<n>$', 'x', '[\\]]']
RES_T = ['', ' ', '[[c:aa/aa]]^aa<n>$', '[[c:AA/aa]]^aa<n>$[<b>]', '[[t:b:1; c:Aa/aa]]^aa<v><x>$', '^aa<n>$', '^bb$ ^cc<v><y>$', '[[c:aa/aa]]^xx<n>/Xx$ [[c:aa/aa]]^yy<v><z>/Yy$', '\\^', '.',
         '[[c:aa/aa]]^xx<n>$', '[[c:aa/aa]]^yy<v><z>$', '[[c:Aa/Aa]]^zz<q>$\n']
ATT_T = ['', ' ', '[[t:b:1]]^a$[[/]]', '[[t:b:1]]^a$ ^b$[[/]]', '[[t:b:1]][[t:i:2]]^a$[[/]]^b$[[/]]', '^a/b<x>$', '[<b>]^c$', '[[t:b:1; t:u:3]]x[[/]]', '\\[[[t:b:1]]^a$[[/]]', '[[t:b:1]]^a$', '[[t:b:1]]', 'x^\\$$', '[[t:b:1]][[t:i:2]]^a$[[/]]']
DET_T = ['', ' ', '[[t:b:1]]^a$', '[[t:b:1]]^a$ [[t:b:1]]^b$', '^a$', '[[t:b:1; t:i:2]]^a$[<p>]', '[<b>]^c/d$', 'x', '[[t:b:1]]', '\\[\\[', '[[t:b:1]] ', '[[t:b:1]]^a$[[t:i:2]]^b$ ^c$']
TAG_T = ['', ' ', '^ex/ex<x>$', '^am/am<x>/bm<y>$', '^am/am<x>/bm<y>$ ^./.<sent>$', '^Unk/*Unk$', '^ey/ey<y>$ ^am/am<x>/bm<y>$', '^xc/x<x>+c<z>$[<b>]', '[[t:b:1]]^am/am<x>/bm<y>$', '\\^', '[]^./.<sent>$ ',
         '^am/am<x>/bm<y>$ ^am/am<x>/bm<y>$', '^xs/o<x>/p<x><pl>$', '^c/c<z>$\n']


def live(cmd, docs, alone, cwd):
    """plays docs over pipes; None or what went wrong"""
    env = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8')
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, env=env, bufsize=0)
    out = b''
    try:
        for k, d in enumerate(docs):
            p.stdin.write(d.encode() + b'\0')
            end = time.time() + 20
            while b'\0' not in out:
                rd, _, _ = select.select([p.stdout], [], [], max(0.0, end - time.time()))
                if not rd:
                    return k, 'no complete reply to %r while the tool waits for input (so far %r)' % (d, out)
                x = os.read(p.stdout.fileno(), 65536)
                if not x:
                    return k, 'the tool ended after %r' % d
                out += x
            r, out = out.split(b'\0', 1)
            if r.decode('utf8', 'replace') != alone[d]:
                return k, 'reply to %r is %r, alone %r' % (d, r, alone[d])
            if out:
                return k, 'more than one reply to %r: %r' % (d, out)
        p.stdin.close()
        p.wait(20)
        return None
    except BrokenPipeError:
        return k, 'the tool ended before %r' % docs[k]
    finally:
        p.kill()
        p.wait()
        p.stdout.close()


def debruijn(n):
    """closed walk through all ordered pairs of n items"""
    seq = []
    for i in range(n):
        seq.append(i)
        for j in range(i + 1, n):
            seq += [i, j]
    return [seq[(k) % len(seq)] for k in range(len(seq) + 1)]


def isolated(ctx, w, tool, argv, docs, strict=True):
    alone = {}
    for d, r in zip(docs, [w.run1(tool, argv, d.encode() + b'\0') for d in docs]):
        o = r.out.decode('utf8', 'replace')
        if r.status or '\0' not in o:
            w.fail(tool, argv, d.encode() + b'\0', r, 'no reply to the only document: %s %r' % (describe(r.status), o))
            return None
        x, rest = o.split('\0', 1)
        if rest not in ('', '\0'):
            w.fail(tool, argv, d.encode() + b'\0', r, 'bytes after the reply: %r' % rest)
            return None
        alone[d] = x
    return alone


def configs(ctx):
    """[(tool, argv with -z, argv without or None, documents)]"""
    S = ctx.scratch
    os.makedirs(S + '/r')
    R = {}
    for n, x in (('t1', t1x(True)), ('t1l', t1x(False)), ('t2', T2X), ('t3', T3X)):
        open('%s/r/%s.x' % (S, n), 'w').write(x)
        p = subprocess.run([ctx.B.binary(PRE), '%s/r/%s.x' % (S, n), '%s/r/%s.b' % (S, n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('rules: %s %r' % (n, p.stdout))
        R[n] = ['%s/r/%s.x' % (S, n), '%s/r/%s.b' % (S, n)]
    open(S + '/r/c.crx', 'w').write(CRX)
    p = subprocess.run([ctx.B.binary('apertium-compile-caps'), S + '/r/c.crx', S + '/r/c.bin'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('caps: %r' % p.stdout)
    C = []

    def add(tool, pre, post, docs, nf='-z'):
        C.append((tool, pre + ([nf] if nf else []) + post, pre + post if nf else None, docs))
    for o in ([], ['-n'], ['-e']):
        add('apertium-pretransfer', o, [], PRE_N if '-n' in o else PRE_T)
    add('apertium-posttransfer', [], [], POST_T)
    for r in ('t1', 't1l'):
        for o in (['-b'], ['-b', '-w'], ['-b', '-t']):
            add('apertium-transfer', o, R[r], LEX)
        add('apertium-transfer', ['-n'], R[r], LEX)
    for o in ([], ['-w'], ['-t']):
        add('apertium-interchunk', o, R['t2'], CH)
        add('apertium-postchunk', o, R['t3'], PC)
    for o in ([], ['-s']):
        add('apertium-extract-caps', o, [], EXT_T)
    for o in ([], ['-k']):
        add('apertium-restore-caps', o, [S + '/r/c.bin'], RES_T)
    add('apertium-wblank-attach', [], [], ATT_T, None)
    add('apertium-wblank-detach', [], [], DET_T, None)
    for kind, base, prob in p21.prepare(ctx):
        for o in ([], ['-m', '-p']) if kind in ('uni1', 'uni2') else ([], ['-m', '-p'], ['-f']):
            add('apertium-tagger', base + o, [prob], TAG_T)
    return C


def run(ctx):
    ctx.rule = ('all ordered sequences of at most three documents of each tool\'s set (which fills every variable, window, queue, cache and ban list), for every '
                'option set, in one process, against the same documents each in a process of its own; and all ordered pairs played over pipes, each reply '
                'being complete before the next document is sent')
    ctx.need('apertium-pretransfer', 'apertium-posttransfer', 'apertium-transfer', 'apertium-interchunk', 'apertium-postchunk', 'apertium-extract-caps',
             'apertium-restore-caps', 'apertium-wblank-attach', 'apertium-wblank-detach', 'apertium-tagger', 'apertium-compile-caps', PRE)
    C = configs(ctx)
    plain = {t: ctx.B.binary(t) for t in sorted({c[0] for c in C})}
    depth = ctx.pick(3, 4)

    def alone_fn(w, blk):
        for tool, argv, eof, docs in blk:
            alone = isolated(ctx, w, tool, argv, docs)
            if alone is None:
                continue
            # the end of the input ends a document as a null byte does
            if eof is not None:
                for d in docs:
                    r = w.run1(tool, eof, d.encode())
                    w.states += 1
                    w.seen(r.out)
                    if r.status or r.out.decode('utf8', 'replace') != alone[d]:
                        w.fail(tool, eof, d.encode(), r, 'ended by end of input: %r (%s), by null byte: %r' % (show(r.out), describe(r.status), alone[d]))
            # pipes
            seq = [docs[i] for i in debruijn(len(docs))]
            w.n += 1
            w.trans += len(seq)
            m = live([plain[tool]] + argv, seq, alone, w.tmp)
            if m:
                k, msg = m
                lead = seq[max(0, k - 2):k + 1]
                w.fail(tool, argv, '\0'.join(lead + ['']).encode(), None, 'over pipes: ' + msg)
    ctx.parallel('alone and live', lambda: iter(C), alone_fn, 1)

    def items():
        for c in C:
            for pre in [()] + [x for n in range(1, depth) for x in itertools.product(c[3], repeat=n)]:
                yield c, pre

    def fn(w, blk):
        for (tool, argv, eof, docs), pre in blk:
            key = (tool, tuple(argv))
            if not hasattr(w, 'al'):
                w.al = {}
            if key not in w.al:
                w.al[key] = isolated(ctx, w, tool, argv, docs)
            alone = w.al[key]
            if alone is None:
                continue
            for d, r in zip(docs, w.many(tool, [(argv, '\0'.join(pre + (x, '')).encode()) for x in docs])):
                seq = pre + (d,)
                w.states += 1
                w.trans += len(seq)
                want = [alone[x] for x in seq]

                def bad(r):
                    got = r.out.decode('utf8', 'replace').split('\0')
                    return r.status or got[:len(want)] != want or got[len(want):] not in ([''], ['', ''])
                if bad(r):
                    data = '\0'.join(seq + ('',)).encode()
                    r = w.run1(tool, argv, data)
                    if bad(r):
                        w.fail(tool, argv, data, r, '%s: got %r, each alone %r' % (describe(r.status), show(r.out), want))
                w.seen(r.out)
            if len(w.samples) < 3:
                w.samples.append(dict(tool=tool, argv=[a.replace(ctx.scratch, '$T') for a in argv], documents=seq))
    ctx.parallel('histories', items, fn, 20)
