"""P26: run adjustment keeps the text and never splits words."""
import itertools as it, os, re, unicodedata
import xml.etree.ElementTree as ET
from core import describe, show
W = 'http://w/'
NS = 'xmlns:w="%s" xmlns:m="http://m/"' % W
SP = '{http://www.w3.org/XML/1998/namespace}space'
q = lambda n: '{%s}%s' % (W, n)


def alpha(c):
    return unicodedata.category(c)[0] == 'L'


def inside(s, p):
    """is position p of s inside a word?"""
    if p <= 0 or p >= len(s):
        return False
    l, r = s[p - 1], s[p]
    if alpha(l) and alpha(r):
        return True
    if p >= 2 and alpha(s[p - 2]) and l == '-' and alpha(r):
        return True
    if p + 1 < len(s) and alpha(l) and r == '-' and alpha(s[p + 1]):
        return True
    if p >= 2 and s[p - 2] in 'lL' and l == '\u00b7' and r in 'lL':
        return True
    return p + 1 < len(s) and l in 'lL' and r == '\u00b7' and s[p + 1] in 'lL'


def local(e):
    return e.tag.rsplit('}', 1)[-1] if isinstance(e.tag, str) else '#'


def text(t):
    x = ''.join(t.itertext())
    x = re.sub('[\r\n]+', ' ', x)
    return x if t.get(SP) == 'preserve' else x.strip(' ')


def content(e, a=None, b=None):
    return any(local(c) not in ('rPr', 'lastRenderedPageBreak', '#') for c in list(e)[a:b])


def groups(p):
    """lists of text runs of a paragraph between which text may move"""
    g, cur = [], []

    def cut():
        nonlocal cur
        if cur:
            g.append(cur)
        cur = []
    for c in p:
        n = local(c)
        if n == '#':
            continue
        if n != 'r':
            if c.tag != '#' and any(local(x) == 'r' for x in c.iter() if x is not c):
                cut()
            continue
        ts = [x for x in c if local(x) == 't']
        if len(ts) != 1:
            if content(c):
                cut()
            continue
        k = list(c).index(ts[0])
        if content(c, 0, k):
            cut()
        cur.append((c, ts[0]))
        if content(c, k + 1, None):
            cut()
    cut()
    return g


def boundaries(texts):
    """admissible sets of new texts: list of alternatives per boundary"""
    s = ''.join(texts)
    pos, out = 0, []
    for t in texts[:-1]:
        pos += len(t)
        b = pos
        while inside(s, b):
            b += 1
        alts = {b}
        if b == len(s) - 1 and b > 0 and s[b] in '-\u00b7':
            alts.add(b + 1)      # a hyphen at the very end may go along
        out.append(alts)
    return s, out


def flat(p):
    """paragraph as a comparable value: everything but the text of the movable runs"""
    def f(e):
        if not isinstance(e.tag, str):
            return '#'
        a = tuple(sorted((k, v) for k, v in e.attrib.items() if not (local(e) == 't' and k == SP)))
        return (e.tag, a, text(e) if local(e) == 't' else (e.text or '').strip(), tuple(f(c) for c in e if isinstance(c.tag, str)))
    return [(c, f(c)) for c in p if isinstance(c.tag, str)]


def judge_par(a, b):
    """a: paragraph of the input, b: of the output -> None | message"""
    ga = groups(a)
    fa, fb = flat(a), flat(b)
    gi = {}
    for k, g in enumerate(ga):
        for j, (r, t) in enumerate(g):
            gi[id(r)] = (k, j)
    # walk through both
    new = {}
    i = 0
    for e, v in fa:
        if id(e) not in gi:
            if i >= len(fb) or strip_(fb[i][0], e) != strip_(e, e):
                return 'element %s lost or changed' % local(e)
            i += 1
            continue
        k, j = gi[id(e)]
        g = ga[k]
        if i < len(fb) and shape(fb[i][0]) == shape(e):
            new.setdefault(k, {})[j] = text([x for x in fb[i][0] if local(x) == 't'][0])
            i += 1
        elif i < len(fb) and shape(fb[i][0]) == shape(e, True) and content_wo_t(e):
            new.setdefault(k, {})[j] = None
            i += 1
        else:
            if content_wo_t(e):
                return 'run with other content removed'
            new.setdefault(k, {})[j] = None
    if i != len(fb):
        return 'more elements than expected'
    for k, g in enumerate(ga):
        old = [text(t) for r, t in g]
        got = [new[k][j] for j in range(len(g))]
        s, alts = boundaries(old)
        if ''.join(x or '' for x in got) != s:
            return 'text changed: %r becomes %r' % (old, got)
        pos = 0
        for j, al in enumerate(alts):
            pos += len(got[j] or '')
            want = al
            if pos not in want:
                return 'boundary %d of %r: got %r' % (j, old, got)
    return None


def content_wo_t(r):
    return any(local(c) not in ('rPr', 'lastRenderedPageBreak', 't', '#') for c in r)


def shape(e, wo_t=False):
    return (e.tag, tuple(sorted(e.attrib.items())), tuple((c.tag, tuple(sorted((k, v) for k, v in c.attrib.items() if k != SP))) for c in e if isinstance(c.tag, str) and not (wo_t and local(c) == 't')))


def strip_(e, _):
    return re.sub(r'\s+', ' ', re.sub(r'>\s*\n\s*<', '><', ET.tostring(e, encoding='unicode').strip()))


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;')


def r(t, k, attr=None, pre='', post=''):
    a = ' xml:space="preserve"' if (t[:1] == ' ' or t[-1:] == ' ') and attr is None else attr or ''
    return '<w:r w:k="%s"><w:rPr/>%s<w:t%s>%s</w:t>%s</w:r>' % (k, pre, a, esc(t), post)


def docs(w, pars, argv=('-n',)):
    """pars: list of paragraph bodies"""
    p = w.tmp + '/d.xml'
    src = '<?xml version="1.0" encoding="UTF-8"?>\n<w:d %s>%s</w:d>\n' % (NS, ''.join('<w:p>%s</w:p>' % x for x in pars))
    open(p, 'w', encoding='utf8').write(src)
    a = list(argv)
    inp = (p + '\n').encode()
    if '-f' in a:
        a.append(p)
        inp = b''
    res = w.run1('apertium-adapt-docx', a, inp)
    w.states += len(pars)
    w.trans += len(pars)
    e, bad = None, None
    if res.status:
        e = describe(res.status)
    else:
        out = res.out.decode('utf8', 'replace')
        if not out.endswith('\n\0'):
            e = 'output does not end in newline and NUL'
        out = out.rstrip('\0')
        if '-n' in a:
            pre = '<file name="%s"/> ' % p
            if not out.startswith(pre):
                e = 'no file name in front'
            out = out[len(pre):]
        if '-p' not in a and '\n' in out.rstrip('\n'):
            e = 'output has several lines'
        try:
            o = ET.fromstring(out.encode())
        except ET.ParseError as x:
            e = e or 'output does not parse: %s' % x
        if not e:
            i = ET.fromstring(src.encode(), ET.XMLParser(target=ET.TreeBuilder(insert_comments=False)))
            # a nested paragraph is judged on its own and removed from its run for the outer one
            pi, po = list(i), list(o)
            if len(pi) != len(po):
                e = 'number of paragraphs changed'
            else:
                for x, y, b in zip(pi, po, pars):
                    ix = [z for z in x.iter(q('p'))][1:]
                    iy = [z for z in y.iter(q('p'))][1:]
                    m = None
                    if len(ix) != len(iy):
                        m = 'inner paragraphs changed'
                    for c, d in zip(ix, iy):
                        m = m or judge_par(c, d)
                        c.clear()
                        d.clear()
                    m = m or judge_par(x, y)
                    if m:
                        e, bad = m, b
                        break
                w.seen(out)
    if e and len(pars) > 1:
        if bad is not None:
            docs(w, [bad], argv)
        else:
            for b in pars:
                docs(w, [b], argv)
        return
    if e:
        w.fail('apertium-adapt-docx', a, src.encode(), res, e, [p])


def run(ctx):
    ctx.rule = ('every paragraph of runs with every text up to the bound, and every sequence of paragraph children up to the bound over runs and other content; the adjusted document is parsed and compared with the original: text per group of movable runs, boundaries at the next position outside a word, everything else unchanged')
    ctx.need('apertium-adapt-docx')
    A = ['a', 'l', ' ', '-', '\u00b7', '\u00e9', '1', 'L', '\U00010400', '.']

    def gen():
        one = [''.join(t) for n in (0, 1, 2) for t in it.product(A, repeat=n)]
        three = [''.join(t) for t in it.product(['a', 'l', ' ', '-', '\u00b7'], repeat=3)]
        for t in it.product(one, repeat=2):
            yield t
        for t in it.product(three, repeat=2):
            yield t
        s = [''.join(t) for n in (0, 1) for t in it.product(A, repeat=n)]
        for t in it.product(s, repeat=3):
            yield t
        for t in it.product(['', 'a', 'l', '-', '\u00b7', ' ', 'b '], repeat=ctx.pick(5, 6)):
            yield t
        if not ctx.quick:
            for t in it.product(one, ['a', 'l', '-', '\u00b7', ' ', 'l\u00b7', '-a', ''], one):
                yield t
            for t in it.product(['', 'a', 'l', '-', '\u00b7'], repeat=8):
                yield t

    def fn(w, blk):
        docs(w, [''.join(r(t, k) for k, t in enumerate(x)) for x in blk])
        if len(w.samples) < 2:
            w.samples.append(dict(runs=list(blk[0])))
    ctx.parallel('texts', gen, fn, 400)

    K = [lambda k: r('', k, pre='<w:tab/>'), lambda k: r('a', k), lambda k: r('b ', k), lambda k: r(' -c', k), lambda k: r('d ', k, ' xml:space="default"'), lambda k: '<w:r w:k="%d"><w:t/></w:r>' % k,
         lambda k: '<w:r w:k="%d"><w:tab/></w:r>' % k, lambda k: '<w:r w:k="%d"><w:t>x</w:t><w:t>y</w:t></w:r>' % k, lambda k: r('e', k, pre='<w:tab/>'), lambda k: r('f', k, post='<w:br/>'), lambda k: r('g', k, pre='<w:lastRenderedPageBreak/>'),
         lambda k: '<w:hyperlink w:id="1"><w:r w:k="%d"><w:t>h</w:t></w:r></w:hyperlink>' % k, lambda k: '<w:bookmarkStart w:id="0"/>', lambda k: '<w:ins><w:r w:k="%d"><w:t>i</w:t></w:r></w:ins>' % k, lambda k: '<w:r w:k="%d"><w:rPr><w:b/></w:rPr></w:r>' % k,
         lambda k: '<w:r w:k="%d"><w:drawing><w:p>%s%s</w:p></w:drawing></w:r>' % (k, r('j', 100), r('k', 101)), lambda k: '<w:r w:k="%d"><w:t xml:space="preserve">m<!--c-->n</w:t></w:r>' % k, lambda k: '<w:r w:k="%d"><w:t><![CDATA[o<]]></w:t></w:r>' % k,
         lambda k: '<w:pPr><w:rPr/></w:pPr>', lambda k: '<m:oMath><m:r w:k="%d"><m:t>p</m:t></m:r></m:oMath>' % k, lambda k: r('s\nt', k), lambda k: '<!-- r -->']

    def gen2():
        for n in range(0, 4):
            for t in it.product(range(len(K)), repeat=n):
                yield t
        c = [0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 14, 16] if ctx.quick else range(len(K))
        for t in it.product(c, repeat=4):
            yield t

    def fn2(w, blk):
        docs(w, [''.join(K[x](k) for k, x in enumerate(t)) for t in blk], ARGV[sum(blk[0]) % len(ARGV)] if blk[0] else ('-n',))
    ARGV = [('-n',), (), ('-f',), ('-n', '-f'), ('-n', '-p')]
    ctx.parallel('paragraphs', gen2, fn2, 100)
