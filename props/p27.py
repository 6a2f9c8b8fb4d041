"""P27 apertium-tmxbuild: translation units are sound, ordered, escaped; a document against itself is complete."""
import itertools, os, re, unicodedata
import xml.etree.ElementTree as ET
from core import describe, show

PH = '\ue000'          # stands for <ph/> inside a text
TERM = {'?', '!'}


def sentences(doc):
    """the sentences of an unformatted document, with <ph/> for every blank; unterminated text is not a sentence"""
    out, cur, i, n = [], '', 0, len(doc)
    while i < n:
        c = doc[i]
        if c == '\\':
            if i + 1 >= n:
                break
            cur += doc[i + 1]
            i += 2
            continue
        if c == '[':
            j = i + 1
            while j < n and doc[j] != ']':
                j += 2 if doc[j] == '\\' else 1
            if j >= n:
                break
            b = doc[i:j + 1]
            cur += (' ' if b.startswith('[ ') else '') + PH + (' ' if b.endswith(' ]') else '')
            i = j + 1
            continue
        cur += c
        i += 1
        if c == '.' and i < n and (doc[i] == '[' or doc[i].isspace()) or c in TERM:
            out.append(cur)
            cur = ''
    return out


def lines(doc):
    """what is aligned: the words of each line of each sentence"""
    return [l.split() for s in sentences(doc) for l in s.split('\n')]


def keep(c):
    k = unicodedata.category(c)
    return k[0] in 'LP' or k == 'Nd'


def usable(text):
    t = re.search(r'[^\W\d_]', text.replace(PH, '<ph/>'))
    return bool(t) and sum(c.isspace() for c in text.replace(PH, '<ph/>')[t.start():]) > 2


def trim(text):
    """leading and trailing blanks, marks that are no letters, digits or punctuation, and final periods go"""
    cells = [PH if c == PH else c for c in text]
    esc = {'<': '&', '>': '&', '&': '&'}
    while cells and (cells[0] == PH or not keep(esc.get(cells[0], cells[0]))):
        cells.pop(0)
    while cells and (cells[-1] == PH or not keep(esc.get(cells[-1], cells[-1]))):
        cells.pop()
    while cells and cells[-1] == '.':
        cells.pop()
    return ''.join(cells)


def units(out):
    """[(lang, text, lang, text)] of a TMX document, or an error"""
    try:
        root = ET.fromstring(out)
    except ET.ParseError as e:
        return 'the output is no well-formed XML: %s' % e
    if root.tag != 'tmx' or root.get('version') != '1.4' or [x.tag for x in root] != ['header', 'body']:
        return 'no TMX document'
    h = root[0]
    if h.get('srclang') != 'en' or h.get('segtype') != 'sentence':
        return 'header %r' % h.attrib
    res = []
    for tu in root[1]:
        r = []
        if tu.tag != 'tu' or len(tu) != 2:
            return 'not a unit: %s' % ET.tostring(tu)
        for v in tu:
            if v.tag != 'tuv' or len(v) != 1 or v[0].tag != 'seg':
                return 'not a unit: %s' % ET.tostring(tu)
            t = v[0].text or ''
            for p in v[0]:
                if p.tag != 'ph' or len(p) or p.text:
                    return 'element %s in a segment' % p.tag
                t += PH + (p.tail or '')
            r.append((v.get('{http://www.w3.org/XML/1998/namespace}lang'), t))
        if [x[0] for x in r] != ['en', 'es']:
            return 'languages %r' % r
        res.append((r[0][1], r[1][1]))
    return res


def place(segs, ls):
    """can the segments be runs of consecutive lines, in order, without overlap?"""
    pos = 0
    for k, s in enumerate(segs):
        best = None
        for i in range(pos, len(ls)):
            for j in range(i + 1, len(ls) + 1):
                t = ' '.join(' '.join(x) for x in ls[i:j])
                if usable(t) and trim(t) == s and (best is None or j < best):
                    best = j
        if best is None:
            return 'segment %d, %r, is no run of sentences after the one before it' % (k + 1, s.replace(PH, '<ph/>'))
        pos = best
    return None


def judge(w, a, b, r):
    if r.status != 0:
        return describe(r.status)
    us = units(r.out)
    if isinstance(us, str):
        return us
    if a == b:
        want = [' '.join(l) for l in lines(a)]
        want = [trim(x) for x in want if usable(x)]
        want = [(x, x) for x in want if x]
        if us != want:
            return 'a document aligned with itself: units %r, expected %r' % (us, want)
        return None
    return place([u[0] for u in us], lines(a)) or place([u[1] for u in us], lines(b))


def run(ctx):
    ctx.rule = ('pairs of documents of up to the bound of sentences, each document against itself, and every character sequence up to the bound between two sentences: '
                'units must be runs of sentences of both documents, in order, escaped; a document against itself gives every usable sentence')
    ctx.assumptions.append('which sentences are paired is a heuristic of the aligner; only documents aligned with themselves are required to be complete')
    ctx.need('apertium-tmxbuild')
    S = ['The house is very big. ', 'We went to town.[<br>]\n', 'No. ', '[<p>]Is <it> R&D, \\[ok\\] 3.5 or x?[ ]', 'a b c d e f g h i j k l m n o p q r! ', 'Son\nlas dos en punto. ',
         '\U0001F600 ¡Qué día tan [<b>]bueno[ </b> ]hoy! ', '12 + 7 is 19. ', '[ ]"Go home now," said B. B. King. ', 'x < y and y > z. ']
    SP = S[:6] if ctx.quick else S[:7]
    docs = [''.join(t) for n in range(0, 4) for t in itertools.product(SP, repeat=n)]
    D = {}

    def path(d):
        if d not in D:
            D[d] = '%s/d%d' % (ctx.scratch, len(D))
            with open(D[d], 'w', encoding='utf8', newline='') as f:
                f.write(d)
        return D[d]

    def fn(w, blk):
        reqs = [(['en', 'es', path(a), path(b)], b'') for a, b in blk]
        w.states += len(blk)
        w.trans += sum(len(lines(a)) + len(lines(b)) for a, b in blk)
        for (a, b), (argv, _), r in zip(blk, reqs, w.many('apertium-tmxbuild', reqs)):
            w.seen(r.out)
            m = judge(w, a, b, r)
            if m:
                r = w.run1('apertium-tmxbuild', argv, b'')
                m = judge(w, a, b, r)
                if m:
                    w.fail('apertium-tmxbuild', argv, b'', r, m + ' (documents %r and %r)' % (a, b))

    step = 1 if not ctx.quick else 1
    pairs = [(a, b) for a in docs for b in docs if a.count('. ') + 1]
    if ctx.quick:
        short = [d for n in range(0, 3) for d in (''.join(t) for t in itertools.product(SP, repeat=n))]
        pairs = [(a, b) for a in docs for b in short] + [(a, b) for a in short for b in docs if b not in set(short)]
    for d in docs:
        path(d)
    ctx.parallel('pairs', lambda: iter(pairs), fn, block=200)
    own = [''.join(t) for n in range(0, ctx.pick(4, 5)) for t in itertools.product(S, repeat=n)]
    for d in own:
        path(d)
    ctx.parallel('itself', lambda: ((d, d) for d in own), fn, block=200)
    T = ['a', ' ', '.', '?', '[', ']', '[<b>]', '[ ]', '\\', '<', '&', '\n', '\t', 'é', '\U0001F600', '-', '"', '$']
    P = ['One two three four. ', 'And so on we go']
    ch = [''.join(t) for n in range(0, ctx.pick(4, 5)) for t in itertools.product(T, repeat=n)]
    cds = [P[0] + c + P[1] + '. ' for c in ch] + [c for c in ch]
    for d in cds:
        path(d)
    ctx.parallel('characters', lambda: ((d, d) for d in cds), fn, block=200)
