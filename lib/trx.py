"""Reference interpreter of the transfer rule language (transfer in -b / -n mode,
interchunk, postchunk) and generator of the rule files.

Programs are Python trees; `xml(stage, prog)` writes them as a rule file for the
real tools, `Machine` interprets the same trees directly.

Expressions (tuples):
  ('lit', s) ('lit-tag', 'a.b') ('var', n) ('b',) ('clip', pos, side, part[, linkto])
  ('get-case-from', pos, e) ('case-of', pos, side, part) ('concat', e...) ('lu-count',)
  ('lu', e...) ('mlu', lu...) ('chunk', attrs-dict-items, tags or None, child...)
Conditions: ('equal', a, b, caseless) begins-with ends-with contains-substring,
  ('in', e, list, caseless) begins-with-list ends-with-list, ('and', c...) ('or', c...) ('not', c)
Instructions: ('let', target, e) ('append', n, e...) ('modify-case', target, e)
  ('out', e...) ('choose', ((cond, instrs), ...), otherwise|None) ('call', macro, (pos...))
  ('reject', shifting)
prog: dict(cats=[(name, [(lemma|None, tags|None)])], attrs=[(name, [tags])], vars=[(n, v)],
           lists=[(n, [v])], macros=[(n, npar, instrs)], rules=[(catnames, instrs)], default='lu'|'chunk')
"""
import re
from xml.sax.saxutils import quoteattr as Q

# ------------------------------------------------------------------ XML


def _e(x):
    k = x[0]
    if k in ('lit', 'lit-tag'):
        return '<%s v=%s/>' % (k, Q(x[1]))
    if k == 'var':
        return '<var n=%s/>' % Q(x[1])
    if k == 'b':
        return '<b/>' if len(x) == 1 else '<b pos="%d"/>' % x[1]
    if k == 'lu-count':
        return '<lu-count/>'
    if k in ('clip', 'case-of'):
        s = '<%s pos="%d"' % (k, x[1])
        if x[2]:
            s += ' side="%s"' % x[2]
        s += ' part=%s' % Q(x[3])
        if len(x) > 4 and x[4]:
            s += ' link-to=%s' % Q(x[4])
        return s + '/>'
    if k == 'get-case-from':
        return '<get-case-from pos="%d">%s</get-case-from>' % (x[1], _e(x[2]))
    if k in ('concat', 'lu', 'mlu'):
        return '<%s>%s</%s>' % (k, ''.join(map(_e, x[1:])), k)
    if k == 'chunk':
        s = '<chunk' + ''.join(' %s=%s' % (a, Q(v)) for a, v in x[1]) + '>'
        if x[2] is not None:
            s += '<tags>' + ''.join('<tag>%s</tag>' % _e(t) for t in x[2]) + '</tags>'
        return s + ''.join(map(_e, x[3:])) + '</chunk>'
    raise ValueError(k)


def _c(x):
    k = x[0]
    if k in ('and', 'or', 'not'):
        return '<%s>%s</%s>' % (k, ''.join(map(_c, x[1:])), k)
    cl = ' caseless="yes"' if len(x) > 3 and x[3] else ''
    if k in ('in', 'begins-with-list', 'ends-with-list'):
        return '<%s%s>%s<list n=%s/></%s>' % (k, cl, _e(x[1]), Q(x[2]), k)
    return '<%s%s>%s%s</%s>' % (k, cl, _e(x[1]), _e(x[2]), k)


def _i(x):
    k = x[0]
    if k in ('let', 'modify-case'):
        return '<%s>%s%s</%s>' % (k, _e(x[1]), _e(x[2]), k)
    if k == 'append':
        return '<append n=%s>%s</append>' % (Q(x[1]), ''.join(map(_e, x[2:])))
    if k == 'out':
        return '<out>%s</out>' % ''.join(map(_e, x[1:]))
    if k == 'choose':
        s = '<choose>'
        for c, ins in x[1]:
            s += '<when><test>%s</test>%s</when>' % (_c(c), ''.join(map(_i, ins)))
        if x[2] is not None:
            s += '<otherwise>%s</otherwise>' % ''.join(map(_i, x[2]))
        return s + '</choose>'
    if k == 'call':
        return '<call-macro n=%s>%s</call-macro>' % (Q(x[1]), ''.join('<with-param pos="%d"/>' % p for p in x[2]))
    if k == 'reject':
        return '<reject-current-rule shifting="%s"/>' % x[1]
    raise ValueError(k)


def xml(stage, p):
    root = {'t': 'transfer', 'i': 'interchunk', 'p': 'postchunk'}[stage]
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<%s%s>\n' % (root, ' default="%s"' % p['default'] if p.get('default') else '')]
    o.append('<section-def-cats>\n')
    for n, items in p['cats']:
        o.append('<def-cat n=%s>' % Q(n))
        for lem, tags in items:
            if stage == 'p':
                o.append('<cat-item name=%s/>' % Q(lem))
            else:
                o.append('<cat-item%s tags=%s/>' % (' lemma=%s' % Q(lem) if lem is not None else '', Q(tags)))
        o.append('</def-cat>\n')
    o.append('</section-def-cats>\n<section-def-attrs>\n')
    for n, items in p.get('attrs', ()):
        o.append('<def-attr n=%s>%s</def-attr>\n' % (Q(n), ''.join('<attr-item tags=%s/>' % Q(t) for t in items)))
    o.append('</section-def-attrs>\n<section-def-vars>\n')
    for n, v in p.get('vars', ()):
        o.append('<def-var n=%s%s/>\n' % (Q(n), ' v=%s' % Q(v) if v else ''))
    o.append('</section-def-vars>\n')
    if p.get('lists'):
        o.append('<section-def-lists>')
        for n, items in p['lists']:
            o.append('<def-list n=%s>%s</def-list>\n' % (Q(n), ''.join('<list-item v=%s/>' % Q(t) for t in items)))
        o.append('</section-def-lists>\n')
    if p.get('macros'):
        o.append('<section-def-macros>')
        for n, npar, ins in p['macros']:
            o.append('<def-macro n=%s npar="%d">%s</def-macro>\n' % (Q(n), npar, ''.join(map(_i, ins))))
        o.append('</section-def-macros>\n')
    o.append('<section-rules>\n')
    for pat, ins in p['rules']:
        o.append('<rule><pattern>%s</pattern><action>%s</action></rule>\n' % (
            ''.join('<pattern-item n=%s/>' % Q(c) for c in pat), ''.join(map(_i, ins))))
    o.append('</section-rules>\n</%s>\n' % root)
    return ''.join(o)

# ------------------------------------------------------------------ strings


def getcase(s):
    if not s or not s[0].isupper():
        return 'aa'
    return 'AA' if len(s) > 1 and s[-1].isupper() else 'Aa'


def title(s):
    return re.sub(r"[\w']+", lambda m: m.group()[0].upper() + m.group()[1:], s.lower())


def copycase(src, dst):
    if not src:
        return dst
    c = getcase(src)
    return dst.upper() if c == 'AA' else title(dst) if c == 'Aa' else dst.lower()


def copycase_tags(src, dst):
    """case of the lemma parts only: tags keep theirs"""
    a, b = dst.find('<'), dst.rfind('>')
    if a < 0 or b < 0:
        return copycase(src, dst)
    c = getcase(src)
    t = dst[b + 1:]
    return copycase(c, dst[:a]) + dst[a:b + 1] + (t.upper() if c == 'AA' else t.lower())


def tagstr(v):
    return '<' + v.replace('.', '><') + '>'


PRE = {'lem': re.compile(r'^[^<]+'), 'lemq': re.compile(r'#[- _][^<]+'), 'lemh': re.compile(r'^[^<#]+'),
       'whole': re.compile(r'.+', re.S), 'tags': re.compile(r'(?:<[^>]+>)+'), 'chcontent': re.compile(r'\{.+', re.S), 'content': re.compile(r'\{.+', re.S)}


class Part:
    """selector of one attribute: leftmost, longest listed tag sequence"""

    def __init__(self, items):
        self.items = sorted({tagstr(t) for t in items}, key=lambda s: -len(s))

    def span(self, s):
        for i in range(len(s)):
            if s[i] == '<':
                for t in self.items:
                    if s.startswith(t, i):
                        return i, i + len(t)
        return None


def span(part, s):
    if isinstance(part, Part):
        return part.span(s)
    m = part.search(s)
    return m.span() if m else None


def clip(part, s):
    sp = span(part, s)
    return s[sp[0]:sp[1]] if sp else ''


def setpart(part, s, v):
    sp = span(part, s)
    return s[:sp[0]] + v + s[sp[1]:] if sp else s


def combine(a, b):
    if not a:
        return b
    if not b:
        return a
    return a[:-2] + '; ' + b[2:]

# ------------------------------------------------------------------ input


TOK = re.compile(r'\\.|\[\[(?:\\.|[^\]\\]|\](?!\]))*\]\]\^|\[(?:\\.|[^\]\\])*\]|.', re.S)


def parse(doc, stage):
    """-> blanks [n+1], words [n] (inner text), wblanks [n]"""
    blanks, words, wbs = [''], [], []
    i, n = 0, len(doc)
    while i < n:
        c = doc[i]
        if c == '\\':
            blanks[-1] += doc[i:i + 2]
            i += 2
        elif c == '[' and stage == 't' and doc.startswith('[[', i):
            j = i
            while doc[j] != '^' or doc[j - 2:j] != ']]':
                j += 2 if doc[j] == '\\' else 1
            wb = doc[i:j]
            i = j
            w, i = _unit(doc, i, stage)
            words.append(w)
            wbs.append(wb)
            blanks.append('')
        elif c == '[':
            j = i
            while doc[j] != ']':
                j += 2 if doc[j] == '\\' else 1
            blanks[-1] += doc[i:j + 1]
            i = j + 1
        elif c == '^':
            w, i = _unit(doc, i, stage)
            words.append(w)
            wbs.append('')
            blanks.append('')
        else:
            blanks[-1] += c
            i += 1
    return blanks, words, wbs


def _unit(doc, i, stage):
    j = i + 1
    brace = False
    while brace or doc[j] != '$':
        if doc[j] == '\\':
            j += 1
        elif stage != 't' and doc[j] == '{':
            brace = True
        elif brace and doc[j] == '}' and doc[j + 1] == '$':
            brace = False
        j += 1
    return doc[i + 1:j], j + 1


def readings(w):
    """split at unescaped '/' outside tags"""
    out, cur, tag, i = [], '', False, 0
    while i < len(w):
        c = w[i]
        if c == '\\':
            cur += w[i:i + 2]
            i += 2
            continue
        if c == '<':
            tag = True
        elif c == '>':
            tag = False
        if c == '/' and not tag:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    out.append(cur)
    return out


class TWord:
    __slots__ = ('sl', 'tl', 'ref', 'wb')

    def __init__(self, w, wb, bil):
        if bil:
            r = readings(w)
            self.sl = r[0]
            self.tl = r[1] if len(r) > 1 else ''
            self.ref = r[-1] if len(r) > 2 else ''
        else:
            self.sl = self.tl = w
            self.ref = ''
        self.wb = wb

    def get(self, side, part):
        return clip(part, getattr(self, side))

    def set(self, side, part, v):
        setattr(self, side, setpart(part, getattr(self, side), v))


def split_chunk(c):
    """name+tags, {content}"""
    i = 0
    while i < len(c):
        if c[i] == '\\':
            i += 1
        elif c[i] == '{':
            return c[:i], c[i:]
        i += 1
    return c, ''


class CWord:
    __slots__ = ('head', 'queue', 'wb')

    def __init__(self, text, wb=''):
        self.head, self.queue = split_chunk(text)
        self.wb = wb

    def get(self, side, part):
        r = '' if self.contents(part) else clip(part, self.head)
        if not r:
            q = clip(part, self.queue)
            return q if q == self.queue else ''
        if r == self.head and part is PRE['whole']:
            return self.head + self.queue
        return r

    def set(self, side, part, v):
        if not self.contents(part):
            self.head = setpart(part, self.head, v)

    def contents(self, part):
        """the contents are never found in the head (unless a rule has made it start with a bare brace)"""
        return part in (PRE['content'], PRE['chcontent']) and self.head[:1] != '{'


class Reject(Exception):
    pass


def lemma_part(p):
    return p in ('lem', 'lemh', 'whole')


class Machine:
    def __init__(self, stage, prog, bil=True, dictcase=False, shared=False):
        self.stage, self.prog, self.bil, self.dictcase = stage, prog, bil, dictcase
        self.parts = dict(PRE)
        for n, items in prog.get('attrs', ()):
            self.parts[n] = Part(items)
        self.macros = {n: (npar, ins) for n, npar, ins in prog.get('macros', ())}
        self.lists = dict(prog.get('lists', ()))
        self.cats = {n: self.catre(items) for n, items in prog['cats']}
        # a later rule with literally the same pattern is ignored by the compiler (it warns)
        self.rules, seen = [], set()
        for i, (pat, ins) in enumerate(prog['rules']):
            if tuple(pat) not in seen:
                seen.add(tuple(pat))
                self.rules.append((i, tuple(pat), ins))
        self.memo = {}
        # shared=True models a known finding: a word sequence reached through literally
        # the same pattern items as in an earlier rule belongs to that rule only
        self.paths = None
        if shared:
            import itertools
            taken, self.paths = set(), {}
            norm = {n: [((l or '*'), t) for l, t in items] for n, items in prog['cats']}
            for n, items in prog['cats']:
                for l, t in items:
                    self.cats[((l or '*'), t)] = self.catre([(l, t)])
            for r, pat, ins in self.rules:
                ps = set(itertools.product(*[norm[c] for c in pat]))
                self.paths[r] = ps - taken
                taken |= ps
        self.defaults = {n: v or '' for n, v in prog.get('vars', ())}
        self.reset()

    def reset(self):
        self.vars = dict(self.defaults)
        self.varwb = {}

    # -- word classes
    def catre(self, items):
        alts = []
        for lem, tags in items:
            r = ''
            if lem is None or lem == '':
                r = r'.+'
            else:
                for c in lem:
                    r += '.+' if c == '*' else re.escape(c)
            if self.stage == 'p':
                alts.append(r)
                continue
            r += '\x02'
            while '*.*' in tags:         # consecutive wildcards are one
                tags = tags.replace('*.*', '*')
            for t in tags.split('.'):
                r += r'(?:<[^>]*>)+' if t == '*' else re.escape('<%s>' % t)
            alts.append(r)
        return re.compile('|'.join('(?:%s)' % a for a in alts), re.S)

    def key(self, w):
        """lemma (unescaped, lower case), tags of the matched side"""
        s = readings(w)[0] if self.stage == 't' else split_chunk(w)[0]
        m = re.match(r'((?:\\.|[^<\\])*)((?:<[^>]*>)*)(.*)$', s, re.S)
        lem = re.sub(r'\\(.)', r'\1', m.group(1)).lower()
        if self.stage == 'p':
            return lem
        return lem + '\x02' + m.group(2) + m.group(3)

    def inclass(self, cat, w):
        k = (cat, w)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = bool(self.cats[cat].fullmatch(self.key(w)))
        return r

    # -- driver
    def run(self, doc):
        """one document -> output text (variables keep their values)"""
        blanks, words, wbs = parse(doc, self.stage)
        out = self.out = []
        self.steps = 0
        n = len(words)
        i = 0
        banned = set()
        out.append(blanks[0])
        while i < n:
            self.steps += 1
            best = None
            for r, pat, ins in self.rules:
                L = len(pat)
                if r not in banned and i + L <= n and (best is None or L > len(best[1])) and \
                        all(self.inclass(c, words[i + k]) for k, c in enumerate(pat)) and \
                        (self.paths is None or any(all(self.inclass(c, words[i + k]) for k, c in enumerate(p)) for p in self.paths[r])):
                    best = (r, pat, ins)
            if best is None:
                self.default(words[i], wbs[i])
                banned = set()
                i += 1
                out.append(blanks[i])
                continue
            r, pat, ins = best
            L = len(pat)
            mark = len(out)
            self.matched(words[i:i + L], wbs[i:i + L], blanks[i + 1:i + L])
            k = -1
            for x in ins:
                k = self.instr(x)
                if k != -1:
                    break
            if k and self.stage == 'p':
                self.putlead()
            if k == 0:
                banned.add(r)
                continue
            used = L if k < 0 else min(k, L)
            # remaining formatting of the consumed words
            nq = len(self.queue)
            keep = self.queue[:max(0, nq - (L - used))] if used < L else self.queue
            out.extend(b for b in keep if b != ' ')
            banned = set()
            i += used
            out.append(blanks[i])
        return ''.join(out)

    def putlead(self):
        if self.lead:
            self.out.append(self.lead)
            self.lead = ''

    def default(self, w, wb):
        o = self.out
        if self.stage == 't':
            t = TWord(w, wb, self.bil)
            if not t.tl:
                return
            if self.prog.get('default') == 'chunk':
                o.append('^%s{%s^%s$}$' % ('unknown<unknown>' if t.tl[0] == '*' else 'default<default>', wb, t.tl))
            else:
                o.append('%s^%s$' % (wb, t.tl))
        elif self.stage == 'i':
            o.append('^%s$' % w)
        else:
            o.append(unchunk(w, self.dictcase))

    def matched(self, words, wbs, blanks):
        if self.stage == 't':
            self.words = [TWord(w, b, self.bil) for w, b in zip(words, wbs)]
            self.n = len(words)
            self.queue = list(blanks)
        elif self.stage == 'i':
            self.words = [CWord(w) for w in words]
            self.n = len(words)
            self.queue = list(blanks)
        else:
            head, _ = split_chunk(words[0])
            lead, ws, bl = inner(words[0], self.dictcase)
            self.lead = lead
            self.words = [CWord(head)] + [CWord(t, b) for t, b in ws]
            self.n = self.count = len(ws)
            self.queue = bl
        self.in_out = False

    def word(self, pos):
        k = pos if self.stage == 'p' else pos - 1
        return self.words[k] if 0 <= k < len(self.words) else None     # no such word: reads as nothing

    # -- instructions: -1 or number of words to consume
    def instr(self, x):
        self.steps += 1
        k = x[0]
        if k == 'let':
            t = x[1]
            if t[0] == 'var':
                self.lwb = ''
                v = self.ev(x[2], 'let')
                self.vars[t[1]] = v
                self.varwb[t[1]] = self.lwb
            else:
                w = self.word(t[1])
                if w is not None:
                    w.set(t[2] or 'tl', self.parts[t[3]], self.ev(x[2], None))
        elif k == 'append':
            for e in x[2:]:
                self.lwb = self.varwb.get(x[1], '')
                v = self.ev(e, 'let')
                self.vars[x[1]] = self.vars.get(x[1], '') + v
                self.varwb[x[1]] = self.lwb
        elif k == 'modify-case':
            if self.dictcase:
                return -1
            t = x[1]
            if t[0] == 'var':
                self.vars[t[1]] = copycase(self.ev(x[2], None), self.vars.get(t[1], ''))
            else:
                w, part = self.word(t[1]), self.parts[t[3]]
                if w is not None:
                    w.set(t[2] or 'tl', part, copycase(self.ev(x[2], None), w.get(t[2] or 'tl', part)))
        elif k == 'out':
            self.in_out = True
            if self.stage == 'p':
                self.putlead()
            for e in x[1:]:
                self.out.append(self.ev(e, None))
            self.in_out = False
        elif k == 'choose':
            for c, ins in x[1]:
                if self.cond(c):
                    return self.seq(ins)
            if x[2] is not None:
                return self.seq(x[2])
        elif k == 'call':
            npar, ins = self.macros[x[1]]
            if len(x[2]) > npar:
                return -1            # more arguments than the macro has: not called
            if self.stage == 'p' and any(self.word(p) is None for p in x[2]):
                return -1            # no such word in this chunk: not called
            save, sn = self.words, self.n
            ws = [self.word(p) for p in x[2]]
            self.words = [save[0]] + ws if self.stage == 'p' else ws
            if self.stage == 'p':
                self.n = npar
            for y in ins:
                self.instr(y)        # a macro cannot end its caller
            self.words, self.n = save, sn
        elif k == 'reject':
            return {'yes': 1, 'no': 0}.get(x[1]) if x[1] in ('yes', 'no') else int(x[1])
        return -1

    def seq(self, ins):
        for y in ins:
            k = self.instr(y)
            if k != -1:
                return k
        return -1

    # -- conditions
    def cond(self, c):
        k = c[0]
        if k == 'and':
            return all(self.cond(x) for x in c[1:])
        if k == 'or':
            return any(self.cond(x) for x in c[1:])
        if k == 'not':
            return not self.cond(c[1])
        low = (lambda s: s.lower()) if len(c) > 3 and c[3] else (lambda s: s)
        a = low(self.ev(c[1], None))
        if k in ('in', 'begins-with-list', 'ends-with-list'):
            l = [low(x) for x in self.lists.get(c[2], ())]
            if k == 'in':
                return a in l
            if k == 'begins-with-list':
                return any(a.startswith(x) for x in l)
            return any(a.endswith(x) for x in l)
        b = low(self.ev(c[2], None))
        if k == 'equal':
            return a == b
        if k == 'begins-with':
            return a.startswith(b)
        if k == 'ends-with':
            return a.endswith(b)
        if k == 'contains-substring':
            return b in a
        raise ValueError(k)

    # -- expressions; mode: None | 'lu' | 'let' (who collects word-bound blanks)
    def collect(self, mode, wb):
        if mode == 'lu':
            self.owb = combine(self.owb, wb)
        elif mode == 'let':
            self.lwb = combine(self.lwb, wb)

    def ev(self, x, mode):
        k = x[0]
        if k == 'lit':
            return x[1]
        if k == 'lit-tag':
            return tagstr(x[1])
        if k == 'var':
            if self.n > 1 and mode == 'lu':
                self.collect('lu', self.varwb.get(x[1], ''))
            return self.vars.get(x[1], '')
        if k == 'b':
            if self.queue:
                return self.queue.pop(0) if self.in_out else self.queue[0]
            return ' '
        if k == 'clip':
            w = self.word(x[1])
            if w is None:
                return ''
            v = w.get(x[2] or 'tl', self.parts[x[3]])
            if len(x) > 4 and x[4]:
                return '<%s>' % x[4] if v else ''
            if x[2] != 'ref' and lemma_part(x[3]) and self.n > 1 and self.stage != 'i':
                self.collect(mode, w.wb)
            if self.stage == 'i' and x[3] == 'content':
                return v[1:-1]
            return v
        if k in ('get-case-from', 'case-of') and self.word(x[1]) is None:
            return ''                # no such word
        if k == 'get-case-from':
            w = self.word(x[1])
            return (copycase_tags if not self.dictcase else lambda s, d: d)(w.get('sl', self.parts['lem']), self.ev(x[2], mode))
        if k == 'case-of':
            return getcase(self.word(x[1]).get(x[2] or 'tl', self.parts[x[3]]))
        if k == 'concat':
            return ''.join(self.ev(y, mode) for y in x[1:])
        if k == 'lu-count':
            return str(self.count)
        if k == 'lu':
            self.owb = ''
            s = ''.join(self.ev(y, 'lu') for y in x[1:])
            return self.finish_lu(s)
        if k == 'mlu':
            self.owb = ''
            s = ''
            for lu in x[1:]:
                p = ''.join(self.ev(y, 'lu') for y in lu[1:])
                if s and p and p[0] != '#':
                    s += '+'
                s += p
            return self.finish_lu(s)
        if k == 'chunk':
            if self.stage == 'i':
                return '^' + ''.join(self.ev(y, None) for y in x[3:]) + '$'
            at = dict(x[1])
            name = at['name'] if 'name' in at else self.vars.get(at['namefrom'], '')
            if not self.dictcase:
                name = copycase(self.vars.get(at.get('case', 'aa'), ''), name)
            s = '^' + name
            if x[2] is not None:
                s += ''.join(self.ev(t, None) for t in x[2]) + '{'
            return s + ''.join(self.ev(y, None) for y in x[3:]) + '}$'
        raise ValueError(k)

    def finish_lu(self, s):
        if not s:
            return ''
        k = 1 if self.stage == 'p' else 0
        if self.n == 1 and len(self.words) > k and self.words[k] is not None:
            wb = self.words[k].wb
        else:
            wb = self.owb            # (no word: in a macro without arguments)
        return wb + '^' + s + '$'

# ------------------------------------------------------------------ postchunk


def chunk_info(c, dictcase):
    head, body = split_chunk(c)
    m = re.match(r'(?:\\.|[^<\\])*', head, re.S)
    case = getcase(m.group())
    tags = re.findall(r'<[^>]*>', head[m.end():])
    return ('aa' if dictcase else case), tags, body[1:-1]


def inner_tokens(body):
    """-> list of ('w', wblank, text) / ('b', text) / ('B', superblank)"""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        wb = ''
        if body.startswith('[[', i):
            j = i
            while body[j] != '^' or body[j - 2:j] != ']]':
                j += 2 if body[j] == '\\' else 1
            wb, i, c = body[i:j], j, '^'
        if c == '^':
            j = i + 1
            while body[j] != '$':
                j += 2 if body[j] == '\\' else 1
            out.append(('w', wb, body[i + 1:j]))
            i = j + 1
        elif c == '[':
            j = i
            while body[j] != ']':
                j += 2 if body[j] == '\\' else 1
            out.append(('b', '', body[i:j + 1]))
            i = j + 1
        elif c == '\\':
            out.append(('b', '', body[i:i + 2]))
            i += 2
        else:
            out.append(('b', '', c))
            i += 1
    return out


def up1(c):
    """upper case, one character for one"""
    u = c.upper()
    return u if len(u) == 1 else c


def resolve(text, tags, case, first):
    """numbered tags and case of one inner word; -> text, still-first"""
    s, i = '', 0
    while i < len(text):
        c = text[i]
        if c == '\\':
            s += text[i:i + 2]
            i += 2
            continue
        if c == '<':
            j = text.index('>', i)
            t = text[i + 1:j]
            if t[:1].isdigit():
                k = int(t) - 1
                s += tags[k] if 0 <= k < len(tags) else ''
            else:
                s += '<%s>' % t
            i = j + 1
            continue
        if case == 'AA':
            s += up1(c)
        elif case == 'Aa' and first and c.isalnum():
            s += up1(c)
            first = False
        else:
            s += c
        i += 1
    return s, first


def unchunk(c, dictcase=False):
    case, tags, body = chunk_info(c, dictcase)
    first, out = True, ''
    for k, wb, t in inner_tokens(body):
        if k == 'w':
            t, first = resolve(t, tags, case, first)
            out += wb + '^' + t + '$'
        else:
            out += t
    return out


def inner(c, dictcase=False):
    """leading blank, words [(text, wblank)], blanks between (and after) them"""
    case, tags, body = chunk_info(c, dictcase)
    first, lead, ws, bl = True, '', [], []
    trail = ''
    for k, wb, t in inner_tokens(body):
        if k == 'w':
            t, first = resolve(t, tags, case, first)
            if ws:
                bl.append(trail)
            trail = ''
            ws.append((t, wb))
        elif ws:
            trail += t
        else:
            lead += t
    if trail:
        bl.append(trail)
    return lead, ws, bl
