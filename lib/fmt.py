"""Reference scanner for the document formats: what is text, markup, blank or a
character reference, and the stream a de-formatter has to write for it."""
import re
from formats import F

LARGE = 8192
TOOLS = {f: ('apertium-des' + f, 'apertium-re' + f) for f in F}


class Format:
    def __init__(self, name):
        d = F[name]
        self.name = name
        fl = (re.I if d['caseless'] else 0) | re.M | re.S
        c = lambda alts: [re.compile(a.encode(), fl) for a in alts]
        self.rules = []     # (regexes, kind, rule) in order of preference
        comments = [r for r in d['rules'] if r['end']]
        for r in d['rules']:
            self.rules.append((c(r['begin']), 'C' if r['end'] else 'M', r))
        self.state = {}
        for r in comments:
            inner = sorted((q for q in d['rules'] if q['prio'] < r['prio']), key=lambda q: q['prio'])
            self.state[id(r)] = [(c(q['begin']), 'C' if q['end'] else 'M', q) for q in inner] + [(c(r['end']), 'E', r)]
        top = list(self.rules)
        for alts, m in d['entities']:
            top.append((c(alts), 'R', m))
        top.append((c(d['space']), 'B', None))
        top.append((c(d['escape']), 'X', None))
        self.state[0] = top
        self.esc = c(d['escape'])[0]
        self.cache = {}

    def match(self, st, data, pos):
        key = len(data) < 200 and (st, pos == 0 or data[pos - 1] == 10, data[pos:])
        v = self.cache.get(key) if len(data) < 200 else None
        if v is None:
            best, kind, rule = 0, None, None
            for rs, k, r in self.state[st]:
                for x in rs:
                    m = x.match(data, pos)
                    if m and m.end() - pos > best:
                        best, kind, rule = m.end() - pos, k, r
            v = (best, kind, rule)
            if len(self.cache) > 400000:
                self.cache.clear()
            if key:
                self.cache[key] = v
        return v

    def scan(self, data):
        """-> list of (kind, bytes, eos, eoh, target): kinds M markup/blank, T text, X reserved text, R reference"""
        out, stack, pos = [], [0], 0
        while pos < len(data):
            n, k, r = self.match(stack[-1], data, pos)
            if k is None:
                b = data[pos]
                n = 1 if b < 0x80 else 2 if b < 0xe0 else 3 if b < 0xf0 else 4
                out.append(('T' if stack[-1] == 0 else 'M', data[pos:pos + n], 0, 0, None))
            else:
                t = data[pos:pos + n]
                if k == 'C':
                    stack.append(id(r))
                    out.append(('M', t, r['eos'], r['eoh'], None))
                elif k == 'M':
                    out.append(('M', t, r['eos'], r['eoh'], None))
                elif k == 'E':
                    stack.pop()
                    out.append(('M', t, 0, 0, None))
                elif k == 'R':
                    g = r.get(t.decode())
                    out.append(('R', t, 0, 0, g.encode()) if g is not None else ('M', t, 0, 0, None))
                elif k == 'B':
                    out.append(('M', t, 0, 0, None))
                else:
                    out.append(('X', t, 0, 0, None))
            pos += n
        return out

    def escape(self, b):
        return self.esc.sub(lambda m: b'\\' + m.group(0), b)

    def deformat(self, data, opts=()):
        """-> list of bytes pieces; ('@', contents) for a large block"""
        i, nd, o = '-i' in opts, '-n' in opts, '-o' in opts
        mark = b'[]' if nd else b'.[]'
        out, buf, dot, eoh = [], b'', False, False

        def flush():
            nonlocal buf, dot, eoh
            if eoh and o:
                out.append('[]\u2761'.encode())
                eoh = False
            if dot and not i:
                out.append(mark)
                dot = False
            if len(buf.decode('utf8').encode('utf-16-le')) // 2 > LARGE:
                if i:
                    out.append(mark)
                out.append(('@', buf))
            elif buf not in (b'', b' '):
                if i:
                    out.append(mark)
                e = self.escape(buf)
                out.append(b'[' + (b'\\' if e[:1] == b'@' else b'') + e + b']')
            else:
                out.append(buf)
            buf = b''
        for k, t, eos, h, g in self.scan(data):
            if k == 'M':
                dot = dot or eos
                eoh = eoh or h
                buf += t
            else:
                flush()
                out.append(b'\\' + t if k == 'X' else g if k == 'R' else t)
        dot = True
        if i:
            out.append(mark)
        flush()
        return out

    def reformat_alternatives(self, data, lost=None):
        """regex for the documents that may come back.  lost=options: the known
        finding that a period right before the sentence mark [] is taken for
        the mark .[] and dropped"""
        r, gone = b'', set()
        if lost:
            flat = [p for p in self.deformat(data, lost) if p != b'']
            for x, p in enumerate(flat):
                if p == b'.' and x + 1 < len(flat) and flat[x + 1] == b'[]':
                    gone.add(sum(1 for y in flat[:x] if y == b'.'))
        dots = 0
        for k, t, _, _, g in self.scan(data):
            if k == 'R':
                r += b'(?:' + b'|'.join(re.escape(x) for x in {t, g} | self.preferred(g)) + b')'
            elif lost and k == 'T' and t == b'.':
                if dots not in gone:
                    r += re.escape(t)
                dots += 1
            else:
                r += re.escape(t)
        return re.compile(r, re.S)

    def preferred(self, g):
        return {s.encode() for _, m in F[self.name]['entities'] for s, t in m.items() if t.encode() == g}


_f = {}


def get(name):
    if name not in _f:
        _f[name] = Format(name)
    return _f[name]


STREAM = re.compile(rb'(?:[^\[\]\\^$]|\\.|\[(?:[^\[\]\\]|\\.)*\])*', re.S)


def well_formed(s):
    return STREAM.fullmatch(s) is not None


# ------------------------------------------------------------------ alphabets
COMMON = ['a', ' ', '\n', '.', '[', ']', '^', '$', '/', '\\', '@', '{', '}', '<', '>', '~', '*', 'é', '😀', '&', ';', '\r\n', '"', "'", 'A1', '\t', '.[]', '[]']
HTML = ['<b>', '</b>', '<p>', '<P class="x">', '<p\nid=1>', '</h1>', '<h2 x>', '<script>', '</script>', '<!--', '-->', '{{', '}}', '<br', '<img ', 'alt="', '">', '&eacute;', '&amp;', '&#39;', '&#xE9;', '&lt;',
        '<apertium-notrans>', '</apertium-notrans>', '<style type=x>', '</STYLE>', '</title>', '<?php ', '<!DOCTYPE>', '</div>', '<x:é>', '<>', '</', '<link x>', '&nosuch;', '&rsquo;']
SPECIAL = {
    'txt': ['\n\n', '\r\n\r\n', '\r', 'É\u0301', '<x>', '&amp;'],
    'html': HTML, 'html-alt': HTML, 'html-noent': HTML,
    'odt': ['<text:p>', '<text:p a="b">', '</text:p>', '<text:h>', '</text:h>', '<text:span>', '</text:span>', '<!--', '-->', '<math:math>', '</math:math>', '<math>', '</math>', '<math xmlns=x>', '&lt;apertium-notrans&gt;', '&lt;/apertium-notrans&gt;', '&apos;', '&amp;', '<?xml ', '<text:s/>', '&lt;', '<p>'],
    'rtf': ['\\par', '\\par ', '\\pard', '{\\b ', '\\\'e9', '\\\'e9\n', '\\\'E9', '\\\'00', '\\rquote ', '\\rquote', '\\rq', '\\r', '{\\colortbl', '{\\*\\pntxt', ';', '\\b0 ', '\\cell', '\\row', '0123456789abcdefabcd', '{\\fnil', '\\{', '\\}', '\\\\', '\\u237', '\\~', '{\\pict ', '{ \\f0\\fswiss', '\\ré'],
    'wxml': ['<w:p>', '<w:p w:x="y">', '</w:p>', '<w:t>', '</w:t>', '<w:pPr>', '<w:drawing>', '</w:drawing>', '<w:instrText x>', '</w:instrText>', '<pkg:binaryData>', '</pkg:binaryData>', '<Properties>', '</Properties>', '<!--', '-->', '&apos;', '&amp;', '&lt;apertium-notrans&gt;', '&lt;/apertium-notrans&gt;', '<?xml '],
    'xlsx': ['<si>', '</si>', '<si x>', '<t>', '</t>', '<f>', '</f>', '<f t="x">', '<!--', '-->', '&apos;', '&amp;', '&lt;apertium-notrans&gt;', '&lt;/apertium-notrans&gt;', '<?xml '],
    'pptx': ['<a:p>', '</a:p>', '<a:p x>', '<a:t>', '</a:t>', '<p:timing>', '</p:timing>', '<pkg:binaryData>', '</pkg:binaryData>', '<!--', '-->', '&apos;', '&amp;', '&lt;apertium-notrans&gt;', '&lt;/apertium-notrans&gt;', '<?xml '],
    'mediawiki': ["''", "'''", '==', '=', '* ', ':', '#', '[[en:x]]', '[[image:', '[[', ']]', '{{', '}}', '<!--', '-->', '&lt;!--', '--&gt;', '<id>', '</id>', '<siteinfo>', '</siteinfo>', '<timestamp>', '</timestamp>', '<contributor>', '</contributor>', '<comment>', '</comment>', '&lt;math&gt;',
                  '&lt;/math&gt;', '&lt;br', '&gt;', '<br>', '</title>', '<page>', '&amp;', '<script>', '</script>', '|', '[http://x y]'],
    'latex': ['<CONTENTS>', '</CONTENTS>', '<PARAM>', '</PARAM>', '<MATH_DOLLAR>', '</MATH_DOLLAR>', '<MATH_DOLLARS>', '</MATH_DOLLARS>', '<textbf/>', '<emph_STAR/>', '<section/>', '<cite/>', '<ref/>', '<COMMENT>', '</COMMENT>', '<VERB>', '</VERB>', '<!--', '-->', '<item/>', '<itemize>',
              '</itemize>', '<equation>', '</equation>', '<em/>', '<sf/>', '&apos;', '</CONTENTS-noeos>', '<footnote/>', '<parbox/>', '<b>', '&amp;', '<thebibliography>', '</thebibliography>', '<eqnarray>', '</eqnarray>', '<caption/>'],
    'xpresstag': ['<*x->', '<b>', '<->', '@name:', '@name=', '@x=[y]', '->', ':', '=', '<\\n>', '<é>', '@é:'],
}
# the core of each alphabet, for the deeper exploration
CORE = {
    'txt': ['a', ' ', '\n', '\r\n', '.', '[', '\\', '@', 'é', '~', '^', '$', '.[]'],
    'html': ['a', ' ', '.', '[', '@', '<b>', '<p>', '</h1>', '<!--', '-->', '<script>', '</script>', '&eacute;', '&lt;', 'é'],
    'html-alt': ['a', ' ', '"', '>', '@', '<b>', '<p>', '<!--', '-->', '<script>', '</script>', '<img ', 'alt="', '&eacute;', 'é'],
    'html-noent': ['a', ' ', '.', '[', '@', '<b>', '<p>', '</h1>', '<!--', '-->', '{{', '}}', '&eacute;', 'é'],
    'odt': ['a', ' ', '.', '{', '@', '<text:p>', '</text:h>', '<b>', '<math>', '</math>', '<!--', '-->', '&apos;', '&amp;', 'é'],
    'rtf': ['a', ' ', '\\', '{', '}', '\\par', '\\\'e9', '\n', ';', '{\\colortbl', '\\rquote ', '@', 'é', '\\cell'],
    'wxml': ['a', ' ', '[', '<w:p>', '</w:p>', '<w:t>', '<w:drawing>', '</w:drawing>', '<w:instrText>', '</w:instrText>', '<!--', '-->', '&apos;', '@', 'é'],
    'xlsx': ['a', ' ', '[', '<si>', '</si>', '<t>', '<f>', '</f>', '<!--', '-->', '&apos;', '&lt;apertium-notrans&gt;', '&lt;/apertium-notrans&gt;', '@', 'é'],
    'pptx': ['a', ' ', '{', '<a:p>', '</a:p>', '<a:t>', '<p:timing>', '</p:timing>', '<!--', '-->', '&apos;', '@', 'é'],
    'mediawiki': ['a', ' ', '\n', "''", '==', '*', '[', ']', '[[en:', ']]', '{{', '}}', '&lt;', '&gt;', '<br>', 'é'],
    'latex': ['a', ' ', '<CONTENTS>', '</CONTENTS>', '<PARAM>', '</PARAM>', '<section/>', '<textbf/>', '<cite/>', '<MATH_DOLLAR>', '</MATH_DOLLAR>', '<COMMENT>', '</COMMENT>', '<item/>', '<em/>', 'é'],
    'xpresstag': ['a', ' ', '<b>', '<*x->', '->', '<', '>', '@n', ':', '=', '[', ']', 'é', '\\'],
}
