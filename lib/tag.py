"""Tagger machinery: tag-set specifications, model files (reader / writer),
training by the real command line, and the pieces of the reference models."""
import itertools, os, struct

PRE = ['LPAR', 'RPAR', 'LQUEST', 'CM', 'SENT', 'kEOF', 'kUNDEF']
CONST = ['kMOT', 'kDOLLAR', 'kBARRA', 'kMAS', 'kIGNORAR', 'kBEGIN', 'kUNKNOWN']
EOF_, UNDEF, SENT = 5, 6, 4


class Tsx:
    """labels: list of (name, closed, [(lemma|None, tags)]) ; mults: (name, closed, [[('label',x)|('tags',lemma,tags)]])"""

    def __init__(self, labels, mults=(), forbid=(), enforce=(), prefer=(), discard=()):
        self.labels, self.mults = list(labels), list(mults)
        self.forbid, self.enforce, self.prefer, self.discard = list(forbid), list(enforce), list(prefer), list(discard)
        self.names = PRE + [l[0] for l in self.labels] + [m[0] for m in self.mults]
        self.idx = {n: i for i, n in enumerate(self.names)}
        self.N = len(self.names)
        self.open = {self.idx[l[0]] for l in self.labels + self.mults if not l[1]}

    def xml(self):
        def ti(l, t):
            return '<tags-item %stags="%s"/>' % ('lemma="%s" ' % l if l is not None else '', t)
        s = '<?xml version="1.0" encoding="UTF-8"?>\n<tagger name="x">\n<tagset>\n'
        for n, c, its in self.labels:
            s += '<def-label name="%s"%s>%s</def-label>\n' % (n, ' closed="true"' if c else '', ''.join(ti(l, t) for l, t in its))
        for n, c, seqs in self.mults:
            s += '<def-mult name="%s"%s>' % (n, ' closed="true"' if c else '')
            for q in seqs:
                s += '<sequence>' + ''.join('<label-item label="%s"/>' % e[1] if e[0] == 'label' else ti(e[1], e[2]) for e in q) + '</sequence>'
            s += '</def-mult>\n'
        s += '</tagset>\n'
        if self.forbid:
            s += '<forbid>' + ''.join('<label-sequence><label-item label="%s"/><label-item label="%s"/></label-sequence>' % f for f in self.forbid) + '</forbid>\n'
        if self.enforce:
            s += '<enforce-rules>' + ''.join('<enforce-after label="%s"><label-set>%s</label-set></enforce-after>' % (
                a, ''.join('<label-item label="%s"/>' % b for b in bs)) for a, bs in self.enforce) + '</enforce-rules>\n'
        if self.prefer:
            s += '<preferences>' + ''.join('<prefer tags="%s"/>' % t for t in self.prefer) + '</preferences>\n'
        if self.discard:
            s += '<discard-on-ambiguity>' + ''.join('<discard tags="%s"/>' % t for t in self.discard) + '</discard-on-ambiguity>\n'
        return s + '</tagger>\n'


# ---- lttoolbox multibyte integers
def mb(v):
    if v < 0x40:
        return bytes([v])
    if v < 0x4000:
        return bytes([(v >> 8) | 0x40, v & 255])
    if v < 0x400000:
        return bytes([(v >> 16) | 0x80, (v >> 8) & 255, v & 255])
    return bytes([(v >> 24) | 0xc0, (v >> 16) & 255, (v >> 8) & 255, v & 255])


class Rd:
    def __init__(self, b):
        self.b, self.i = b, 0

    def mb(self):
        c = self.b[self.i]
        n = c >> 6
        v = c & 0x3f
        for k in range(n):
            v = v << 8 | self.b[self.i + 1 + k]
        self.i += n + 1
        return v

    def s(self):
        return ''.join(chr(self.mb()) for _ in range(self.mb()))

    def d(self):
        v = struct.unpack('>d', self.b[self.i:self.i + 8])[0]
        self.i += 8
        return v


class Prob:
    """HMM / LSW model file; `rest` (pattern list, discard rules) is kept as bytes"""

    def __init__(self, data, lsw=False):
        r = Rd(data)
        self.lsw = lsw
        v, self.open = 0, []
        for _ in range(r.mb()):
            v += r.mb()
            self.open.append(v)
        self.forbid = [(r.mb(), r.mb()) for _ in range(r.mb())]
        self.array = [r.s() for _ in range(r.mb())]
        self.index = [(r.s(), r.mb()) for _ in range(r.mb())]
        self.enforce = [(r.mb(), [r.mb() for _ in range(r.mb())]) for _ in range(r.mb())]
        self.prefer = [r.s() for _ in range(r.mb())]
        self.const = [(r.s(), r.mb()) for _ in range(r.mb())]
        self.classes = [frozenset(r.mb() for _ in range(r.mb())) for _ in range(r.mb())]
        self.head = data[:r.i]
        self.N = r.mb()
        if lsw:
            self.D = {}
            for _ in range(r.mb()):
                k = (r.mb(), r.mb(), r.mb())
                self.D[k] = r.d()
        else:
            self.M = r.mb()
            self.A = [[r.d() for _ in range(self.N)] for _ in range(self.N)]
            self.B = {}
            for _ in range(r.mb()):
                k = (r.mb(), r.mb())
                self.B[k] = r.d()
        self.rest = data[r.i:]
        self.k = {c: i for i, c in enumerate(self.classes)}

    def dump(self):
        o = bytearray(self.head + mb(self.N))
        if self.lsw:
            d = {k: v for k, v in self.D.items() if v}
            o += mb(len(d))
            for k in sorted(d):
                o += b''.join(mb(x) for x in k) + struct.pack('>d', d[k])
        else:
            o += mb(self.M)
            for row in self.A:
                o += struct.pack('>%dd' % self.N, *row)
            o += mb(len(self.B))
            for k in sorted(self.B):
                o += mb(k[0]) + mb(k[1]) + struct.pack('>d', self.B[k])
        return bytes(o) + self.rest

    def emission_classes(self, tags):
        """classes whose emission probabilities stand for an ambiguity class not
        seen in training: the smallest known classes that contain it, if smaller
        than the open class; otherwise the open class"""
        tags = frozenset(tags)
        if tags in self.k:
            return [tags]
        op = frozenset(self.open)
        c = [x for x in self.classes if tags <= x and len(x) < len(op)]
        if not c:
            return [op]
        m = min(len(x) for x in c)
        return [x for x in c if len(x) == m]


class W:
    """a word of the reference stream: surface, [(analysis, tag index)] (empty: unknown)"""

    def __init__(self, sf, ans, amb=None):
        self.sf, self.ans = sf, ans
        self.text = '^%s/%s$' % (sf, '/'.join(a for a, t in ans) if ans else '*' + sf)
        self.tags = {}
        for a, t in ans:
            self.tags.setdefault(t, a)

    def out(self, t, opts=()):
        sf = self.sf + '/' if '-p' in opts else ''
        if not self.ans:
            if '-f' in opts:
                return '^%s/*%s$' % (self.sf, self.sf)
            return '^%s*%s$' % (sf, self.sf)
        m = '=' if '-m' in opts and len(self.tags) > 1 else ''
        if '-f' in opts:
            return '^%s%s/%s$' % (m, self.sf, '/'.join([self.tags[t]] + [a for u, a in sorted(self.tags.items()) if u != t]))
        return '^%s%s%s$' % (m, sf, self.tags[t])


def write(path, s):
    with open(path, 'w' if isinstance(s, str) else 'wb') as f:
        f.write(s)
    return path
