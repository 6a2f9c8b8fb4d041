"""P36 LaTeX: what the LaTeX filters do to a document that is not translated changes its notation at most."""
import itertools as it, os, re, subprocess, unicodedata
from core import describe, show

PRE, FIX, RAW, POST, DES, RE_ = 'apertium-prelatex', 'apertium-utils-fixlatex', 'apertium-postlatex-raw', 'apertium-postlatex', 'apertium-deslatex', 'apertium-relatex'

# ---- the meaning of a document: accents and ligatures as characters, everything else as written
COMB = {'`': '\u0300', "'": '\u0301', '^': '\u0302', '"': '\u0308', 'H': '\u030b', '~': '\u0303', 'c': '\u0327', 'k': '\u0328', '=': '\u0304', 'b': '\u0331', '.': '\u0307', 'd': '\u0323', 'r': '\u030a', 'u': '\u0306', 'v': '\u030c'}
LIG = {'oe': 'œ', 'OE': 'Œ', 'ae': 'æ', 'AE': 'Æ', 'aa': 'å', 'AA': 'Å', 'o': 'ø', 'O': 'Ø', 'ss': 'ß', 'l': 'ł'}
VERB = r'\\verb(?:\|[^|]*\||![^!]*!|\?[^?]*\?|/[^/]*/|#[^#]*#|\+[^+]*\+)'
MATH = r'\$\$(?:\\.|[^$]|\$(?!\$))*\$\$|\$(?:\\.|[^$\\])*\$'
ACC = r"\\(?:([`'^\"~=.])\s*(?:\{(\\[ij]|[A-Za-z])\}|\\([ij])|([A-Za-z]))|([HckbdruvH])\{(\\[ij]|[A-Za-z])\})"
TOK = re.compile('(?P<asis>%s|%%[^\n]*|%s)|(?P<acc>%s)|\\{\\\\(?P<lig>oe|OE|ae|AE|aa|AA|o|O|ss|l)\\}|(?P<l>\\\\l(?![A-Za-z]))|(?P<env>\\\\(?:begin|end)\\s*\\{\\s*)|(?P<cmd>\\\\(?:[A-Za-z]+\\*?|[^A-Za-z]))|(?P<q>[?!]`)|(?P<g>"[oOaAuUsS])' % (VERB, MATH, ACC), re.S)


def meaning(s, german=False):
    def f(m):
        if german and m.group('g'):
            return unicodedata.normalize('NFC', 'ß' if m.group('g')[1] in 'sS' else m.group('g')[1] + COMB['"'])
        if m.group('lig'):
            return LIG[m.group('lig')]
        if m.group('l'):
            return 'ł'
        if m.group('q'):
            return {'?`': '¿', '!`': '¡'}[m.group('q')]
        if m.group('env'):
            return re.sub(r'\s', '', m.group('env'))
        if m.group('acc'):
            g = [x for x in m.groups()[2:8]]
            a, c = g[0] or g[4], g[1] or g[2] or g[3] or g[5]
            return unicodedata.normalize('NFC', c[-1] + COMB[a])
        return m.group(0)
    s = unicodedata.normalize('NFC', TOK.sub(f, s))
    while True:
        t = re.sub('{([œŒæÆåÅøØßł])}', r'\1', s)
        if t == s:
            return s
        s = t


TOKENS = ['a', 'Z', '1', ' ', '\n', '.', ',', '-', '--', '---', '(', ')', '*', '@', '/', ':', '|', '_', '`', "'", '``', "''", '"', '""', '<', '>', '=', '&', '~', '#', '#1', '#12', '[', ']', 'é', 'ñ', 'ł', 'œ', 'Å', 'ß', 'č', '\u4e00', '\U0001f600', '¿', '¡', '?`', '!`', '°',
          '{', '}', '{}', '{a}', '[a]', '[a=b,"c" <d>]', '[é&amp;]',
          r'\#', r'\#7', r'\#10', r'\%', r'\&', r'\{', r'\}', r'\_', r'\,', r'\;', r'\/', r'\-', r'\ ', r'\!', r'\@', r'\:', r'\\', r'\\[2pt]', r'\\*', r'\$',
          r'\foo', r'\foo ', r'\foo{}', r'\foo*', r'\foo{a}', r'\foo[x]{a}', r'\section{A}', r'\section*{A b}', r'\textbf{a}', r'\emph{a b}', r'\textit{a}', r'\footnote{a. B}', r'\cite{a_b}', r'\ref{x:1}', r'\label{a}', r'\usepackage[utf8]{inputenc}', r'\documentclass[12pt,a4paper]{article}', r'\item ', r'\item[a<b]',
          r'\bf ', r'\cr ', r'\cc ', r'\rm{a}', r'\b', r'\c', r'\d1', r'\it', r'\be',
          r'\begin{a}', r'\end{a}', r'\begin{align*}', r'\end{align*}', r'\begin{tabular}{l|r}', r'\begin{equation}x<y&z\end{equation}', r'\begin {itemize}', r'\end {itemize}', '\\begin\n{a}', '\\end\t{a*}', r'\begin{a} x', '\\end{a}\r\n', r'\begin{document}', r'\begin{my-env}', r'\end{my-env*}', r'\begin{table}[h]',
          '$a<b$', '$x_{1}^2 \\& "q" é$', '$$\\frac{a}{b} < c$$', r'\(a<b\)', r'\[a>b\]', '$\\$$', '$#$', '$$ [x] % {y} $$',
          '% c\n', '% c\r\n', '% c', '%', '%\r', '%\n', '% a "b" <c> é & {} \\foo $x$ &amp; #1\n', '%<BR/></VERB>\n', r'\verb|a|', r'\verb|<br/> é &amp; \x{} "%$|', '\\verb!a|b!', '\\verb+<MATH_DOLLAR>+', '\\verb/a b/', '\\verb#a#', '\\verb?a?', r'\verb|</COMMENT>|',
          r"\'e", r"\'{e}", r'\`a', r'\^{o}', r'\"u', r'\~n', r'\~{N}', r'\c{c}', r'\c{C}', r"\'\i", r"\'{\i}", r'\^\i', r'\"{\i}', r'\`\i', r'\^\j', r'\^{\j}', r'\"\j', r"\'{\j}", r'\`{\j}', r'\`\j', r"\'{I}", r'\v{s}', r'\H{o}', r'\.z', r'\.{z}', r'\=a', r'\u{g}', r'\k{a}', r'\d{t}', r'\b{d}', r'\r{a}', r"\'c", r'\"{y}', r'\~', r'\^', r"\'", r'\=', r'\"1', r'\^{}', r"\'é", r'\~{}',
          r'{\oe}', r'{\OE}', r'{\ae}', r'{\AE}', r'{\aa}', r'{\AA}', r'{\o}', r'{\O}', r'{\ss}', r'{\l}', r'\l{}', r'\lx', r'{\bf a}', r'{\oe x}', r'{\em é}',
          '&lt;', '&amp;', '&quot;', '&NBSP;', '<b>', '</b>', '<br/>', '<x_STAR>', '\r\n', '\t']
SMALL = ['a', ' ', '\n', '<', '"', '&', '#', '{a}', '[a]', r'\#', r'\%', r'\{', r'\\', r'\foo', r'\foo*', r'\begin{a}', r'\end{a}', '$a<b$', '% c\n', r'\verb|<a>|', r"\'e", r'\v{s}', r'\c', r'{\l}', 'ł', 'é', '\U0001f600', '~', r'\~', "'", '?`', r'\(x\)', r'\cite{a}']


def ok(d):
    """documents every mark of which is closed, and which do not rely on how TeX eats blanks"""
    x = TOK.sub(lambda m: '' if m.group('asis') else m.group(0), d)
    x = x.replace(r'\\', '').replace(r'\$', '')
    # an accent over an accented letter has no notation of its own here
    if re.search(r"\\[`'^\"~=.][`'^\"~=.\\\s]*\\[`'^\"]\{?\\j", d):
        return False
    # nor has a comment that contains the internal mark for its end
    if re.search('%.*</COMMENT>', d):
        return False
    return '$' not in x and not re.search(r'\\verb(?![A-Za-z|!?/#+])', x) and not re.search(r'\\(?:begin|end)\s*(?![{\sA-Za-z*])', x)


def visible(s):
    """what a deformatted document gives to the translator, and None if it is no valid stream"""
    out, i = '', 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            out += s[i:i + 2]
            i += 2
        elif c == '[':
            i += 1
            while i < len(s) and s[i] != ']':
                i += 2 if s[i] == '\\' else 1
            i += 1
            out += ' '
        else:
            out += c
            i += 1
    return out


def run(ctx):
    ctx.rule = ('every sequence of LaTeX constructs up to the bound through the preprocessor and either postprocessor, and through the whole chain of the translation script; '
                'the meaning of the result (accents and ligatures as characters, the rest as written) must be that of the document, and no internal mark may reach the translator')
    ctx.need(PRE, RAW, POST, DES, RE_)
    q = ctx.quick

    def gen(deep=False):
        yield ()
        for n in (1, 2):
            yield from it.product(TOKENS, repeat=n)
        if deep:
            yield from it.product(TOKENS, repeat=3)
        else:
            yield from it.product(SMALL, TOKENS, SMALL)
        if not q:
            yield from it.product(SMALL[:18], repeat=4)

    def docs(blk):
        return [d for d in (''.join(t) for t in blk) if ok(d)]

    def judge(d, r, german=False):
        if r.status:
            return describe(r.status)
        o = r.out.decode('utf8', 'replace')
        a, b = meaning(d, german), meaning(o, german)
        if a != b:
            return '%r came back as %r' % (d, o)
        return None

    def fn(w, blk):
        ds = docs(blk)
        w.states += len(ds)
        w.trans += 3 * len(ds)
        mid = w.many(PRE, [([], d.encode()) for d in ds])
        raw = w.many(RAW, [([], m.out) for m in mid])
        post = w.many(POST, [([], m.out) for m in mid])
        for d, m, r, p in zip(ds, mid, raw, post):
            w.seen(r.out, p.out)
            e = m.status and describe(m.status)
            if e:
                w.fail(PRE, [], d.encode(), m, e)
                continue
            for t, x in ((RAW, r), (POST, p)):
                e = judge(d, x)
                if e:
                    w.fail(t, [], m.out, x, '%s: %s' % (t, e))
                    break
            if w.enough:
                return

    ctx.parallel('documents', lambda: gen(not q), fn, 3000)

    # ---- the quotes of the German package; environments with an underscore
    G = ['a', ' ', '"a', '"A', '"o', '"O', '"u', '"U', '"s', '"S', '"', '"x', '""', '\\"a', r'\verb|"a|', '$"a$', '% "a\n', '{', '}', "\\'e", '"`', "\"'", '[a]']

    def fn3(w, blk):
        ds = [r'\usepackage[%sngerman%s]{babel}' % o + d for o in (('', ''), ('english,', '')) for d in docs(blk)]
        ds += [d.replace('ngerman', 'german') for d in ds[:1]]
        w.states += len(ds)
        w.trans += 3 * len(ds)
        mid = w.many(PRE, [([], d.encode()) for d in ds])
        for t in (RAW, POST):
            for d, m, r in zip(ds, mid, w.many(t, [([], m.out) for m in mid])):
                w.seen(r.out)
                e = m.status and describe(m.status) or judge(d, r, 'ngerman' in d)
                if e:
                    w.fail(t, [], m.out, r, '%s: %s' % (t, e))
                    break
            if w.enough:
                return
    ctx.parallel('German quotes', lambda: it.chain.from_iterable(it.product(G, repeat=n) for n in range(1, ctx.pick(4, 5))), fn3, 500)
    ctx.parallel('names with an underscore', lambda: [(a, b) for a in (r'\begin{a_b}', r'\end{a_b*}', r'\begin{a_}') for b in TOKENS[:40]], fn, 200)

    # ---- every accent over every letter in every notation; every character
    L = [chr(x) for x in range(33, 127) if chr(x).isalpha()] + ['\\i', '\\j']

    def gen5():
        for a in COMB:
            for c in L:
                for n in (['\\%s%s'] if not a.isalpha() else []) + ['\\%s{%s}'] + (['\\%s %s', '\\%s\n{%s}'] if not a.isalpha() else []):
                    x = n % (a, c)
                    for b, e in it.product(['', 'a', '{', ' ', '\\foo'], ['', 'b', '}', ' ', '.', '\n']):
                        if not (c[0] == '\\' and x[-1] != '}' and e == 'b'):
                            yield (b, x, e)
        for k in it.chain(range(0xa0, 0xd800), range(0xe000, 0x11000), range(0x1f000, 0x1f800)):
            yield ('', chr(k), '')
            yield ('a', chr(k), 'b')
    ctx.parallel('accents and characters', gen5, fn, 3000)

    # ---- the whole chain of the script
    fix = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'apertium', 'utils-fixlatex-header.sh')  # the installed script is this one with #!bash in front

    def chain(w, ds):
        """-> [(deformatted, result)]; documents of one run are separated by lines that cannot occur in them"""
        mid = w.many(PRE, [([], d.encode()) for d in ds])
        sep = b'\n@@@\n'
        p = subprocess.run(['bash', fix], input=sep.join(m.out for m in mid), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        w.n += 1
        f = p.stdout.split(sep)
        if p.returncode or len(f) != len(ds):
            if len(ds) == 1:
                return [(None, None, 'apertium-utils-fixlatex: status %d, output %r' % (p.returncode, show(p.stdout)[:300]))]
            return [chain(w, [d])[0] for d in ds]
        des = w.many(DES, [([], x) for x in f])
        res = w.many(RE_, [([], x.out) for x in des])
        res = w.many(RAW, [([], x.out.replace(b'</CONTENTS-noeos>', b'</CONTENTS>')) for x in res])
        return [(x, y, None) for x, y in zip(des, res)]

    def fn2(w, blk):
        ds = docs(blk)
        w.states += len(ds)
        w.trans += 5 * len(ds)
        for d, (x, y, e) in zip(ds, chain(w, ds)):
            if not e:
                e = x.status and describe(x.status) or judge(d, y)
                w.seen(x.out, y.out)
            if not e:
                v = visible(x.out.decode('utf8', 'replace'))
                m = re.search(r'</?[A-Z][A-Z_]+|_STAR|/>', v)
                if m and m.group(0) not in d:
                    e = 'the internal mark %r reaches the translator: %r' % (m.group(0), v)
            if e:
                w.fail(PRE, [], d.encode(), x, 'the chain of the translation script: ' + e)
            if w.enough:
                return
    ctx.parallel('whole chain', gen, fn2, 1500)

    # ---- what the translator gets to see: the words of the text, all of them, and nothing else
    P = [('word', 'word'), ("Bj\\\"ork", 'Björk'), (r"\'etude", 'étude'), (r'gar\c{c}on', 'garçon'), (r'{\oe}uvre', 'œuvre'), (r'a\#b', 'a b'), (r'\$5', '5'), (r'50\%', '50'), (r'a \& b', 'a b'), (r'a & b', 'a b'), ('x~y', 'x y'), (r'\{a\}', 'a'), (r'a\\b', 'a b'), ('a < b > c', 'a b c'),
         (r'\textbf{bold}', 'bold'), (r'\emph{one two}', 'one two'), (r'\section{Title}', 'Title'), (r'\section*{Title x}', 'Title x'), (r'\foo{w}', ''), (r'{\bf fat}', 'fat'), (r'\begin{center}', ''), (r'\end{center}', ''), (r'\begin{a*}', ''), (r'\begin{my-env}', ''), (r'\item', ''), (r'\foo*', ''), (r'\foo', ''),
         ('$m n$', ''), ('$$m n$$', ''), ('$m$$n$', ''), (r'\(m n\)', ''), (r'\[m n\]', ''), (r'\begin{equation}m\end{equation}', ''), (r'\begin{eqnarray*}m & n\end{eqnarray*}', ''), ('% comment here\n', ''), ('%\n', ''), (r'\verb|code here|', ''), ('\\verb+$x %+', ''), (r'\cite{key}', ''), (r'\ref{key}', ''), (r"\v{s}", ''), (r'\=', ''), ('#1', '1'), ('?`que', 'que'), ('"q"', 'q'), ("``q''", 'q'), ('{}', '')]
    P4 = [P[k] for k in (0, 1, 6, 9, 14, 16, 27, 28, 29, 32, 34, 36, 38, 42)]

    def gen4():
        for n in (1, 2):
            yield from it.product(P, repeat=n)
        yield from it.product(P4 if q else P[::2], repeat=3)
        if not q:
            yield from it.product(P4, repeat=4)

    def fn4(w, blk):
        ds = [' '.join(x[0] for x in t) for t in blk]
        w.states += len(ds)
        w.trans += 5 * len(ds)
        for t, d, (x, y, e) in zip(blk, ds, chain(w, ds)):
            if not e and x.status:
                e = describe(x.status)
            if not e:
                v = re.findall(r'\w+', visible(x.out.decode('utf8', 'replace')).replace('\\', ''))
                w.seen(' '.join(v))
                if v != ' '.join(p[1] for p in t).split():
                    e = 'the translator sees %r, expected %r' % (v, ' '.join(p[1] for p in t).split())
            if e:
                w.fail(PRE, [], d.encode(), x, e)
            if w.enough:
                return
    ctx.parallel('text for the translator', gen4, fn4, 400)
