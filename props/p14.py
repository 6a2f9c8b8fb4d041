"""P14 cleanstream / posttransfer against models over all byte strings up to a bound."""
import itertools, re
from core import judge_eq

STREAM = re.compile(r'(?:\\.|\[\[(?:\\.|[^\[\]\\])*\]\](?=\^)|\[(?:\\.|[^\[\]\\])*\]|\^(?:\\.|[^\\^$])*\$|[^\[\]^$\\])', re.S)


def lex(s):
    """well-formed stream -> elements, None otherwise"""
    r, i = [], 0
    while i < len(s):
        m = STREAM.match(s, i)
        if not m:
            return None
        r.append(m.group())
        i = m.end()
    return r


def clean(elems, opts):
    nl, keep = '-n' in opts, '-b' in opts
    ws = '\n' if nl else ' '
    out, text = '', False
    for e in elems:
        if e[0] == '^':
            if text or nl:
                out += ws
            out += e
            text = False
        elif e[0] == '[':
            out += ws + (e if keep else '')
        else:
            text = True
    return out + ('\n' if nl else '')


def post(s):
    return re.sub(' +', ' ', s)


def run(ctx):
    ctx.rule = 'every string over the alphabet up to the bound that is a well-formed stream (cleanstream) / every string (posttransfer), every option set; compared byte for byte'
    ctx.need('apertium-cleanstream', 'apertium-posttransfer')
    OPT = ([], ['-n'], ['-b'], ['-n', '-b'])

    def space(alpha, d):
        def gen():
            for n in range(0, d + 1):
                for t in itertools.product(alpha, repeat=n):
                    yield ''.join(t)
        return gen

    def fc(w, blk):
        ls = [(s, lex(s)) for s in blk]
        ls = [x for x in ls if x[1] is not None]
        for o in OPT:
            cs = [(o, s.encode(), clean(l, o).encode()) for s, l in ls]
            w.states += len(cs)
            w.trans += sum(len(c[1]) for c in cs)
            w.check('apertium-cleanstream', cs, judge_eq)
    ctx.parallel('cleanstream bytes', space('^$\\[]a <', ctx.pick(7, 8)), fc, 2000)
    ctx.parallel('cleanstream tokens', space(['^a$', '^s/a<n>+b<m># c$', '^\\$\\^x$', '^[x]$', '[]', '[[t:b:1]]^x$', '[[t:\\]]]^y<n>$', '[<b>\\] ^a$]', ' ', 'z', '\n', '\\^', '\\[', '\\\\', '😀é'], ctx.pick(4, 5)), fc, 2000)

    def fp(w, blk):
        for o in ([], ['-z']):
            cs = [(o, s.encode(), post(s).encode()) for s in blk if s]
            w.states += len(cs)
            w.trans += sum(len(c[1]) for c in cs)
            w.check('apertium-posttransfer', cs, judge_eq)
    ctx.parallel('posttransfer bytes', space(' a\\[^\0\n\t\u00a0é', ctx.pick(5, 7)), fp, 2000)
    ctx.parallel('posttransfer runs', space([' ', '  ', '   ', 'a', '😀', '\0', '[x]', '~'], ctx.pick(6, 7)), fp, 2000)
