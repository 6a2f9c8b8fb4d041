"""P25: de-formatters write a well-formed stream with exactly the markup in superblanks."""
import glob, itertools as it, os, re
import fmt
from core import describe, show

BIG = re.compile(rb'\[@(/[^\]]+)\]')


def judge(pieces, r):
    if r.status:
        return describe(r.status)
    out, exp = r.out, b''
    files = [m.group(1).decode() for m in BIG.finditer(out)]
    try:
        big = [p for p in pieces if isinstance(p, tuple)]
        if len(files) != len(big):
            return 'large blocks: got %d, expected %d' % (len(files), len(big))
        k = 0
        for p in pieces:
            if isinstance(p, tuple):
                if open(files[k], 'rb').read() != p[1]:
                    return 'large block %d does not hold the markup of the document' % k
                exp += b'[@' + files[k].encode() + b']'
                k += 1
            else:
                exp += p
    finally:
        for f in files:
            if os.path.dirname(f) == '/tmp' and os.path.isfile(f):
                os.unlink(f)
    if out != exp:
        return 'got %r, expected %r' % (show(out)[:600], show(exp)[:600])
    if not fmt.well_formed(out):
        return 'not a well-formed stream: %r' % show(out)[:600]
    return None


def spaces(ctx, f, deep, full):
    """documents of format f: all sequences over the whole alphabet, and longer ones over its core"""
    a = [x.encode() for x in fmt.COMMON + fmt.SPECIAL[f]]
    c = [x.encode() for x in fmt.CORE[f]]
    for n in range(0, full + 1):
        yield from it.product(a, repeat=n)
    for n in range(full + 1, deep + 1):
        yield from it.product(c, repeat=n)


def reference_docs():
    """every character reference a format declares, and every one like it, alone and between text, markup and each other"""
    for f in fmt.F:
        ent = fmt.F[f]['entities']
        if not ent:
            continue
        known = [k for _, m in ent for k in m]
        like = set()
        if f == 'rtf':
            like.update("\\'%02x" % i for i in range(256))
            like.update("\\'%02X" % i for i in range(256))
            like.update('\\u%d' % i for i in range(200, 260))
        else:
            for i in range(1024):
                like.update(('&#%d;' % i, '&#x%x;' % i, '&#x%X;' % i, '&#%04d;' % i))
            import html.entities
            for n in html.entities.name2codepoint:
                like.update(('&%s;' % n, '&%s;' % n.upper(), '&%s;' % n.lower(), '&%s' % n))
        tag = next(t for t in fmt.CORE[f] if t[0] == '<' and len(t) > 1 or t == '\\par')
        for r in known + sorted(like - set(known)):
            for t in (r, 'a' + r + 'b', r + ' ' + r, tag + r + tag):
                yield f, (), t.encode()
        for r in known:
            for t in known[:40:7]:
                yield f, (), (r + t).encode()
                yield f, ('-i',), (t + r + tag).encode()


WRAP = {'txt': None, 'rtf': ('{\\pict', '}'), 'xpresstag': ('<', '>')}


def big_docs():
    """blanks of lengths around the limit, in characters of one and two code units"""
    for f in fmt.F:
        for o in ((), ('-i',), ('-n',)):
            for unit in (' ', '\u00e9', '\U0001f600'):
                for n in (8190, 8191, 8192, 8193, 8194, 20000):
                    wr = WRAP.get(f, ('<!--', '-->'))
                    units = 2 if unit == '\U0001f600' else 1
                    if wr is None:
                        body = ' ' * n
                    else:
                        k = n - len(wr[0]) - len(wr[1])
                        body = wr[0] + unit * (k // units) + '-' * (k % units) + wr[1] if unit != ' ' else wr[0] + ' x' * (k // 2) + 'y' * (k % 2) + wr[1]
                    yield f, o, ('a' + body + 'b' + body + '@').encode()


def run(ctx):
    ctx.rule = ('every token sequence over the whole alphabet of a format up to one bound and over its core up to a larger one, for every option set; output compared byte for byte with a longest-match scanner over the declared format and checked for well-formedness')
    tools = {f: fmt.TOOLS[f][0] for f in fmt.F}
    ctx.need(*tools.values())
    q = ctx.quick

    def suite(f, deep, full):
        m = fmt.get(f)

        def fn(w, blk):
            for o in {o for o, t in blk}:
                cases = []
                for p, t in blk:
                    if p != o:
                        continue
                    d = b''.join(t)
                    cases.append((list(o), d, m.deformat(d, o)))
                    w.states += 1
                    w.trans += len(t)
                w.check(tools[f], cases, judge)
                if w.enough:
                    return

        def gen():
            for t in spaces(ctx, f, deep, full):
                yield (), t
            for o in (('-n',), ('-i',), ('-o',), ('-i', '-n'), ('-n', '-o')):
                if o == ('-n', '-o') and 'html' not in f:
                    continue
                for t in spaces(ctx, f, ctx.pick(3, 4), 2):
                    yield o, t
        ctx.parallel(f, gen, fn, 500)
    for f in fmt.F:
        suite(f, *ctx.pick((4, 2), (5, 3)))

    def fn(w, blk):
        for f, o, d in blk:
            m = fmt.get(f)
            r = w.run1(tools[f], list(o), d)
            w.states += 1
            w.trans += 5
            w.seen(r.out)
            e = judge(m.deformat(d, o), r)
            if e:
                w.fail(tools[f], list(o), d, r, e)
            if w.enough:
                return
    ctx.parallel('large blocks', big_docs, fn, 4)

    def fn(w, blk):
        for f in {f for f, o, d in blk}:
            cases = [(list(o), d, fmt.get(f).deformat(d, o)) for g, o, d in blk if g == f]
            w.states += len(cases)
            w.trans += 3 * len(cases)
            w.check(tools[f], cases, judge)
            if w.enough:
                return
    ctx.parallel('character references', reference_docs, fn, 300)
