"""P24: de-formatting and re-formatting again gives the document back."""
import glob, os
import fmt
from core import describe, show
from p25 import spaces, BIG, big_docs, reference_docs

OPTS = [(), ('-i',), ('-n',), ('-i', '-n')]


def drop(out):
    for m in BIG.finditer(out):
        f = m.group(1).decode()
        if os.path.dirname(f) == '/tmp' and os.path.isfile(f):
            os.unlink(f)


def run(ctx):
    ctx.rule = ('every token sequence over the whole alphabet of a format up to one bound and over its core up to a larger one is de-formatted and re-formatted by the real tools; the result must be the document, up to the spelling of character references')
    ctx.need(*[t for p in fmt.TOOLS.values() for t in p])

    def judge(w, m, o, d, r):
        if r.status:
            return describe(r.status)
        if r.out != d and not m.reformat_alternatives(d).fullmatch(r.out):
            if '-n' in o and m.reformat_alternatives(d, o).fullmatch(r.out) and w.known_finding('period-before-mark'):
                return None
            return 'document %r comes back as %r' % (show(d)[:600], show(r.out)[:600])
        return None

    def one(w, f, o, d):
        m = fmt.get(f)
        a = w.run1(fmt.TOOLS[f][0], list(o), d)
        if a.status:
            drop(a.out)
            w.fail(fmt.TOOLS[f][0], list(o), d, a, describe(a.status))
            return
        b = w.run1(fmt.TOOLS[f][1], [], a.out)
        e = judge(w, m, o, d, b)
        left = [x.group(1) for x in BIG.finditer(a.out) if os.path.exists(x.group(1))]
        if not e and left:
            e = 're-formatter leaves %d block files behind' % len(left)
        drop(a.out)
        w.seen(b.out)
        if e:
            w.fail(fmt.TOOLS[f][1], list(o), d, b, e + '; de-formatted %r' % show(a.out)[:600])

    def suite(f, deep, full):
        m = fmt.get(f)

        def fn(w, blk):
            for o in {o for o, t in blk}:
                docs = [b''.join(t) for p, t in blk if p == o]
                a = w.many(fmt.TOOLS[f][0], [(list(o), d) for d in docs])
                b = w.many(fmt.TOOLS[f][1], [([], x.out) for x in a])
                for d, x, y in zip(docs, a, b):
                    w.seen(x.out)
                    w.states += 2
                    w.trans += 2
                    if x.status or judge(w, m, o, d, y):
                        one(w, f, o, d)
                if len(w.samples) < 1 and docs:
                    w.samples.append(dict(format=f, options=list(o), document=show(docs[-1])))
                if w.enough:
                    return

        def gen():
            for o in OPTS:
                for t in spaces(ctx, f, deep if o == () else ctx.pick(3, 4), full if o == () else 2):
                    yield o, t
        ctx.parallel(f, gen, fn, 500)
    for f in fmt.F:
        suite(f, *ctx.pick((4, 2), (5, 3)))

    def fn(w, blk):
        for f, o, d in blk:
            w.states += 2
            w.trans += 2
            one(w, f, o, d)
            if w.enough:
                return
    ctx.parallel('large blocks', big_docs, fn, 4)

    def fn(w, blk):
        for f in {f for f, o, d in blk}:
            docs = [(o, d) for g, o, d in blk if g == f]
            a = w.many(fmt.TOOLS[f][0], [(list(o), d) for o, d in docs])
            b = w.many(fmt.TOOLS[f][1], [([], x.out) for x in a])
            for (o, d), x, y in zip(docs, a, b):
                w.seen(x.out)
                w.states += 2
                w.trans += 2
                if x.status or judge(w, fmt.get(f), o, d, y):
                    one(w, f, o, d)
            if w.enough:
                return
    ctx.parallel('character references', reference_docs, fn, 500)
