"""P15: mode files run the declared pipelines, debug modes their prefixes."""
import itertools as it, os, re, shutil
import modes as M
from core import describe, show


def collapse(t):
    """a trace option given twice is the same as given once"""
    return re.sub(r' (-[trd])(?: \1)+(?= |$|\n)', r' \1', t)


def tree(d):
    res = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            res[os.path.relpath(p, d)] = open(p, encoding='utf8', errors='backslashreplace').read()
    return res


def one(w, ms, argv=('modes.xml',), xmlpath='modes.xml', outdir='modes', filedir='', inst=False, order=0, msg=None):
    d = w.tmp                 # the tool's current directory
    for f in os.listdir(d):
        p = d + '/' + f
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.makedirs(os.path.dirname('%s/%s' % (d, xmlpath)), exist_ok=True)
    open('%s/%s' % (d, xmlpath), 'w', encoding='utf8').write(M.xml(ms, order))
    argv = [a.replace('$D', d) for a in argv]
    os.makedirs(d + '/inst', exist_ok=True)
    r = w.run1('apertium-gen-modes', argv)
    got = tree(d)
    got.pop(xmlpath)
    exp = {}
    fd = os.path.join(d, filedir.replace('$D', d)) if filedir else d
    for n, (i, st) in M.expand(ms).items():
        if i or not inst:
            exp[os.path.join(outdir, n + '.mode')] = M.line(st, fd)
    w.states += sum(len(x[3]) for x in ms)
    w.trans += len(exp)
    w.seen(*[x + y for x, y in got.items()])
    e = None
    norm = lambda t: collapse(re.sub(r"/(?:\./)+", '/', t))
    if r.status:
        e = describe(r.status)
    elif set(got) != set(exp):
        e = 'files missing: %s, extra: %s' % (sorted(set(exp) - set(got)), sorted(set(got) - set(exp)))
    else:
        for k in exp:
            if norm(got[k]) != norm(exp[k]):
                e = '%s: got %r, expected %r' % (k, got[k], exp[k])
                break
    if e:
        w.fail('apertium-gen-modes', argv, M.xml(ms, order).encode(), r, e)
    if len(w.samples) < 1:
        w.samples.append(dict(modes=[(m[0], m[1], m[2], [s[0] for s in m[3]]) for m in ms][:3]))


def run(ctx):
    ctx.rule = ('every pipeline up to the bound over all kinds of programs and arguments, every pair (thorough: triple) of modes over clashing names, flags and suffixes, every way of naming input and output directories; the set of files written and their contents compared with a direct expansion of the declaration')
    ctx.need('apertium-gen-modes')

    # all pipelines, many modes per file
    def gen():
        for c in M.CMDS:
            for a in M.ARGS:
                yield [(c, None, a)]
        for k, (c, d) in enumerate(it.product(M.CMDS, repeat=2)):
            for a in ctx.pick([1, 3], range(len(M.ARGS))):
                yield [(c, None, M.ARGS[a]), (d, None, M.ARGS[(a + k) % len(M.ARGS)])]
        n = ctx.pick(15, 26)
        for k, cs in enumerate(it.product(M.CMDS[::3] if ctx.quick else M.CMDS[::2], repeat=3)):
            yield [(c, None, M.ARGS[(k + j) % len(M.ARGS)]) for j, c in enumerate(cs)]
        for s in it.product([None, 'x', 'tagger', 'morph', 'é-y'], repeat=2):
            for c in it.product(M.CMDS[::4], repeat=2):
                yield [(c[0], s[0], M.ARGS[1]), (c[1], s[1], [])]

    def fn(w, blk):
        one(w, [('k%d' % i, None, 'yes', st) for i, st in enumerate(blk)])
    ctx.parallel('pipelines', gen, fn, 40)

    # clashes of names and flags
    names = ['m', 'm-tagger', 'm-morph', '@m-morph', 'm-tagger-tagger', 'é']
    pipes = [[('lt-proc', None, M.ARGS[1])],
             [('lt-proc -w', None, M.ARGS[1]), ('apertium-tagger -g', None, M.ARGS[2])],
             [('cg-proc', 'morph', M.ARGS[1]), ('cg-proc', 'tagger', []), ('lt-proc $1', 'tagger', M.ARGS[4])],
             [('apertium-tagger', None, []), ('apertium-tagger', None, [])]]
    flags = list(it.product([None, 'yes', 'no'], ['yes', 'no'])) if ctx.quick else list(it.product([None, 'yes', 'no'], [None, 'yes', 'no']))

    def gen2():
        one_ = [(n, i, g, p) for n in names for i, g in flags for p in pipes]
        for a in one_:
            yield [a]
        for a, b in it.product(one_, repeat=2):
            if a[0] != b[0]:
                yield [a, b]
        if not ctx.quick:
            red = [(n, 'yes', g, p) for n in names for g in ('yes', None) for p in pipes[1:]]
            for t in it.product(red, repeat=3):
                if len({x[0] for x in t}) == 3:
                    yield list(t)

    def fn2(w, blk):
        for ms in blk:
            one(w, ms, order=len(ms) % 2)
            if w.enough:
                return
    ctx.parallel('clashes', gen2, fn2, 50)

    # directories
    ms = [('m', 'yes', 'yes', pipes[1]), ('n', None, 'yes', pipes[0]), ('o', 'no', None, pipes[2]), ('p', 'yes', None, pipes[3])]

    def gen3():
        for x in ('modes.xml', 'sub/modes.xml', 'sub/é/other.xml'):
            sub = os.path.dirname(x)
            for p in (x, './' + x, '$D/' + x):
                for v in ([], ['-v'], ['--verbose']):
                    yield dict(argv=v + [p], xmlpath=x, outdir=sub + '/modes' if sub else 'modes', filedir=sub)
                    for t in ('inst', '$D/inst', './inst', '/nonexistent/é x', 'no such'):
                        for f in (['-f'], ['--full']):
                            yield dict(argv=v + f + [p, t], xmlpath=x, outdir=sub, filedir=t, inst=True)
                            yield dict(argv=v + [p, t] + f, xmlpath=x, outdir=sub, filedir=t, inst=True)
                            for l in ('-l', '--local'):
                                yield dict(argv=v + f + [l] + [p, t], xmlpath=x, outdir='', filedir=t, inst=True)

    def fn3(w, blk):
        for k in blk:
            one(w, ms, **k)
            if w.enough:
                return
    ctx.parallel('directories', gen3, fn3, 20)
