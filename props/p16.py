"""P16: rewriting a mode only inserts the blank handlers and flush options."""
import itertools as it, os
from core import judge_eq, describe, show

# (program, arguments) of a step; %z = place where a given -z stands
STEPS = [('lt-proc', "'/d/a.automorf.bin'"), ('lt-proc', "-w -e '/d/a b.automorf.bin'"), ('lt-proc', "-z '/d/x.automorf.bin'"), ('hfst-proc', "-w '/d/x.automorf.hfst'"), ('hfst-proc', "'/d/x.automorf.hfst' -z"),
         ('lt-proc', "$1 '/d/a.autogen.bin'"), ('lt-proc', "$1 -z '/d/a.autogen.bin'"), ('hfst-proc', "$1 '/d/x.autogen.hfst'"),
         ('apertium-tagger', "-g $2 '/d/a.prob'"), ('apertium-pretransfer', ''), ('apertium-pretransfer', '-z'), ('lt-proc', "-b '/d/a.autobil.bin'"), ('lt-proc', "-z -b '/d/a.autobil.bin'"),
         ('apertium-transfer', "'/d/a.t1x' '/d/t1x.bin' '/d/a.autobil.bin'"), ('apertium-transfer', "  '/d/a b.t1x'   '/d/t1x.bin'\t'/d/a.autobil.bin'"), ('apertium-transfer', "-b '/d/a.t1x' '/d/t1x.bin'"), ('apertium-transfer', "-n '/d/a.t4x' '/d/t4x.bin'"),
         ('apertium-transfer', "'/d/a.t1x' '/d/t1x.bin' '/d/other.bin'"), ('apertium-interchunk', "'/d/a.t2x' '/d/t2x.bin'"),
         ('apertium-wblank-attach', ''), ('apertium-wblank-detach', '-z'), ('apertium-extract-caps', ''), ('apertium-restore-caps', "'/d/a.crx.bin'"), ('apertium-restore-caps', "-z '/d/a.crx.bin'"), ('cg-proc', "'/d/z-z.bin'"), ('lsx-proc', "'/d/\u00e9.bin'"), ('lt-proc', "-p '/d/a.autopgen.bin'")]


def words(s):
    """a step as shell words, quotes kept"""
    out, cur, q = [], '', False
    for c in s:
        if c == "'":
            q = not q
        if c in ' \t\r\n' and not q:
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += c
    return out + ([cur] if cur else [])


def model(steps, z):
    """steps: list of word lists -> list of word lists"""
    helpers = any(s[0].startswith('apertium-wblank-') for s in steps)
    caps = any(s[0] == 'apertium-restore-caps' for s in steps)
    newstyle = any(s[:2] == ['lt-proc', '-b'] for s in steps)
    r = []
    for s in steps:
        if s[0] == 'apertium-transfer' and len(s) == 4 and s[1][0] == "'" and s[3].endswith("autobil.bin'") and not newstyle:
            parts = [['lt-proc', '-b', s[3]], ['apertium-transfer', '-b', s[1], s[2]]]
        else:
            parts = [s]
        for p in parts:
            if z and '-z' not in p:
                p = [p[0], '-z'] + p[1:]
            t = ' '.join(p)
            if not helpers and any(x in t for x in ('automorf.bin', 'automorf.hfst')):
                r += [p, ['apertium-wblank-attach']]
            elif not helpers and not caps and any(x in t for x in ('autogen.bin', 'autogen.hfst')):
                r += [['apertium-wblank-detach'], p]
            else:
                r.append(p)
    return r


def parse(t):
    return [words(x) for x in t.strip().split('|')]


def judge(exp, r):
    if r.status:
        return describe(r.status)
    o = r.out.decode('utf8', 'replace')
    if not o.endswith('\n') or '\n' in o[:-1]:
        return 'not one line: %r' % o
    g = parse(o)
    if g != exp:
        return 'got %r, expected %r' % (o, ' | '.join(' '.join(s) for s in exp))
    return None


def run(ctx):
    ctx.rule = ('every pipeline up to the bound over every kind of step, with and without -z, in several spacings, from a file and from standard input; compared word by word with a direct insertion model, and rewritten again')
    ctx.need('apertium-wblank-mode')
    FORMS = [(' | ', '\n', '', ''), ('|', '', ' ', ''), (' |\n', '\n', '', ' \n'), ('  |  ', ' \n\n', '\t', '')]

    def gen():
        idx = range(len(STEPS))
        for n in (1, 2):
            for t in it.product(idx, repeat=n):
                for f in range(len(FORMS)):
                    yield t, f
        red = list(idx)[::2] if ctx.quick else list(idx)
        for k, t in enumerate(it.product(red, repeat=3)):
            yield t, k % len(FORMS)
        red = [0, 5, 7, 9, 13, 19, 22] if ctx.quick else [0, 2, 3, 5, 7, 9, 11, 13, 14, 19, 21, 22, 24]
        for k, t in enumerate(it.product(red, repeat=4)):
            yield t, k % len(FORMS)

    def text(t, f):
        sep, end, lead, pre = FORMS[f]
        return pre + sep.join(lead + (STEPS[k][0] + ' ' + STEPS[k][1]).rstrip() for k in t) + end

    def fn(w, blk):
        for argv in ([], ['-z']):
            cases, again = [], []
            for t, f in blk:
                s = text(t, f)
                e = model(parse(s), bool(argv))
                cases.append((argv, s.encode(), e))
                # rewriting the result adds nothing but -z for the inserted handlers
                e2 = [p if not argv or '-z' in p else p[:1] + ['-z'] + p[1:] for p in e]
                again.append((argv, (' | '.join(' '.join(p) for p in e) + '\n').encode(), e2))
                w.states += 2
                w.trans += len(t) * 2
            w.check('apertium-wblank-mode', cases, judge)
            w.check('apertium-wblank-mode', again, judge)
            if w.enough:
                return
    ctx.parallel('pipelines', gen, fn, 300)

    # named file, with every form
    def fn2(w, blk):
        p = w.tmp + '/x.mode'
        for t, f in blk:
            s = text(t, f)
            open(p, 'w', encoding='utf8').write(s)
            for argv in (['-z', p], [p]):
                w.states += 1
                w.trans += len(t)
                w.check('apertium-wblank-mode', [(argv, b'lt-proc ignored', model(parse(s), len(argv) > 1))], judge)
            if w.enough:
                return

    def gen2():
        for t in it.product(range(len(STEPS)), repeat=2):
            yield t, sum(t) % len(FORMS)
    ctx.parallel('mode files', gen2, fn2, 50)
