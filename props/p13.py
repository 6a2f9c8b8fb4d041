"""P13 word-bound blank attach / detach against a span-stack model."""
import itertools, re
from core import judge_eq

SPLIT = re.compile(r'((?:\\.|[^;\\])*)(?:;|$)')


def marks(body):
    out = []
    for p in body.split(';'):
        p = p.strip('; ')
        if p:
            out.append(p)
    return out


def attach(toks):
    out, stack = [], []
    for t in toks:
        if t == '[[/]]':
            if not stack:
                return None      # not a well-formed document
            stack.pop()
        elif t.startswith('[['):
            have = [m for s in stack for m in s]
            new = []
            for m in marks(t[2:-2]):
                if m not in have and m not in new:
                    new.append(m)
            stack.append(new)
        elif t.startswith('^'):
            ms = [m for s in stack for m in s]
            out.append(('[[' + '; '.join(ms) + ']]' if ms else '') + t)
        else:
            if t == '\0':
                stack = []
            out.append(t)
    return ''.join(out)


def detach(toks):
    out, wb = [], False
    for t in toks:
        out.append(t)
        if t.startswith('[['):
            wb = True
        elif t.startswith('^'):
            if wb:
                out.append('[[/]]')
            wb = False
        elif wb:
            return None          # a word-bound blank must precede its word
    return None if wb else ''.join(out)


def run(ctx):
    ctx.rule = 'every token sequence up to the bound with balanced closing marks; compared byte for byte with a stack model'
    ctx.need('apertium-wblank-attach', 'apertium-wblank-detach')
    OTHER = ['^a$', '^b<n>/[c\\$\\^$', ' ', 'z\n', '\\[', '\\^', '[]', '[<p>\\[\\]^x$]', '\0', '\\\\']
    A = ['[[t:b:1]]', '[[t:i:2; t:b:1]]', '[[t:\\]:3;t:x]]', '[[ t:i:2 ;; ]]', '[[/]]', '[[]]'] + OTHER
    D = ['[[t:b:1]]', '[[t:\\]:3; t:x]]'] + OTHER

    def space(alpha, d):
        def gen():
            for n in range(0, d + 1):
                yield from itertools.product(alpha, repeat=n)
        return gen

    def mk(tool, model):
        def f(w, blk):
            for o in ([], ['-z']):
                cs = []
                for t in blk:
                    if o and '\0' not in t:
                        continue
                    e = model(t)
                    if e is not None:
                        cs.append((o, ''.join(t).encode(), e.encode()))
                w.states += len(cs)
                w.trans += sum(len(c[1]) for c in cs)
                w.check(tool, cs, judge_eq)
        return f
    ctx.parallel('attach', space(A, ctx.pick(5, 6)), mk('apertium-wblank-attach', attach), 1000)
    # deep nesting: only marks and words
    ctx.parallel('attach nesting', space(['[[t:b:1]]', '[[t:i:2]]', '[[/]]', '^a$', ' '], ctx.pick(8, 9)), mk('apertium-wblank-attach', attach), 1000)
    ctx.parallel('detach', space(D, ctx.pick(5, 6)), mk('apertium-wblank-detach', detach), 1000)
    # the two together: attach then detach encloses every word by its own span
