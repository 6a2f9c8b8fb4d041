"""P01 pretransfer: reference model = structural rewriting of parsed units."""
import itertools, re

TOK = re.compile(rb'\\.|<[^>]*>|.', re.S)


def unit_parts(inner):
    return [t.decode() for t in re.findall(TOK, inner)] if isinstance(inner, bytes) else re.findall(r'\\.|<[^>]*>|.', inner, re.S)


def model_unit(inner, wb, compound):
    """inner text of one unit -> replacement for the whole unit (wb before it)"""
    toks = unit_parts(inner)
    i = 0
    while i < len(toks) and not toks[i].startswith('<'):
        i += 1
    head, rest = toks[:i], toks[i:]
    queue, out, inq = [], [], False
    for t in rest:
        if t == '+':
            inq = False
            out.append('$ ' + wb + '^')
        elif t == '#' or inq:
            inq = True
            queue.append(t)
        elif t == '~' and compound:
            out.append('$' + wb + '^')
        else:
            out.append(t)
    return wb + '^' + ''.join(head) + ''.join(queue) + ''.join(out) + '$'


def strip_surface(inner):
    toks = unit_parts(inner)
    return ''.join(toks[toks.index('/') + 1:])


def model_elem(e, opts):
    kind, a, b = e
    if kind == 'u':
        if '-n' in opts:
            a = strip_surface(a)
        return model_unit(a, b, '-e' in opts)
    return a


def run(ctx):
    ctx.rule = 'every token sequence up to the bound, for every option set; each is a node of the sequence tree and is run on apertium-pretransfer and compared byte for byte with the model'
    ctx.need('apertium-pretransfer')
    # --- one unit, every well-formed inner structure
    TK = [('a', 'L'), ('<n>', 'T'), ('<m+#~>', 'T'), ('+', 'J'), ('#', 'Q'), ('~', 'C'), ('\\+', 'L'), ('\\$', 'L'), (' ', 'L'), ('\\<', 'L'), ('😀', 'L')]
    wf = re.compile(r'L*T+(J?[JC]?L+T+)*(Q[L]+(J[LC]+T+)*)?$|L*T+[JCL]+T*(QL*)?$|L[LJCQ]*T*$')
    depth = ctx.pick(5, 6)

    def gen():
        for d in range(0, depth + 1):
            for t in itertools.product(TK, repeat=d):
                if wf.match('L' + ''.join(x[1] for x in t)):
                    yield 'a' + ''.join(x[0] for x in t)
    opts = [[], ['-e'], ['-n'], ['-e', '-z'], ['-n', '-e']]
    WBS = (('', ''), ('s\\/x/', '[[t:b:1]]'), ('', '[[t:i:\\]]]'))

    def fn(w, blk):
        from core import judge_eq
        for o in opts:
            for pre, wb in WBS:
                if '-n' in o and not pre:
                    continue
                cs = []
                for u in blk:
                    if wb and not ('#' in u or '+' in u or '~' in u):
                        continue
                    e = ('u', pre + u, wb)
                    cs.append((o, (wb + '^' + pre + u + '$').encode(), model_elem(e, o).encode()))
                w.states += len(cs)
                w.trans += sum(len(c[1]) for c in cs)
                w.check('apertium-pretransfer', cs, judge_eq)
    ctx.parallel('unit structures', gen, fn, 500)

    # --- longer units over fewer kinds of piece
    TK2 = [('b', 'L'), ('<n>', 'T'), ('+', 'J'), ('#', 'Q'), ('~', 'C')]
    depth2 = ctx.pick(8, 9)

    def gen3():
        for d in range(depth + 1, depth2 + 1):
            for t in itertools.product(TK2, repeat=d):
                if wf.match('L' + ''.join(x[1] for x in t)):
                    yield 'a' + ''.join(x[0] for x in t)
    ctx.parallel('long units', gen3, fn, 500)

    # --- streams of units and blanks
    E = [('u', 'a<n>', ''), ('u', 'a<n>+b<m># c', ''), ('u', 's\\/t/a<v>~b<m># c d+e<n>', ''), ('u', 'x/*y', '[[t:b:1; t:\\]i]]'), ('u', 'x/a<n>+b<m># c', '[[t:i:2]]'), ('u', 'a<n># q+b<v>~c<m>', '[[t:i:3]]'),
         ('b', ' ', ''), ('b', 'z', ''), ('b', '\\^', ''), ('b', '\\[', ''), ('b', '[<b>\\]^a<n>+b<m>$]', ''), ('b', '[]', ''), ('b', '\n', ''), ('b', '\0', ''), ('b', '😀+#~', ''), ('b', '\\\\', '')]
    sd = ctx.pick(4, 5)

    def gen2():
        for d in range(0, sd + 1):
            yield from itertools.product(E, repeat=d)

    def fn2(w, blk):
        from core import judge_eq
        for o in ([], ['-z'], ['-e'], ['-n', '-z']):
            cs = []
            for t in blk:
                if '-n' in o and any(e[0] == 'u' and '/' not in e[1].replace('\\/', '') for e in t):
                    continue
                cs.append((o, ''.join(e[2] + '^' + e[1] + '$' if e[0] == 'u' else e[1] for e in t).encode(),
                           ''.join(model_elem(e, o) for e in t).encode()))
            w.states += len(cs)
            w.trans += sum(len(c[1]) for c in cs)
            w.check('apertium-pretransfer', cs, judge_eq)
    ctx.parallel('streams', gen2, fn2, 500)
