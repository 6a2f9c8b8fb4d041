"""P32 faulty sources are refused: error status, no compiled file, an earlier one left alone."""
import itertools as it, os, re
import sources as S
import tag
import p31
from core import describe
from p31 import SUBJECTS, read
from trun import TOOL, PRE, argv

MARK = b'earlier contents\n'


def target(s, d):
    return d + '/' + ('r.b' if isinstance(s, p31.Rules) else 'c.b' if isinstance(s, p31.Caps) else 'm.prob')


class Wrap:
    """compile one text over an earlier result -> (accepted, tool, argv, result, untouched)"""
    def __init__(self, s):
        self.s = s

    def compile(self, w, d, text):
        s = self.s
        if isinstance(s, p31.Modes):
            x = s.observe(w, d, text)
            left = [f for f in p31.files(d + '/m') if f != 'modes.xml']
            return x[0] is not None, x[1], x[2], x[3], not left
        t = target(s, d)
        if isinstance(s, p31.Rules):
            x = d + '/r.x'
            open(x, 'w').write(text)
            open(t, 'wb').write(MARK)
            r = w.run1(PRE, [x, t])
            return r.status == 0, PRE, [x, t], r, read(t) == MARK
        un, os.unlink = os.unlink, lambda p: open(p, 'wb').write(MARK) if p == t else un(p)
        try:
            open(t, 'wb').write(MARK)
            x = s.observe(w, d, text)
        finally:
            os.unlink = un
        return x[3].status == 0, x[1], x[2], x[3], read(t) == MARK


# ---------------------------------------------------------------- not well-formed
def malformed(text, dense):
    t = S.toks(text)
    n = len(text) - (0 if text[-1] == '\n' else 0)
    for i in (range(0, n) if dense else sorted(set(range(0, n, 9)) | set(range(n - 40, n)))):
        yield 'cut at %d' % i, text[:i]
    for i, x in enumerate(t):
        a, b = ''.join(t[:i]), ''.join(t[i + 1:])
        if not x.endswith('/>'):
            yield 'tag %d missing' % i, a + b
        elif i % 3 == 0 or dense:
            yield 'tag %d not closed' % i, a + x[:-2] + '>' + b
        if x[1] == '/':
            yield 'end tag %d twice' % i, a + x + x + b
            yield 'end tag %d misnamed' % i, a + '</zz>' + b
        if i % 3 == 1 or dense:
            yield 'tag %d without >' % i, a + x[:-1] + b
            yield 'stray & before %d' % i, a + '&' + x + b if i else '&' + x + b
            yield 'unknown reference before %d' % i, a + '&zz;' + x + b
            yield 'unclosed comment before %d' % i, a + '<!-- ' + x + b
        if '="' in x:
            if i % 3 == 2 or dense:
                yield 'unquoted attribute in %d' % i, a + x.replace('"', '', 2) + b
                yield '< in attribute of %d' % i, a + x.replace('="', '="<', 1) + b
                yield 'unknown reference in attribute of %d' % i, a + x.replace('="', '="&zz;', 1) + b
            yield 'attribute of %d twice' % i, a + re.sub(r'( [\w-]+="[^"]*")', r'\1\1', x, count=1) + b


# ---------------------------------------------------------------- well-formed, but wrong
def elements(text, name):
    """(start, end) of every element of that name"""
    t = S.toks(text)
    pos, out, st = 0, [], []
    for x in t:
        n = re.match(r'</?([\w-]+)', x).group(1)
        if n == name:
            if x[1] == '/':
                out.append((st.pop(), pos + len(x)))
            elif x.endswith('/>'):
                out.append((pos, pos + len(x)))
            else:
                st.append(pos)
        pos += len(x)
    return sorted(out)


def sub(text, pat, new):
    for m in re.finditer(pat, text):
        yield text[:m.start(1)] + new + text[m.end(1):]


def inside(text, names):
    """positions directly inside elements of these names"""
    for n in names:
        for a, b in elements(text, n):
            t = S.toks(text[a:b])
            depth, p = 0, a
            for x in t:
                if x[1] == '/':
                    depth -= 1
                    if depth == 0:
                        break
                elif not x.endswith('/>'):
                    depth += 1
                p += len(x)
                if depth == 1:
                    yield n, p


def sections(text, names, root):
    """every order of the sections but the right one"""
    parts = []
    for n in names:
        for a, b in elements(text, n):
            parts.append(text[a:b])
    t = text
    for x in parts:
        t = t.replace(x, '', 1)
    head, tail = t.split('</%s>' % root)[0], '</%s>' % root
    for k in it.permutations(range(len(parts))):
        if list(k) != sorted(k):
            yield head + ''.join(parts[i] for i in k) + tail


def wrong_rules(stage):
    text, root = S.RULES[stage], {'t': 'transfer', 'i': 'interchunk', 'p': 'postchunk'}[stage]
    rules = text.index('<section-rules')
    for x in sub(text, r'<pattern-item n="([^"]*)"', 'Zz'):
        yield 'undeclared category', x
    for k, x in enumerate(sub(text, r'<clip [^>]*part="([^"]*)"', 'zz')):
        if x.index('part="zz"') > rules:
            yield 'undeclared attribute', x
    for k, x in enumerate(sub(text, r'<clip [^>]*( part="[^"]*")', '')):
        if len(os.path.commonprefix([x, text])) > rules:
            yield 'clip without part', x
    for x in sub(text, r'<call-macro n="([^"]*)"', 'zz'):
        yield 'undeclared macro', x
    for x in sub(text, r'<def-macro n="([^"]*)"', 'm'):
        if x != text:
            yield 'macro declared twice', x
    if text.count('<def-macro') == 1:
        a, b = elements(text, 'def-macro')[0]
        yield 'macro declared twice', text[:b] + text[a:b] + text[b:]
    for m in re.finditer(r'<def-cat n="(\w+)".*?</def-cat>', text):
        yield 'category not declared', text[:m.start()] + text[m.end():] if text.count('<def-cat ') > 1 else text.replace('n="%s"' % m.group(1), 'n="Q"', 1)
    a, b = elements(text, 'section-def-attrs')[0]
    yield 'no attributes declared', text[:a] + text[b:]
    a, b = elements(text, 'section-def-macros')[0]
    yield 'no macros declared', text[:a] + text[b:]
    a, b = elements(text, 'section-rules')[0]
    yield 'no rules', text[:a] + text[b:]
    a, b = elements(text, 'section-def-cats')[0]
    yield 'no categories', text[:a] + text[b:]
    for n, p in inside(text, ['section-def-cats', 'def-cat', 'section-def-attrs', 'def-attr', 'section-def-vars', 'section-def-lists', 'def-list', root]):
        if n == root and p > rules:
            continue
        for e in ('<zz/>', '<rule/>', '<let/>'):
            yield 'unexpected element in ' + n, text[:p] + e + text[p:]
    yield 'other root', text.replace('<' + root, '<zz').replace('</' + root, '</zz')
    names = ['section-def-cats', 'section-def-attrs', 'section-def-vars', 'section-def-lists', 'section-def-macros', 'section-rules']
    for x in sections(text, names, root):
        yield 'sections out of order', x


def wrong_tsx():
    t = S.TSX
    for x in sub(t, r'<label-item label="([^"]*)"', 'ZZ'):
        yield 'undeclared label', x
    for x in sub(t, r'<enforce-after label="([^"]*)"', 'ZZ'):
        yield 'undeclared label', x
    for a, b in ('XY', 'YX', 'ZX'):
        yield 'label declared twice', t.replace('<def-label name="%s"' % a, '<def-label name="%s"' % b)
    for a in ('X', 'Y', 'SENT', 'CM', 'LPAR', 'RPAR', 'LQUEST', 'kEOF', 'kUNDEF'):
        yield 'label declared twice', t.replace('<def-mult name="XY"', '<def-mult name="%s"' % a)
        if len(a) > 1:
            yield 'label declared twice', t.replace('<def-label name="Y"', '<def-label name="%s"' % a).replace('label="Y"', 'label="%s"' % a)
    for n, p in inside(t, ['tagset', 'def-label', 'def-mult', 'sequence', 'forbid', 'enforce-rules', 'enforce-after', 'preferences', 'discard-on-ambiguity', 'tagger']):
        for e in ('<zz/>', '<tagset/>' if n != 'tagset' else '<forbid/>'):
            if e != '<tagset/>' or p > t.index('<tagset>'):
                yield 'unexpected element in ' + n, t[:p] + e + t[p:]
    for a, b in elements(t, 'label-sequence'):
        k = t.index('<label-item', a)
        m = t.index('/>', k) + 2
        yield 'label-sequence of one', t[:k] + t[m:]
        yield 'no label-item in label-sequence', t[:a] + '<label-sequence><zz/><zz/></label-sequence>' + t[b:]
    for x in sections(t, ['tagset', 'forbid', 'enforce-rules', 'preferences', 'discard-on-ambiguity'], 'tagger'):
        yield 'sections out of order', x
    yield 'other root', t.replace('<tagger', '<zz').replace('</tagger', '</zz')


E = {
    'int': ['<int val="1"/>', '<sentlen/>', '<tokaddr/>', '<toklen><int val="0"/></toklen>', '<add><wrdidx/><int val="2"/></add>'],
    'bool': ['<eq><int val="1"/><sentlen/></eq>', '<not><and><gt><int val="1"/><sentlen/></gt></and></not>', '<streq val="x"><ex-surf><tokaddr/></ex-surf></streq>'],
    'str': ['<ex-surf><tokaddr/></ex-surf>', '<ex-lemma><ex-wordoid><wrdaddr/></ex-wordoid></ex-lemma>', '<join val="-"><ex-ambgset><tokaddr/></ex-ambgset></join>', '<subscript idx="0"><ex-ambgset><tokaddr/></ex-ambgset></subscript>'],
    'strarr': ['<ex-ambgset><tokaddr/></ex-ambgset>', '<ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags>'],
    'wrd': ['<ex-wordoid><wrdaddr/></ex-wordoid>', '<subscript idx="0"><ex-wordoids><tokaddr/></ex-wordoids></subscript>'],
    'wrdarr': ['<ex-wordoids><tokaddr/></ex-wordoids>'],
    'addr': ['<wrdaddr/>', '<addr-of-ints><tokaddr/><int val="0"/></addr-of-ints>', '<clamp><wrdaddr/></clamp>', '<add><wrdaddr/><addr-of-ints><int val="0"/><int val="0"/></addr-of-ints></add>'],
    'void': ['<out><ex-surf><tokaddr/></ex-surf></out>', '<zz/>', ''],
}
B = '<feat><pred>%s</pred></feat>'
O = '<feat><out>%s</out></feat>'
M = '<feat><out-many>%s</out-many></feat>'
I = O % '<add>%s<int val="1"/></add>'
CONTEXTS = [(B, 'bool'), (B % '<not>%s</not>', 'bool'), (B % '<and><eq><int val="1"/><int val="1"/></eq>%s</and>', 'bool'), (B % '<or>%s</or>', 'bool'),
            (O, 'str bool int'), (M, 'strarr'), (I, 'int'), (O % '<add><int val="1"/>%s</add>', 'int'), (O % '<toklen>%s</toklen>', 'int'), (O % '<strlen>%s</strlen>', 'str'), (O % '<arrlen>%s</arrlen>', 'strarr')]
CONTEXTS += [(B % ('<%s>%%s<sentlen/></%s>' % (o, o)), 'int') for o in ('eq', 'neq', 'lt', 'lte', 'gt', 'gte')] + [(B % ('<%s><sentlen/>%%s</%s>' % (o, o)), 'int') for o in ('eq', 'lte')]
CONTEXTS += [(B % '<streq val="x">%s</streq>', 'str'), (B % '<strin val="x y">%s</strin>', 'str'), (B % '<sethasany val="x y">%s</sethasany>', 'strarr'), (B % '<sethasall val="x y">%s</sethasall>', 'strarr'),
             (O % '<ex-surf>%s</ex-surf>', 'int'), (O % '<ex-lemma>%s</ex-lemma>', 'wrd'), (O % '<ex-coarse>%s</ex-coarse>', 'wrd'), (M % '<ex-tags>%s</ex-tags>', 'wrd'), (M % '<ex-ambgset>%s</ex-ambgset>', 'int'),
             (M % '<ex-tags><ex-wordoid>%s</ex-wordoid></ex-tags>', 'addr'), (O % '<ex-lemma><subscript idx="0"><ex-wordoids>%s</ex-wordoids></subscript></ex-lemma>', 'int'), (O % '<join val="-">%s</join>', 'strarr'),
             (O % '<ex-lemma><subscript idx="0">%s</subscript></ex-lemma>', 'wrdarr'), (O % '<subscript idx="0">%s</subscript>', 'strarr'), (M % '<slice start="0" end="1">%s</slice>', 'strarr'), (O % '<slice start="0" end="1">%s</slice>', 'str')]
A = M % '<ex-tags><ex-wordoid>%s</ex-wordoid></ex-tags>'
CONTEXTS += [(A % '<clamp>%s</clamp>', 'addr'), (A % '<adjust>%s</adjust>', 'addr'), (A % '<add>%s<wrdaddr/></add>', 'addr'), (A % '<add><wrdaddr/>%s</add>', 'addr'), (A % '<addr-of-ints>%s<int val="0"/></addr-of-ints>', 'int'), (A % '<addr-of-ints><int val="0"/>%s</addr-of-ints>', 'int'),
             (M % '<for-each as="x">%s<ex-surf><tokaddr/></ex-surf></for-each>', 'strarr wrdarr'), (M % '<for-each as="x"><ex-ambgset><tokaddr/></ex-ambgset>%s</for-each>', 'str')]
GP = '<global-pred>%s</global-pred>'


def spec(feats='', defns='', gp='', beam=''):
    return '<metatag><coarse-tags tag="t.tsx"/>' + beam + ('<defns>%s</defns>' % defns if defns else '') + gp + '<feats>' + feats + '</feats></metatag>'


def mtx_types():
    """(acceptable, description, text)"""
    for c, ok in CONTEXTS + [(GP, 'bool')]:
        for ty, es in E.items():
            for k, e in enumerate(es):
                good = ty in ok.split() and not (ty == 'void' and k)
                if '%s' in c and c is O and ty == 'void':
                    good = False
                if ok == 'int' and ty == 'addr' and '<add>' in e or ok == 'addr' and ty == 'int' and '<add>' in e:
                    good = False
                if c in (B % '<or>%s</or>',) and e == '':
                    continue                 # an empty disjunction is not looked at
                if 'and' in c and e == '':
                    continue                 # a conjunction of one
                yield good, '%s for %s' % (ty, ok), spec(gp=c % e) if c is GP else spec(c % e)
    # macros: what they give and what they are given
    for ty, es in E.items():
        if ty in ('addr', 'void'):
            continue
        for e in es:
            d = '<def-macro as="M">%s</def-macro>' % e
            if ty == 'wrd' and e.startswith('<subscript'):
                continue                     # taken for a string by the reader
            for c, ok in CONTEXTS[4:6] + CONTEXTS[:1] + CONTEXTS[6:7] + [x for x in CONTEXTS if x[1] in ('wrd', 'wrdarr')]:
                # (a macro in <out> is taken for a string)
                ok = 'str' if c is O else ok
                yield ty in ok.split(), 'macro giving %s for %s' % (ty, ok), spec(c % '<macro name="M"/>', d)
    for ty, body in (('int', '<ex-surf><var name="a"/></ex-surf>'), ('wrd', '<ex-lemma><var name="a"/></ex-lemma>'), ('strarr', '<join val="-"><var name="a"/></join>'), ('addr', '<ex-lemma><ex-wordoid><var name="a"/></ex-wordoid></ex-lemma>')):
        d = '<def-macro as="M" args="a">%s</def-macro>' % body
        for t2, es in E.items():
            for e in es:
                if e and t2 != 'void':
                    good = t2 == ty
                    yield good, 'argument %s for %s' % (t2, ty), spec(O % ('<macro name="M">%s</macro>' % e), d)
        yield False, 'no argument', spec(O % '<macro name="M"></macro>', d)
        yield False, 'no argument', spec(O % '<macro name="M"/>', d)
        yield False, 'two arguments', spec(O % ('<macro name="M">%s%s</macro>' % (E[ty][0], E[ty][0])), d)


def wrong_mtx():
    t = S.MTX
    for what, pat in (('set', r'<strin name="([^"]*)"'), ('string', r'<streq name="([^"]*)"'), ('macro', r'<macro name="([^"]*)"'), ('variable', r'<var name="([^"]*)"'), ('set declaration', r'<def-set name="([^"]*)"'),
                      ('macro declaration', r'<def-macro as="([^"]*)"'), ('argument', r'<def-macro as="N" args="([^"]*)"'), ('loop variable', r'<for-each as="([^"]*)"')):
        for x in sub(t, pat, 'zz'):
            yield 'undeclared ' + what, x
    for pat in (r'<strin( name="[^"]*")', r'<streq( name="[^"]*")', r'<int( val="[^"]*")', r'<sethasany( val="[^"]*")', r'<subscript( idx="[^"]*")', r'<def-macro( as="[^"]*")', r'<for-each( as="[^"]*")'):
        for x in sub(t, pat, ''):
            yield 'attribute missing: ' + pat, x
    # an element with a type of its own, everywhere
    tk = S.toks(t)
    for i in range(1, len(tk)):
        yield 'unexpected element before %d' % i, ''.join(tk[:i]) + '<zz/>' + ''.join(tk[i:])
    for x in sections(t, ['coarse-tags', 'beam-width', 'defns', 'global-pred', 'feats'], 'metatag'):
        yield 'sections out of order', x
    yield 'other root', t.replace('<metatag', '<zz').replace('</metatag', '</zz')
    yield 'tag set missing', t.replace('t.tsx', 'none.tsx')


def wrong_caps():
    t = S.CRX
    for v in ('zz', 'aA', 'DIX', ' ', 'AAA'):
        for x in sub(t, r'select="([^"]*)"', v):
            yield 'unknown select', x
    for n, p in inside(t, ['rule', 'or', 'repeat']):
        for e in ('<zz/>', '<rule/>', '<rules/>'):
            yield 'unexpected element in ' + n, t[:p] + e + t[p:]
    for l in it.product(('', ' lemma="x"', ' lemma="a*"'), ('', ' trglem="Aa"'), ('', ' surface="x"', ' surface="X*"'), ('', ' trgsurf="AA"')):
        if l[0] and l[1] or l[2] and l[3]:
            for x in sub(t, r'<match( [^>]*)/>', ''.join(l)):
                yield 'conflicting attributes', x


    for a, b in it.product(('0', '1', '2', '3', '-1', None), repeat=2):
        if not (a and b) or '-1' in (a, b) or int(a) > int(b):
            at = (' from="%s"' % a if a else '') + (' upto="%s"' % b if b else '')
            for x in sub(t, r'<repeat( [^>]*)>', at):
                yield 'bounds of repeat:' + at, x


def wrong_modes():
    return []


WRONG = {'transfer': lambda: wrong_rules('t'), 'interchunk': lambda: wrong_rules('i'), 'postchunk': lambda: wrong_rules('p'), 'hmm tag set': wrong_tsx, 'sliding window tag set': wrong_tsx, 'perceptron': wrong_mtx, 'caps': wrong_caps, 'modes': wrong_modes}


def run(ctx):
    ctx.rule = ('for every compiler, every fault of the stated kinds at every place of a source in which every kind of element occurs: the compiler must end with an error status and leave an earlier compiled file as it was; '
                'perceptron expressions: every context with an expression of every type, accepted exactly if the type is the required one')
    for name, s in SUBJECTS:
        ctx.need(*s.tools)
        wr = Wrap(s)

        def fn(w, blk, s=s, wr=wr):
            d = w.tmp
            if not hasattr(w, 'ok'):
                ok, tool, a, r, same = wr.compile(w, d, s.text)
                w.ok = ok and not same
                if not w.ok:
                    w.fail(tool, a, b'', r, 'the correct source: %s' % describe(r.status))
            for good, n, text in blk:
                ok, tool, a, r, same = wr.compile(w, d, text)
                w.states += 1
                w.trans += 1
                w.seen(n + str(ok))
                if ok != good:
                    w.fail(tool, a, text.encode(), r, '%s: %s' % (n, 'accepted' if ok else 'refused, but correct: ' + r.err.decode('utf8', 'replace')[:200]))
                elif not good and not same:
                    w.fail(tool, a, text.encode(), r, '%s: refused, but the compiled file was written' % n)
                if w.enough:
                    return
            if len(w.samples) < 1:
                w.samples.append(dict(fault=blk[0][1], text=blk[0][2][-300:]))
        dense = not ctx.quick
        ctx.parallel('not well-formed ' + name, lambda s=s: ((False, n, x) for n, x in malformed(s.text, dense)), fn, 8)
        if name != 'modes':
            ctx.parallel('wrong ' + name, lambda name=name: ((False, n, x) for n, x in WRONG[name]()), fn, 8)
        if name == 'perceptron':
            ctx.parallel('types ' + name, mtx_types, fn, 8)

        # the stages read the rule file again
        if isinstance(s, p31.Rules):
            def fn2(w, blk, s=s):
                d = w.tmp
                x, b = d + '/q.x', d + '/q.b'
                if not os.path.exists(b):
                    open(x, 'w').write(s.text)
                    w.run1(PRE, [x, b])
                for n, text in blk:
                    if text is None:
                        a = argv(s.stage, (d + '/none' if n == 'no rule file' else x, d + '/none' if n == 'no compiled file' else b))
                        open(x, 'w').write(s.text)
                    else:
                        open(x, 'w').write(text)
                        a = argv(s.stage, (x, b))
                    r = w.run1(TOOL[s.stage], a, s.inp)
                    w.states += 1
                    w.trans += 1
                    w.seen(n)
                    if r.status == 0:
                        w.fail(TOOL[s.stage], a, s.inp, r, '%s: accepted by the stage' % n)
                    if w.enough:
                        return
            ctx.parallel('run with a faulty ' + name + ' file', lambda s=s: [(n, x) for n, x in malformed(s.text, dense)] + [('no rule file', None), ('no compiled file', None)], fn2, 8)
