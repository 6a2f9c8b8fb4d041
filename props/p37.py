"""P37 whatever the grammars of the source files allow is accepted, and a rule file means what its parts say."""
import itertools as it, os, re, subprocess
import xml.etree.ElementTree as ET
import p05, p31, sources as S, trun
from core import describe
from p31 import SUBJECTS

ROOT = {'t': 'transfer', 'i': 'interchunk', 'p': 'postchunk'}


# ---------------------------------------------------------------- rule files -> programs of the interpreter
def expr(x):
    k, a = x.tag, x.attrib
    if k in ('lit', 'lit-tag'):
        return (k, a['v'])
    if k == 'var':
        return (k, a['n'])
    if k in ('b', 'lu-count'):
        return (k,)
    if k in ('clip', 'case-of'):
        return (k, int(a['pos']), a.get('side') if SIDES else None, a['part']) + ((a['link-to'],) if 'link-to' in a else ())
    if k == 'get-case-from':
        return (k, int(a['pos']), expr(x[0]))
    if k == 'chunk':
        t = [c for c in x if c.tag == 'tags']
        return (k, tuple((n, v) for n, v in a.items() if n != 'c'), [expr(y[0]) for y in t[0]] if t else None) + tuple(expr(c) for c in x if c.tag != 'tags')
    return (k,) + tuple(map(expr, x))


def cond(x):
    k = x.tag
    if k in ('and', 'or', 'not'):
        return (k,) + tuple(map(cond, x))
    cl = x.get('caseless') == 'yes'
    if x[1].tag == 'list':
        return (k, expr(x[0]), x[1].get('n'), cl)
    return (k, expr(x[0]), expr(x[1]), cl)


def instr(x):
    k = x.tag
    if k in ('let', 'modify-case', 'out'):
        return (k,) + tuple(map(expr, x))
    if k == 'append':
        return (k, x.get('n')) + tuple(map(expr, x))
    if k == 'choose':
        o = x.find('otherwise')
        return (k, tuple((cond(w[0][0]), [instr(y) for y in w[1:]]) for w in x.findall('when')), None if o is None else [instr(y) for y in o])
    if k == 'call-macro':
        return ('call', x.get('n'), tuple(int(y.get('pos')) for y in x))
    return ('reject', x.get('shifting'))


def program(text):
    global SIDES
    r = ET.fromstring(text.encode())
    SIDES = r.tag == 'transfer'
    sec = lambda n: r.find('section-' + n) if r.find('section-' + n) is not None else ()
    d = dict(cats=[(c.get('n'), [(i.get('name') if r.tag == 'postchunk' else i.get('lemma'), i.get('tags')) for i in c]) for c in sec('def-cats')],
             attrs=[(a.get('n'), [i.get('tags') for i in a]) for a in sec('def-attrs')], vars=[(v.get('n'), v.get('v', '')) for v in sec('def-vars')],
             lists=[(l.get('n'), [i.get('v') for i in l]) for l in sec('def-lists')], macros=[(m.get('n'), int(m.get('npar')), [instr(y) for y in m]) for m in sec('def-macros')],
             rules=[([p.get('n') for p in x.find('pattern')], [instr(y) for y in x.find('action')]) for x in sec('rules')])
    if r.get('default'):
        d['default'] = r.get('default')
    return d


# ---------------------------------------------------------------- the language, level by level
def clip(st, pos, side, part, more=''):
    return '<clip pos="%d"%s part="%s"%s/>' % (pos, ' side="%s"' % side if st == 't' else '', part, more)


def atoms(st, full):
    a = ['<b/>', '<lit v="Ab"/>', '<lit-tag v="n.sg"/>', '<var n="u"/>', clip(st, 1, 'tl', 'lem')]
    if st == 'p':
        a.append('<lu-count/>')
    if full:
        a += [clip(st, 2, 'sl', 'whole'), clip(st, 2, 'tl', 'num', ' c="x"'), '<case-of pos="1" side="sl" part="lem"/>' if st == 't' else '<case-of pos="1" part="lem"/>', '<lit v=""/>']
        if st == 't':
            a += [clip(st, 1, 'tl', 'num', ' link-to="3"'), clip(st, 1, 'tl', 'lem', ' queue="yes"'), clip(st, 2, 'ref', 'lem')]
    return a


def composites(st, v, w):
    """values made of the values v; w: of two of them"""
    sv = [x for x in v if re.match('<(clip|lit |var)', x)]
    for x in sv:
        yield '<get-case-from pos="2">%s</get-case-from>' % x
    for x in v:
        yield '<concat>%s</concat>' % x
        if st != 'i':
            yield '<lu>%s</lu>' % x
            yield '<mlu><lu>%s</lu></mlu>' % x
        else:
            yield '<chunk>%s</chunk>' % x
        if st == 't':
            yield '<chunk name="k"><tags><tag>%s</tag></tags><lu><lit v="w"/></lu></chunk>' % x
    for x, y in w:
        yield '<concat>%s%s</concat>' % (x, y)
        if st != 'i':
            yield '<lu>%s%s</lu>' % (x, y)
            yield '<mlu><lu>%s</lu><lu>%s</lu></mlu>' % (x, y)
        else:
            yield '<chunk>%s%s</chunk>' % (x, y)
    if st == 't':
        for h in ('name="Kk"', 'namefrom="u"', 'name="Kk" case="k"', 'namefrom="u" case="u" c="x"'):
            for c in ('<b/>', '<var n="u"/>', '<lu><lit v="w"/></lu>', '<mlu><lu><lit v="w"/></lu><lu><lit v="z"/></lu></mlu>', '<lu><lit v="w"/></lu><b/><var n="u"/>'):
                yield '<chunk %s><tags><tag><lit-tag v="SN"/></tag><tag><var n="u"/></tag></tags>%s</chunk>' % (h, c)


def values(st, quick):
    """every value with up to two levels; and some with three"""
    A, a = atoms(st, True), atoms(st, False)
    one = A + list(composites(st, A, it.product(a if quick else A, a)))
    small = list(composites(st, a[1:3], ())) + ['<concat><var n="u"/><b/></concat>']
    yield from one
    yield from composites(st, small, it.chain(it.product(small, a[:3]), it.product(a[:3], small)))
    if not quick:
        deep = list(composites(st, small, ()))
        yield from composites(st, deep, it.chain(it.product(deep, a[:2]), it.product(a[:2], deep)))


def kind(x):
    return re.match(r'<([\w-]+)', x).group(1)


def show(st, st2='u'):
    """the variables and the words at the end"""
    o = lambda *x: '<out>%s</out>' % ''.join(('<chunk>%s</chunk>' if st == 'i' else '<lu>%s</lu>') % y for y in x)
    return o('<lit v="v="/><var n="v"/>') + o('<lit v="u="/><var n="u"/>') + '<out><b/></out>' + o(clip(st, 1, 'tl', 'whole'), clip(st, 2, 'tl', 'whole'))


def sentences(st, vals, few):
    out_ok = ('b', 'chunk', 'var') if st == 'i' else ('b', 'lu', 'mlu', 'var') + (('chunk',) if st == 't' else ())
    sv_ok = ('clip', 'lit', 'var', 'get-case-from', 'case-of') + (('lu-count',) if st == 'p' else ())
    for x in vals:
        yield '<let><var n="v"/>%s</let>' % x
        yield '<let>%s%s</let>' % (clip(st, 2, 'tl', 'lem'), x)
        yield '<append n="v">%s</append>' % x
        yield '<append n="u">%s<lit v="."/>%s</append>' % (x, x)
        if kind(x) in out_ok:
            yield '<out>%s</out>' % x
            yield '<out c="x"><b/>%s%s</out>' % (x, x)
        if kind(x) in sv_ok:
            yield '<modify-case><var n="v"/>%s</modify-case>' % x
            yield '<modify-case>%s%s</modify-case>' % (clip(st, 1, 'tl', 'lem'), x)
        for op in ('equal', 'begins-with', 'ends-with', 'contains-substring', 'in', 'begins-with-list', 'ends-with-list'):
            if op in ('in', 'begins-with-list', 'ends-with-list'):
                pairs = [(x, '<list n="l1"/>')]
            else:
                pairs = [(x, x), (x, '<lit v="b"/>'), ('<concat>%s<lit v="q"/></concat>' % x, x)]
            for p, q in pairs:
                for c in ('', ' caseless="yes"', ' caseless="no"') if few else ('', ' caseless="yes"'):
                    yield '<choose><when><test><%s%s>%s%s</%s></test><let><var n="v"/><lit v="yes"/></let></when><otherwise><let><var n="v"/><lit v="no"/></let></otherwise></choose>' % (op, c, p, q, op)


DECL = ('<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/></def-attr><def-attr n="pos"><attr-item tags="n"/><attr-item tags="v.p"/><attr-item tags="v"/></def-attr></section-def-attrs>'
        '<section-def-vars><def-var n="v"/><def-var n="u" v="Init"/><def-var n="k" v="AA"/></section-def-vars>',
        '<section-def-lists><def-list n="l1"><list-item v="ab"/><list-item v="Xy"/><list-item v="b"/></def-list></section-def-lists>')


def doc(st, action, macros='', default='', npat=2, pattern=None):
    cats = '<section-def-cats><def-cat n="W"><cat-item %s/></def-cat></section-def-cats>' % ('name="*"' if st == 'p' else 'tags="*"')
    return '<%s%s>%s%s%s<section-rules><rule><pattern>%s</pattern><action>%s</action></rule></section-rules></%s>' % (
        ROOT[st], default, cats, ''.join(DECL), '<section-def-macros>%s</section-def-macros>' % macros if macros else '', '<pattern-item n="W"/>' * (1 if st == 'p' else npat), action, ROOT[st])


WORDS = {'t': ['^abc<n><sg>/xyz<n><pl>/rf<v><p><sg>$', '^Abc# q<v><p><pl>/Xy<v># zw$', '^q<v>/Ab<sg>/z<n>$'], 'i': ['^abc<n><sg>{^x<1>$}$', '^Abc<v><p><pl>{^y$ ^z<2>$}$', '^XY<n>{}$'],
         'p': ['^abc<n><sg>{^xyz<n><2>$ ^Q<sg>$}$', '^Abc<v><p>{^xy<v><1>$[b]^c# d<sg>$}$', '^XY<n>{^aBc<pl>$ ^d$ ^e<n>$}$']}


def docs(st):
    W = WORDS[st]
    d = [a + ' ' + b for a, b in ((W[0], W[1]), (W[1], W[0]), (W[2], W[0]))] if st != 'p' else list(W)
    return d + ['[<i>]'.join(d)]


# ---------------------------------------------------------------- structure
def structures(st):
    """instructions in every place the grammar has for them, and what may be left out"""
    I = ['<let><var n="v"/><lit v="x"/></let>', '<append n="v"><var n="u"/></append>', '<modify-case><var n="u"/><lit v="aa"/></modify-case>', '<out><b/></out>', '<call-macro n="m"/>', '<call-macro n="m"><with-param pos="1"/></call-macro>',
         '<call-macro n="m"><with-param pos="2"/><with-param pos="1"/></call-macro>', '<reject-current-rule shifting="yes"/>', '<reject-current-rule shifting="1"/>', '<reject-current-rule shifting="no"/>', '<reject-current-rule shifting="2"/>',
         '<out><var n="u"/></out>', '<let>%s<lit v="m"/></let>' % clip(st, 2, 'tl', 'lem')]
    if st == 'p':
        I = [x for x in I if 'reject' not in x]
    T = ['<equal><var n="v"/><lit v=""/></equal>', '<not><equal><var n="v"/><lit v="x"/></equal></not>', '<in c="z"><lit v="ab"/><list n="l1"/></in>'.replace(' c="z"', '')]
    T += ['<and>%s%s</and>' % x for x in it.product(T, repeat=2)] + ['<or>%s%s</or>' % x for x in it.product(T, repeat=2)] + ['<and>%s%s%s</and>' % (T[0], T[1], T[2]), '<not><or>%s%s</or></not>' % (T[0], T[1]), '<or><not>%s</not><and>%s%s</and></or>' % (T[0], T[1], T[2]), '<not><not>%s</not></not>' % T[0]]
    mac = '<def-macro n="m" npar="2">%s</def-macro>'
    M0 = mac % '<append n="v"><lit v="m"/></append>'
    fin = show(st)
    for x in I:
        for np in (1, 2) if st != 'p' else (1,):
            if np == 1 and 'shifting="2"' in x:
                continue  # more words than the rule matched
            yield doc(st, x + fin, M0, npat=np)
            if 'call' not in x:
                yield doc(st, '<call-macro n="mm"/>' + fin, '<def-macro n="mm" npar="0">%s</def-macro>' % (x + '<out><%s><lit v="K"/></%s></out>' % (('chunk',) * 2 if st == 'i' else ('lu',) * 2)), npat=np)
        for y in I:
            yield doc(st, x + y + fin, M0)
            yield doc(st, x + y, M0)
            yield doc(st, '<choose c="x"><when c="y"><test c="z">%s</test>%s</when><otherwise c="o">%s</otherwise></choose>' % (T[0], x, y) + fin, M0)
            yield doc(st, '<choose><when><test>%s</test></when><when><test>%s</test>%s</when><otherwise>%s%s</otherwise></choose>' % (T[1], T[0], x, y, x) + fin, M0)
            if 'call' not in x + y:
                yield doc(st, '<call-macro n="m"><with-param pos="2"/></call-macro>' + fin, mac % (x + y))
                yield doc(st, '<call-macro n="m"><with-param pos="2"/><with-param pos="1"/></call-macro>' + fin, mac % ('<choose><when><test>%s</test>%s</when><otherwise>%s</otherwise></choose>' % (T[1], x, y)))
    for t in T:
        for x in I[:4]:
            yield doc(st, '<choose><when><test>%s</test>%s</when></choose>' % (t, x) + fin, M0)
            yield doc(st, x + '<choose><when><test>%s</test><choose><when><test>%s</test>%s</when></choose></when><otherwise>%s</otherwise></choose>' % (t, T[0], x, I[0]) + fin, M0)
    # what may be left out: sections, comments, attributes, rules without instructions
    cat = ['<def-cat n="W"><cat-item %s/></def-cat>' % ('name="*"' if st == 'p' else 'tags="*"'), '<def-cat n="V" c="x"><cat-item %s c="y"/><cat-item %s/></def-cat>' % (('name="abc"', 'name="xy"') if st == 'p' else ('lemma="abc" tags="n.*"', 'tags="v.*"'))]
    cat[1] = cat[1].replace(' c="y"', '') if st == 'p' else cat[1]
    A, V = re.match('(.*</section-def-attrs>)(.*)', DECL[0]).groups()
    A2, V2 = '<section-def-attrs><def-attr n="num" c="x"><attr-item tags="sg" c="y"/></def-attr></section-def-attrs>', '<section-def-vars><def-var n="v" v="" c="x"/><def-var n="u" v="&lt;q&gt;"/></section-def-vars>'
    L = DECL[1]
    L2 = '<section-def-lists><def-list n="l1" c="x"><list-item v="" c="y"/></def-list></section-def-lists>'
    Ms = ['', '<section-def-macros>%s</section-def-macros>' % M0, '<section-def-macros><def-macro n="m" npar="0" c="x" comment="y"><out><b/></out></def-macro><def-macro n="n" npar="1">%s</def-macro></section-def-macros>' % ('<choose><when><test><equal>%s<lit v=""/></equal></test></when></choose>' % clip(st, 1, 'tl', 'num'))]
    P = ['<pattern-item n="W"/>'] + ([] if st == 'p' else ['<pattern-item n="W"/><pattern-item n="V"/>', '<pattern-item n="V"/><pattern-item n="V"/><pattern-item n="W"/>'])
    R = ['<rule><pattern>%s</pattern><action/></rule>', '<rule comment="x" c="y"><pattern>%s</pattern><action c="z"></action></rule>', '<rule><pattern>%%s</pattern><action>%s</action></rule>' % ('<out>%s</out>' % (('<chunk>%s</chunk>' if st == 'i' else '<lu>%s</lu>') % clip(st, 1, 'tl', 'whole')))]
    if st == 't':
        R.append('<rule id="r" comment=""><pattern>%s</pattern><action><out><b/></out></action></rule>')
    for a, v, l, m, d in it.product([A, A2] + ([''] if st == 't' else []), [V, V2] + ([''] if st == 't' else []), ['', L, L2], Ms, ['', ' default="lu"', ' default="chunk"'] if st == 't' else ['']):
        if ('num' not in a and 'num' in m) or (m and not v):
            continue
        for p, r in it.product(P, R):
            c = ''.join(cat) if 'n="V"' in p or 'x' in r else cat[0]
            yield '<%s%s><section-def-cats>%s</section-def-cats>%s%s%s%s<section-rules>%s</section-rules></%s>' % (ROOT[st], d, c, a, v, l, m, r % p, ROOT[st])
    for (p, q), (r, s) in it.product(it.product(P, repeat=2), it.product(R, repeat=2)):
        yield '<%s><section-def-cats>%s</section-def-cats>%s%s<section-rules>%s%s</section-rules></%s>' % (ROOT[st], ''.join(cat), A, V, r % p, s.replace('id="r"', 'id="s"') % q.replace('"W"', '"V"', 1), ROOT[st])


# ---------------------------------------------------------------- the other grammars
def sequences(items, n):
    for k in range(n + 1):
        yield from (''.join(x) for x in it.product(items, repeat=k))


def crx(q):
    M = ['<match/>', '<begin/>', '<match lemma="a" tags="n.*" select="AA"/>', '<match surface="Aa"/>', '<match srcsurf="AA" trgsurf="aa" srclem="*" trglem="" select="dix"/>', '<or/>', '<repeat from="0" upto="1"/>']
    deep = M + [w % x for x in sequences(M[:5], 2 if q else 3) for w in ('<or>%s</or>', '<repeat from="0" upto="2">%s</repeat>', '<repeat from="1" upto="1">%s</repeat>')]
    yield '<capitalization/>'
    yield '<capitalization><rules/></capitalization>'
    for d in it.chain(sequences(M, 2), sequences(deep, 1), (a + b for a in deep for b in M[:3])):
        for h in ('', ' weight="1.5"', ' weight="0" c="x" v="y"'):
            yield '<capitalization><rules><rule%s>%s</rule></rules></capitalization>' % (h, d)
            yield '<capitalization><rules><rule>%s</rule><rule%s>%s</rule></rules><rules/><rules><rule/></rules></capitalization>' % (d, h, M[2])


def tsx(q):
    L = ['<def-label name="X"><tags-item tags="x"/></def-label>', '<def-label name="Y" closed="true" c="z"><tags-item tags="y"/><tags-item lemma="am" tags="y.*"/></def-label>', '<def-label name="Z" closed="false"><tags-item tags="z.*"/></def-label>']
    I = ['<tags-item tags="x"/>', '<label-item label="X"/>', '<label-item label="Y" c="q"/>', '<tags-item lemma="am" tags="y.*"/>']
    mult = [''] + ['<def-mult name="XY"%s>%s</def-mult>' % (h, s) for h in ('', ' closed="true" c="z"') for s in ['<sequence>%s</sequence>' % x for x in sequences(I, 3 if not q else 2) if x] + ['<sequence>%s</sequence><sequence>%s</sequence>' % x for x in it.product(I, repeat=2)]]
    N = ['<label-item label="X"/>', '<label-item label="Y"/>']
    forb = [''] + ['<forbid>%s</forbid>' % ''.join('<label-sequence%s>%s</label-sequence>' % (h, x) for x in xs) for h in ('', ' c="z"') for xs in [[a + b] for a, b in it.product(N, repeat=2)] + [[N[0] + N[1], N[1] + N[1]]]]
    enf = [''] + ['<enforce-rules>%s</enforce-rules>' % x for x in ('<enforce-after label="X"><label-set><label-item label="Y"/></label-set></enforce-after>', '<enforce-after label="X" c="z"><label-set c="z"><label-item label="X"/><label-item label="Y"/><label-item label="SENT"/></label-set></enforce-after><enforce-after label="Y"><label-set><label-item label="X"/></label-set></enforce-after>')]
    pref = ['', '<preferences><prefer tags="x.y"/></preferences>', '<preferences><prefer tags="x.*" c="z"/><prefer tags="y"/></preferences>']
    disc = ['', '<discard-on-ambiguity><discard tags="x"/></discard-on-ambiguity>', '<discard-on-ambiguity><discard tags="x.y.*" c="z"/><discard tags="z"/></discard-on-ambiguity>']
    S_ = ''
    for m in mult:
        yield '<tagger name="t"><tagset>%s%s%s</tagset></tagger>' % (''.join(L), S_, m)
    for m, f, e, p, d in it.product(mult[:2], forb, enf, pref, disc):
        yield '<tagger name="t"><tagset>%s%s%s</tagset>%s%s%s%s</tagger>' % (L[0] + L[1], S_, m, f, e, p, d)
    for n in range(1, 4):
        for ls in it.permutations(L, n):
            yield '<tagger name="">%s</tagger>' % ('<tagset>%s</tagset>' % ''.join(ls))


def modes(q):
    prog = ['<program name="lt-proc"/>', '<program name="cat $1" debug-suff="x"><file name="a.bin"/></program>', '<program name="b"><arg name="-z"/><file name="c"/><file name="d"/></program>', '<program name="c -w"></program>']
    pre = ['', '<preferences><pref path="x"/></preferences>', '<preferences><pref path="x"/><pref path="y"/></preferences>']
    head = ['', ' install="yes"', ' install="no"', ' gendebug="yes"', ' install="yes" gendebug="no"']
    for ps in it.chain(*(it.product(prog, repeat=n) for n in range(1, 4))):
        for h in head:
            for p in pre:
                yield '<modes><mode name="a-b"%s><pipeline>%s</pipeline>%s</mode></modes>' % (h, ''.join(ps), p)
        yield '<modes><mode name="x"><pipeline>%s</pipeline></mode><mode name="a-b" install="yes"><pipeline>%s</pipeline></mode></modes>' % (prog[1], ''.join(ps))


def run(ctx):
    ctx.rule = ('every rule file of the grammar up to the bound: every value of up to two levels (thorough: three) in every instruction and condition, every instruction in every place, every combination of optional parts; '
                'compiled, run, and the output compared with a direct interpreter; every small document of the grammars of tag sets, case rules and modes is accepted; every document is also put to the grammar (DTD) of the repository')
    ctx.need(trun.PRE, *trun.TOOL.values())
    for n, s in SUBJECTS:
        ctx.need(*s.tools)
    repo = os.environ.get('VERIF_REPO', '/repo') + '/apertium/'

    def valid(w, texts, dtd):
        """every text is valid by the grammar of the repository (else the check itself is wrong, or the grammar has changed)"""
        fs = []
        for k, t in enumerate(texts):
            f = '%s/v%d.xml' % (w.tmp, k)
            open(f, 'w').write(t)
            fs.append(f)
        p = subprocess.run(['xmllint', '--noout', '--dtdvalid', repo + dtd] + fs, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        w.n += 1
        w.trans += len(fs)
        if p.returncode:
            e = p.stderr.decode('utf8', 'replace')
            m = re.search(r'v(\d+)\.xml', e)
            t = texts[int(m.group(1))] if m else texts[0]

            class R:
                status, out, err = p.returncode, b'', e[:600].encode()
            w.fail('xmllint', ['--dtdvalid', repo + dtd], t.encode(), R, 'a document of the language is refused by %s: %s' % (dtd, e[:300]))
            return False
        return True

    def rules(name, st, gen, opts=(), block=40):
        dd = docs(st)

        def fn(w, blk):
            if not valid(w, list(blk), ROOT[st] + '.dtd'):
                return
            for t in blk:
                trun.compare(w, st, program(t), dd, opts, xmltext=t)
                if w.enough:
                    return
        ctx.parallel('%s %s%s' % (name, ROOT[st], ''.join(opts)), gen, fn, block)
    for st in 'tip':
        rules('values', st, lambda: (doc(st, x + show(st)) for x in sentences(st, list(dict.fromkeys(values(st, ctx.quick))), not ctx.quick)))
        rules('structure', st, lambda: structures(st))
    for st, o in (('t', '-n'), ('t', '-w'), ('p', '-w')):
        if not ctx.quick:
            rules('values', st, lambda: (doc(st, x + show(st)) for x in sentences(st, list(dict.fromkeys(values(st, True))), False)), (('-b', '-w') if o == '-w' and st == 't' else (o,)))

    def accepted(name, s, dtd, gen):
        def fn(w, blk):
            if not valid(w, list(blk), dtd):
                return
            for t in blk:
                got, tool, a, r = s.observe(w, w.tmp, t)
                w.states += 1
                w.trans += 1
                w.seen(str(got))
                if got is None:
                    w.fail(tool, a, t.encode(), r, 'valid source refused: ' + describe(r.status))
                if w.enough:
                    return
        ctx.parallel(name, gen, fn, 20)
    sub = dict(SUBJECTS)
    accepted('case rules', sub['caps'], 'crx.dtd', lambda: crx(ctx.quick))
    accepted('modes', sub['modes'], 'modes.dtd', lambda: modes(ctx.quick))
    accepted('tag sets, hidden Markov model', sub['hmm tag set'], 'tagger.dtd', lambda: tsx(ctx.quick))
    accepted('tag sets, sliding window', sub['sliding window tag set'], 'tagger.dtd', lambda: tsx(ctx.quick))
