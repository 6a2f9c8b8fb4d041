"""Sample sources of every compiler, written so that every kind of element occurs,
and the spellings XML allows for one and the same document."""
import re

ATTRS = '<section-def-attrs><def-attr n="num"><attr-item tags="sg"/><attr-item tags="pl"/></def-attr><def-attr n="gen"><attr-item tags="m"/><attr-item tags="f.x"/></def-attr></section-def-attrs>'
VARS = '<section-def-vars><def-var n="v" v="&lt;q&gt;"/><def-var n="w"/></section-def-vars>'
LISTS = '<section-def-lists><def-list n="l"><list-item v="a"/><list-item v="b&amp;"/></def-list><def-list n="k"><list-item v="sg"/></def-list></section-def-lists>'
RULES = {}


def tests(clip, one):
    """conditions over every operator"""
    c = clip
    return [
        '<equal>%s<lit v="a"/></equal>' % c('lem'),
        '<and><equal caseless="yes">%s<lit v="A"/></equal><not><in>%s<list n="l"/></in></not></and>' % (c('lem'), c('lem')),
        '<or><begins-with>%s<lit v="b"/></begins-with><ends-with>%s<lit v="c"/></ends-with><contains-substring>%s<lit v="d"/></contains-substring></or>' % ((c('lem'),) * 3),
        '<or><begins-with-list>%s<list n="l"/></begins-with-list><ends-with-list caseless="yes">%s<list n="l"/></ends-with-list></or>' % ((c('lem'),) * 2),
    ]


def common(clip):
    t = tests(clip, 1)
    return ('<choose>' + ''.join('<when><test>%s</test><let><var n="w"/><concat><lit v="t%d"/><var n="w"/></concat></let></when>' % (x, i) for i, x in enumerate(t)) +
            '<otherwise><append n="w"><lit v="o"/><lit-tag v="z.y"/></append></otherwise></choose>'
            '<let>%s%s</let><modify-case>%s<lit v="Aa"/></modify-case><modify-case><var n="w"/><get-case-from pos="1">%s</get-case-from></modify-case>'
            '<choose><when><test><equal><case-of pos="1"%s part="lem"/><lit v="aa"/></equal></test><let><var n="v"/><lit-tag v="c"/></let></when></choose>') % (
                clip('num'), '<lit-tag v="pl"/>', clip('lem'), '<lit v="x"/>', ' side="tl"' if 'side' in clip('lem') else '')


def tclip(p): return '<clip pos="1" side="tl" part="%s"/>' % p
def iclip(p): return '<clip pos="1" part="%s"/>' % p


RULES['t'] = ('<transfer default="chunk"><section-def-cats><def-cat n="A"><cat-item lemma="a" tags="n.*"/><cat-item tags="adj.*"/></def-cat><def-cat n="B"><cat-item lemma="b*" tags="v"/></def-cat></section-def-cats>' + ATTRS + VARS + LISTS +
    '<section-def-macros><def-macro n="m" npar="1">' + common(tclip) + '</def-macro><def-macro n="n" npar="2"><let><clip pos="2" side="tl" part="lem"/><clip pos="1" side="sl" part="lem"/></let></def-macro></section-def-macros>'
    '<section-rules><rule comment="r1"><pattern><pattern-item n="A"/></pattern><action>' + common(tclip) +
    '<out><chunk name="k" case="w"><tags><tag><lit-tag v="N"/></tag><tag><clip pos="1" side="tl" part="num" link-to="2"/></tag></tags><lu><clip pos="1" side="tl" part="whole"/></lu><b/><mlu><lu><lit v="i"/><var n="v"/></lu><lu><clip pos="1" side="tl" part="lemh"/><clip pos="1" side="tl" part="tags"/><clip pos="1" side="tl" part="lemq"/></lu></mlu></chunk></out></action></rule>'
    '<rule><pattern><pattern-item n="A"/><pattern-item n="B"/></pattern><action><call-macro n="m"><with-param pos="1"/></call-macro><call-macro n="n"><with-param pos="2"/><with-param pos="1"/></call-macro><out><chunk namefrom="w"><tags><tag><var n="v"/></tag></tags><lu><clip pos="2" side="tl" part="whole" queue="no"/></lu><b pos="1"/><lu><concat><clip pos="1" side="sl" part="lem"/><lit v="j"/></concat><lit-tag v="g.h"/></lu></chunk></out></action></rule>'
    '<rule><pattern><pattern-item n="B"/><pattern-item n="B"/></pattern><action><reject-current-rule shifting="no"/></action></rule></section-rules></transfer>')
RULES['i'] = ('<interchunk><section-def-cats><def-cat n="A"><cat-item lemma="a" tags="n.*"/><cat-item tags="adj.*"/></def-cat><def-cat n="B"><cat-item lemma="b*" tags="v"/></def-cat></section-def-cats>' + ATTRS + VARS + LISTS +
    '<section-def-macros><def-macro n="m" npar="1">' + common(iclip) + '</def-macro><def-macro n="n" npar="2"><let><clip pos="2" part="lem"/><clip pos="1" part="lem"/></let></def-macro></section-def-macros>'
    '<section-rules><rule><pattern><pattern-item n="A"/></pattern><action>' + common(iclip) +
    '<out><chunk><clip pos="1" part="lem"/><clip pos="1" part="tags"/><var n="v"/><clip pos="1" part="chcontent"/></chunk></out></action></rule>'
    '<rule><pattern><pattern-item n="A"/><pattern-item n="B"/></pattern><action><call-macro n="m"><with-param pos="1"/></call-macro><call-macro n="n"><with-param pos="2"/><with-param pos="1"/></call-macro><out><chunk><clip pos="2" part="whole"/></chunk><b pos="1"/><chunk><clip pos="1" part="whole"/></chunk><b/></out></action></rule>'
    '<rule><pattern><pattern-item n="B"/><pattern-item n="B"/></pattern><action><reject-current-rule shifting="no"/></action></rule></section-rules></interchunk>')
RULES['p'] = ('<postchunk><section-def-cats><def-cat n="A"><cat-item name="a"/></def-cat><def-cat n="B"><cat-item name="b*"/></def-cat></section-def-cats>' + ATTRS + VARS + LISTS +
    '<section-def-macros><def-macro n="m" npar="1">' + common(iclip) + '</def-macro></section-def-macros>'
    '<section-rules><rule><pattern><pattern-item n="A"/></pattern><action>' + common(iclip) +
    '<out><lu><clip pos="1" part="whole"/></lu><b/><mlu><lu><lit v="i"/><var n="v"/></lu><lu><clip pos="1" part="lemh"/><clip pos="1" part="tags"/><clip pos="1" part="lemq"/></lu></mlu></out></action></rule>'
    '<rule><pattern><pattern-item n="B"/></pattern><action><call-macro n="m"><with-param pos="1"/></call-macro><out><lu><var n="w"/><clip pos="1" part="num"/></lu></out></action></rule></section-rules></postchunk>')
DOCS = {
    't': ['^%s/%s$ ^%s/%s$' % (a, b, c, d) for a, b in (('a<n><sg>', 'a<n><sg>'), ('a<n>', 'B<n><m>'), ('x<adj>', 'cc# q<adj><pl>'), ('z<z>', 'z<z>')) for c, d in (('b<v>', 'b<v>'), ('bx<v>', 'Ad<v><sg># q'), ('a<n>', 'bc<n><f><x>'), ('u', '*u'))],
    'i': ['^%s{^x<1>$}$ ^%s{^y<n>$ ^z$}$' % (a, c) for a in ('a<n><sg>', 'Ab<adj><m>', 'c<adj><pl>', 'z<z>') for c in ('b<v>', 'bx<v><sg>', 'd<adj><sg>', 'a<n>')],
    'p': ['^%s{^%s$ ^y<n><1>$}$' % (a, c) for a in ('a<n><sg>', 'A<adj><m>', 'bcd<adj><pl>', 'z<z>') for c in ('a<n><sg>', 'Bd# q<v><2>', 'ca<m>', 'd')],
}
TSX = ('<tagger name="x"><tagset><def-label name="X" closed="true"><tags-item tags="x"/><tags-item lemma="am" tags="x.*"/></def-label><def-label name="Y"><tags-item tags="y"/></def-label><def-label name="Z"><tags-item tags="z.*"/></def-label>'
       '<def-mult name="XY" closed="true"><sequence><label-item label="X"/><label-item label="Y"/></sequence><sequence><tags-item tags="x"/><label-item label="Z"/></sequence></def-mult></tagset>'
       '<forbid><label-sequence><label-item label="X"/><label-item label="Y"/></label-sequence><label-sequence><label-item label="Y"/><label-item label="Y"/></label-sequence></forbid>'
       '<enforce-rules><enforce-after label="Z"><label-set><label-item label="X"/><label-item label="SENT"/></label-set></enforce-after></enforce-rules>'
       '<preferences><prefer tags="x.y"/><prefer tags="z"/></preferences><discard-on-ambiguity><discard tags="y.z"/></discard-on-ambiguity></tagger>')
CRX = ('<capitalization><rules><rule weight="0.5"><match select="aa"/></rule><rule weight="1.5"><or><match lemma="iP*" select="dix"/><match trglem="Aa" tags="np.*" select="Aa"/></or><repeat from="0" upto="2"><match srcsurf="AA" srclem="aa" surface="x"/></repeat></rule>'
       '<rule weight="2"><begin/><match tags="n.+.sg" select="AA"/></rule></rules></capitalization>')
MODES = ('<modes><mode name="a-b" install="yes" gendebug="yes"><pipeline><program name="lt-proc -w"><file name="x.automorf.bin"/></program><program name="apertium-tagger -g $2"><arg name="a"/><file name="p.prob"/></program>'
         '<program name="apertium-transfer -b" debug-suff="tr"><file name="t.t1x"/><file name="t.t1x.bin"/></program></pipeline></mode><mode name="b-a" install="no"><pipeline><program name="lt-proc $1"><file name="g.bin"/></program></pipeline></mode></modes>')


MTX = ('<metatag><coarse-tags tag="t.tsx"/><beam-width val="3"/><defns><def-set name="S"><set-member tag="x"/><set-member str="ex"/></def-set><def-str name="T" tag="y"/><def-str name="U" str="am"/>'
       '<def-macro as="M"><ex-lemma><ex-wordoid><addr-of-ints><tokaddr/><wrdidx/></addr-of-ints></ex-wordoid></ex-lemma></def-macro>'
       '<def-macro as="N" args="a"><ex-surf><var name="a"/></ex-surf></def-macro></defns>'
       '<global-pred><not><eq><sentlen/><int val="0"/></eq></not></global-pred>'
       '<feats><feat><out><ex-surf><tokaddr/></ex-surf></out></feat>'
       '<feat><pred><eq><add><tokaddr/><int val="-1"/></add><toklen><int val="0"/></toklen></eq></pred><out><macro name="M"></macro></out></feat>'
       '<feat><out><macro name="N"><tokaddr/></macro></out><out-many><ex-tags><ex-wordoid><clamp><adjust><add><wrdaddr/><addr-of-ints><int val="-1"/><int val="0"/></addr-of-ints></add></adjust></clamp></ex-wordoid></ex-tags></out-many></feat>'
       '<feat><pred><or><strin name="S"><ex-lemma><ex-wordoid><wrdaddr/></ex-wordoid></ex-lemma></strin><streq name="T"><ex-coarse><subscript idx="0"><ex-wordoids><tokaddr/></ex-wordoids></subscript></ex-coarse></streq></or></pred>'
       '<out><join val="-"><slice start="0" end="1"><ex-ambgset><tokaddr/></ex-ambgset></slice></join></out></feat>'
       '<feat><out-many><for-each as="x"><ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags><var name="x"/></for-each></out-many><pred><and><sethasany val="x y"><ex-ambgset><tokaddr/></ex-ambgset></sethasany><lte><strlen><ex-surf><tokaddr/></ex-surf></strlen><arrlen><ex-ambgset><tokaddr/></ex-ambgset></arrlen></lte></and></pred></feat>'
       '</feats></metatag>')


def toks(x):
    return re.findall(r'<[^>]*>', x)


KINDS = {'newline': '\n\t ', 'comment': '<!-- c -->', 'comment with markup': '<!-- <rule> "x" \'&z; -->', 'spaced comment': ' \n<!--c-->\n ', 'empty comment': '<!---->'}


def attr_reverse(t):
    m = re.fullmatch(r'<([\w-]+)((?: [\w-]+="[^"]*")*)(/?)>', t)
    if not m:
        return t
    a = re.findall(r'[\w-]+="[^"]*"', m.group(2))
    return '<%s%s%s>' % (m.group(1), ''.join(' ' + x for x in reversed(a)), m.group(3))


TAGS = {
    'open and close': lambda t: re.sub(r'^<([\w-]+)(.*)/>$', r'<\1\2></\1>', t),
    'space before the end': lambda t: re.sub(r'(/?>)$', r' \1', t) if t[1] != '/' else t[:-1] + ' >',
    'attributes on lines': lambda t: re.sub(r' ([\w-]+)="', r'\n  \1 = "', t),
    'single quotes': lambda t: re.sub(r'="([^"]*)"', r"='\1'", t),
    'attributes reversed': attr_reverse,
    'references': lambda t: re.sub(r'="([^"&])', lambda m: '="&#%d;' % ord(m.group(1)), t),
    'hexadecimal references': lambda t: re.sub(r'([^"&])"', lambda m: '&#x%x;"' % ord(m.group(1)) if m.group(1) not in '=;' else m.group(0), t),
}
JOIN = lambda t: re.findall(r'<[^>]*>', re.sub(r'<([\w-]+)([^<>/]*)></\1>', r'<\1\2/>', ''.join(t)))      # <x></x> -> <x/>
HEADS = {'declaration': '<?xml version="1.0" encoding="UTF-8"?>\n', 'declaration, comment': '<?xml version="1.0"?><!-- x -->\n<!-- y -->', 'doctype': '<!DOCTYPE %s SYSTEM "%s.dtd">\n', 'declaration and doctype': '<?xml version="1.0" encoding="utf-8"?>\n<!-- x -->\n<!DOCTYPE %s>\n'}
