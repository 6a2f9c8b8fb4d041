#!/usr/bin/env python3
"""One-off: writes lib/formats.py, the declared behaviour of every format as plain
Python regular expressions (reviewed by hand; never regenerated by a check)."""
import re, sys, pprint
import xml.etree.ElementTree as ET
S = '/repo/apertium/'


def conv(p):
    """flex pattern -> list of alternative Python patterns (str over bytes)"""
    p = p.rstrip(' ')
    out, alts, i, d = '', [], 0, 0
    while i < len(p):
        c = p[i]
        if c == '"':
            j = i + 1
            lit = ''
            while p[j] != '"':
                if p[j] == '\\':
                    j += 1
                    lit += {'n': '\n', 't': '\t', 'r': '\r'}.get(p[j], p[j])
                else:
                    lit += p[j]
                j += 1
            e = re.escape(lit)
            out += e if len(lit) == 1 else '(?:%s)' % e
            i = j + 1
        elif c == '[':
            j = i + 1
            neg = p[j] == '^'
            if neg:
                j += 1
            k = j
            while p[k] != ']' or k == j:
                k += 2 if p[k] == '\\' else 1
            body = p[j:k].replace('[', '\\[')
            if body.startswith(']'):
                body = '\\]' + body[1:]
            if body.startswith('^') and not neg:
                body = '\\' + body
            out += '[' + ('^' if neg else '') + body + ']'
            i = k + 1
        elif c == '(':
            out += '(?:'
            d += 1
            i += 1
        elif c == ')':
            out += c
            d -= 1
            i += 1
        elif c == '|' and d == 0:
            alts.append(out)
            out = ''
            i += 1
        elif c == '\\':
            out += p[i:i + 2]
            i += 2
        else:
            assert c.isalnum() or c in "*+?^{},_=|';-.", (p, c)
            out += c if c != '=' else '='
            i += 1
    alts.append(out)
    return [a for a in alts if a]


def unwrap(p):
    # one pair of parentheses around the whole pattern
    return p


F = {}
for f in 'txt html html-alt html-noent odt rtf wxml xlsx pptx mediawiki latex xpresstag'.split():
    r = ET.parse(S + f + '-format.xml').getroot()
    o = {x.tag: x.attrib for x in r.find('options')}
    esc = o['escape-chars']['regexp']
    sp = o['space-chars']['regexp']
    rules = []
    ents = []
    for x in r.find('rules'):
        if x.tag == 'format-rule':
            a = x.attrib
            b, t = x.find('begin'), x.find('tag')
            rules.append(dict(begin=conv((b if b is not None else t).attrib['regexp']), end=conv(x.find('end').attrib['regexp']) if b is not None else None,
                              eos=a.get('eos') == 'yes', eoh=a.get('eoh') == 'yes', prio=int(a['priority'])))
        else:
            un = lambda s: re.sub(r'\\(.)', lambda m: {'n': '\n', 'r': '\r'}.get(m.group(1), m.group(1)), s)
            m = {}
            for c in x.findall('replace'):
                m[un(c.attrib['source'])] = c.attrib['target']
            ents.append((conv(x.attrib['regexp']), m))
    F[f] = dict(escape=conv(esc), space=conv(sp), caseless=o['case-sensitive']['value'] == 'no', rules=rules, entities=ents)
with open('/verif/lib/formats.py', 'w') as g:
    g.write('"""The declared behaviour of every document format (see DESIGN.md, P24/P25)."""\nF = ')
    g.write(pprint.pformat(F, width=180, sort_dicts=False))
    g.write('\n')
