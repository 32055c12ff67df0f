#!/usr/bin/env python3
"""How sheet.json and defs.json here were made: from the XML token sheet the tool does not read, and the token
definitions, both at the pinned commit. They are the fixed reference the checks compare the tool with."""
import json, re, sys, xml.etree.ElementTree as ET
src = sys.argv[1]
t = ET.parse(src + '/src/calculator/tokens/standard_tokens/8X.xml').getroot()
out = {}
def ver(e):
    return None if e is None else [e.find('model').text or '', e.find('os-version').text or '']
def token(key, tok):
    for v in tok.findall('version'):
        l = [x for x in v.findall('lang') if x.get('code') == 'en'][0]
        ti = l.get('ti-ascii')
        out.setdefault(key, []).append({'since': ver(v.find('since')), 'until': ver(v.find('until')),
            'texts': [ti, l.get('display'), l.find('accessible').text or '']})
for e in t:
    if e.tag == 'token':
        token(e.get('value')[1:], e)
    elif e.tag == 'two-byte':
        for k in e.findall('token'):
            token(e.get('value')[1:] + k.get('value')[1:], k)
    else:
        sys.exit(e.tag)
json.dump(out, open('sheet.json', 'w'), ensure_ascii=False, indent=0, sort_keys=True)
json.dump(json.load(open(src + '/src/calculator/tokens/token_definitions.json')), open('defs.json', 'w'), ensure_ascii=False, indent=0, sort_keys=True)
print(len(out))
