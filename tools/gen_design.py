#!/usr/bin/env python3
"""DESIGN.md from design_head.md, properties.jsonl, props.rs, rules.rs, not_applicable.json, seeded/ and design_tail.md"""
import json, os, re
R = '/verif/'
props = {d['id']: d for d in map(json.loads, open(R + 'properties.jsonl'))}
src = open(R + 'analyzer/src/props.rs').read()
scope, words = {}, {}
for m in re.finditer(r'prop!\("(P\d+)", \[(.*?)\](?:,\s*words: \[(.*?)\])?,\s*"', src, re.S):
    scope[m[1]] = re.findall(r'"([^"]+)"', m[2])
    words[m[1]] = re.findall(r'"([^"]+)"', m[3] or '')
rs = open(R + 'analyzer/src/rules.rs').read()
rules = {}
for m in re.finditer(r'\("(P\d+)", (\w+)\)', rs):
    f = rs[rs.index('fn %s(' % m[2]):]
    t = re.search(r'"([^"]{25,}?)"', f)[1]
    rules.setdefault(m[1], []).append(t)
seeds = {}
for s in sorted(os.listdir(R + 'seeded')):
    d = json.load(open(R + 'seeded/%s/meta.json' % s))
    seeds.setdefault(d['property'], []).append((s, d))
out = open(R + 'tools/design_head.md').read()
for i, d in props.items():
    if i not in scope:
        continue
    out += '### %s %s\n\n' % (i, d['title'])
    out += '*Contracts:* functions of ' + ', '.join('`%s`' % x for x in scope[i] if not x.startswith('-'))
    ex = [x[1:] for x in scope[i] if x.startswith('-')]
    if ex:
        out += ' except ' + ', '.join('`%s`' % x for x in ex)
    if words[i]:
        out += '; only effects mentioning ' + ', '.join(words[i])
    out += '.'
    if i in rules:
        out += ' *Rules:* ' + '; '.join(rules[i]) + '.'
    out += ' *Tests cannot:* ' + d['why_tests_cant']
    if i in seeds:
        out += ' *Planted:* ' + ', '.join(s for s, _ in seeds[i]) + '.'
    out += '\n\n'
out += '## 4. Not applicable\n\n'
for d in json.load(open(R + 'not_applicable.json')):
    out += '* **%s %s** — %s\n' % (d['property'], props[d['property']]['title'], d['reason'])
tab = '| planted bug | property whose check reports it | needs |\n|---|---|---|\n'
for p in sorted(seeds):
    for s, d in seeds[p]:
        tab += '| %s | %s | %s |\n' % (s, p, d['needs'].replace('|', '/').replace('\n', ' '))
out += open(R + 'tools/design_tail.md').read().replace('SEEDTABLE', tab)
open(R + 'DESIGN.md', 'w').write(out)
