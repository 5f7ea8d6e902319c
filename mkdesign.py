"""Writes DESIGN.md from design.tmpl.md, the rules stated by the checks, known_findings.txt and the descriptions of the seeded changes (run by hand)."""
import json, os, glob, importlib, re
H = os.path.dirname(os.path.abspath(__file__))
t = open(os.path.join(H, 'design.tmpl.md')).read()
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
out = []
for p in props:
    try: m = importlib.import_module('sa.checks.' + p['id'].lower())
    except ImportError: continue
    a = p['anchors']['mechanism']
    out.append(f"### {p['id']} {p['title']}\n\n*Decided by*: {m.RULE}\n\n*Bounds and assumptions*: {'; '.join(m.ASSUMPTIONS)}.\n\n"
               f"*Quantifies over*: {p['quantifier']['text']} *Beyond tests*: {p['why_tests_cant']}\n\n*Anchored in*: " + ', '.join(f"{x['name']} (`{x['where'].replace('GPy_ABCD/', '')}`)" for x in a) + '.\n')
t = t.replace('@@PROPS@@', '\n'.join(out))
fx = [re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups() for l in open(os.path.join(H, 'known_findings.txt')) if l.startswith('fixed:')]
t = t.replace('@@FIXES@@', '\n'.join(f'| {a} | {b} | {c.strip()} |' for a, b, c in fx))
rows = ['| change | property (= check that catches it) | what it breaks | what it needs |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = t.replace('@@SEEDS@@', '\n'.join(rows))
camp = os.path.join(H, 'campaign.md')
t = t.replace('@@CAMP@@', open(camp).read() if os.path.exists(camp) else '(in progress)')
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
