"""DESIGN.md = head + one entry per property (from the specs) + planted bugs + tail"""
import sys, json, os, importlib; sys.path.insert(0, '/verif')
out = open('/verif/tools/design_head.md').read() + "\n## Properties\n"
man = json.load(open('/verif/MANIFEST.json')); na = {x.get('property_id') or x.get('property') or x.get('id'): x.get('reason') for x in man.get('not_applicable', [])}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); i = p['id']; out += f"\n### {i} {p['title']}\n"
    try: m = importlib.import_module('specs.' + i.lower())
    except ImportError: out += "Not claimed: " + str(na.get(i)) + "\n"; continue
    out += f"Level: {m.LEVEL}. {m.NOTE[0].upper() + m.NOTE[1:]}.\n"
    g = m.groups()
    if g: out += "Under contract: " + "; ".join(dict.fromkeys(c.title for G in g for c in G.contracts)) + ".\n"
    b = [x for B in m.batteries() for x in B.bounded]
    if b: out += "Bounded: " + "; ".join(b) + ".\n"
    if m.ASSUMPTIONS: out += "Assumed: " + "; ".join(m.ASSUMPTIONS) + ".\n"
out += "\n## Planted bugs\nEach is caught by the check of its property (VIOLATION, with a concrete failing input unless noted); `seeded/<id>/`.\n\n"
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json')); out += f"- {d} ({m['property']}): {m['what_it_breaks']}; needs {m['needs']}.\n"
open('/verif/DESIGN.md', 'w').write(out + "\n" + open('/verif/tools/design_tail.md').read())
