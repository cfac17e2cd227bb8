"""DESIGN.md from tools/DESIGN.in, known-findings.json and tools/caught.json"""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
s = (V / 'tools/DESIGN.in').read_text()
fx = []
for l in json.loads((V / 'known-findings.json').read_text())['fixed']:
    _, p, c, w = l.split(' ', 3)
    fx.append(f'| {p.split("=")[1]} | `{c}` | {w} |')
s = s.replace('@@FIXES@@', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fx))
b = ['| change | what it breaks | caught by |', '|---|---|---|']
cc = json.loads((V / 'tools/caught.json').read_text())
for n, d in cc.items():
    m = json.loads((V / 'seeded' / n / 'meta.json').read_text())
    by = f"{d['property']}: {d['violations']} obligations, e.g. " + '; '.join(f'`{x}`' for x in d['by'][:2]) if d['caught'] else '**missed**'
    b.append(f"| {n} | {m['what_it_breaks']} | {by} |".replace('\n', ' '))
s = s.replace('@@BUGS@@', '\n'.join(b))
(V / 'DESIGN.md').write_text(s)
