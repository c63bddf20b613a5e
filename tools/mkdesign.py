"""Fills the generated tables of DESIGN.md (run after quick runs of all)."""
import json
import pathlib
import re

root = pathlib.Path(__file__).parent.parent
rows = ['| property | cases | oracle evaluations | distinct situations | wall s |',
        '|---|---|---|---|---|']
for p in sorted((root / 'evidence').glob('P*.json')):
    e = json.loads(p.read_text())
    c = e['coverage']
    if e['tier'] == 'quick':
        rows.append(f"| {p.stem} | {sum(c['cases'].values())} | "
                    f"{c['evaluations']} | {c['distinct_nontrivial']} | "
                    f"{round(e['wall_s'])} |")
seeds = ['| planted bug | property | needs | check |', '|---|---|---|---|']
for p in sorted((root / 'seeded').glob('*/meta.json')):
    m = json.loads(p.read_text())
    seeds.append(f"| {p.parent.name} | {m['property']} | {m['needs']} | "
                 f"{m.get('caught', 'caught')} |")
f = root / 'DESIGN.md'
t = f.read_text()
for name, table in [('COST', rows), ('SEEDS', seeds)]:
    t = re.sub(f'<!-- {name} -->.*?<!-- /{name} -->',
               lambda _: f'<!-- {name} -->\n' + '\n'.join(table)
               + f'\n<!-- /{name} -->', t, flags=re.S)
f.write_text(t)
