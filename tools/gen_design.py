"""fills the tables of DESIGN.md (tools/design.md is the text) from properties.jsonl, tools/design_rows.json and tools/seed_results.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = json.load(open(H + '/tools/design_rows.json'))
t = open(H + '/tools/design.md').read()
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
t = t.replace('@@TABLE@@', '\n'.join('| %s | **%s.** %s |' % (p['id'], p['title'], rows.get(p['id'], '')) for p in props if p['id'] != 'C23'))
seeds = json.load(open(H + '/tools/seed_results.json')) if os.path.exists(H + '/tools/seed_results.json') else {}
s = '| planted bug | property | caught | by |\n|---|---|---|---|\n'
for k in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % k))
    r = seeds.get(k, {})
    s += '| %s | %s | %s | %s |\n' % (k, m['property'], r.get('caught', '?'), r.get('by', ''))
open(H + '/DESIGN.md', 'w').write(t.replace('@@SEEDS@@', s))
