"""Developer aid: writes design/20-detection.md from the planted changes (seeded/*/meta.json) and the log of lib/plant.sh given as arguments.
A plant that a check missed when it was first run is listed in design/first-missed.txt with what was strengthened."""
import glob, json, re, sys
res = {}
try:
    for l in open('/verif/design/detection.log'):
        i, r = l.split(maxsplit=1); res[i] = r.strip()
except FileNotFoundError: pass
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) \[(\w+)\].*demo=0->([1-9]\d*) check=(\d+)\s*(.*)', l)
        if m: res[m[1]] = 'missed' if m[4] == '0' else f"caught [{(re.search(r'\[([^\]]*)\]', m[5]) or ['',''])[1]}]"
missed = dict(l.rstrip('\n').split(' ', 1) for l in open('/verif/design/first-missed.txt'))
ids = sorted(p.split('/')[-2] for p in glob.glob('/verif/seeded/*/meta.json'))
res = {i: r for i, r in res.items() if i in ids}
open('/verif/design/detection.log', 'w').write(''.join(f'{i} {res[i]}\n' for i in sorted(res)))
out = ["## Planted changes and the checks that catch them\n",
       f"{len(ids)} changes are planted (`seeded/<id>/`), each written from a property's text and the code, confirmed with `lib/plant.sh` (builds, every existing test passes, `demo.sh` passes before and fails after). Each is run against the check of its property; the exploration and failure key that reported it is shown. The last column says what was strengthened when a check missed the change at first.\n",
       "| change | what it needs to show | result | strengthened |", "|---|---|---|---|"]
for i in ids:
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    out.append(f"| {i} | {m['needs']} | {res.get(i,'not run')} | {missed.get(i,'')} |")
open('/verif/design/20-detection.md', 'w').write('\n'.join(x.replace('\n',' ') if x.startswith('|') else x for x in out) + '\n')
print(len(ids), sum(r.startswith('caught') for r in res.values()))
