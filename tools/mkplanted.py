"""The table of planted changes for DESIGN.md, from seeded/*/meta.json and a file of recheck results (id property rc=N viol=N)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
got = {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else ():
    w = l.split()
    if len(w) > 3 and w[2].startswith('rc='): got[w[0]] = w[2] == 'rc=1' and w[3] != 'viol=0'
by = {}
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    by.setdefault(m['property'], []).append((b, m['needs']))
print('| check | catches |\n|---|---|')
for p in sorted(by):
    print('| %s | %s |' % (p, '; '.join(b if got.get(b, True) else b + ' **(missed)**' for b, n in by[p])))
sys.stderr.write('%d planted, %d rechecked, %d caught\n' % (sum(map(len, by.values())), len(got), sum(got.values())))
