#!/usr/bin/env python3
"""Development: build IR for some properties and run their jobs.  dev.py C02 C03 [-t] [--only pattern] [--nobuild]"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import jobs
a = sys.argv[1:]; tier = 'thorough' if '-t' in a else 'quick'
only = a[a.index('--only') + 1] if '--only' in a else ''
props = [x for x in a if re.fullmatch(r'C\d\d', x)]
ll = V + '/work/dev.ll'
os.makedirs(V + '/work/dev', exist_ok=True)
if '--nobuild' not in a:
    if subprocess.run(['bash', V + '/tools/build_ll.sh', ll, ','.join(p.lower() for p in props)]).returncode: sys.exit(2)
js = [j for p in props for j in jobs.expand(jobs.PROPS[p]) if (tier == 'thorough' or j['tier'] == 'quick') and only in j['id']]
js.sort(key=lambda j: -j['cost'])
out = V + '/work/dev'
for f in os.listdir(out): os.remove(out + '/' + f)
open(V + '/work/dev.tsv', 'w').write(''.join('%s\t%s\t%s\t%d\n' % (j['id'], j['entry'], ','.join(map(str, j['args'])), j['secs']) for j in js))
extra = ['--profile'] if '--profile' in a else []
np = '0' if '--profile' in a else '8'
subprocess.run([V + '/target/engine/release/symex', ll, V + '/work/dev.tsv', out, np] + extra, env=dict(os.environ, SYMEX_MEM_GB=str(jobs.MEM_GB)))
tot = 0
reach = {}
for j in js:
    r = json.load(open('%s/%s.json' % (out, j['id'])))
    for k, n in r.get('reach', {}).items(): reach[k] = reach.get(k, 0) + n
    tot += r.get('wall_s', 0)
    if r['status'] != 'ok' or r.get('wall_s', 0) > 5 or '-v' in a:
        print(j['id'], r['status'], r.get('kind', ''), r.get('msg', '')[:400], 'paths', r.get('paths'), 'q', r.get('queries'), 'solver', r.get('solver_s'), 'wall', r.get('wall_s'), r.get('inputs', ''), 'panics_ok', r.get('panics_ok'))
        if r['status'] != 'ok':
            for b in r.get('backtrace', [])[:12]: print('      ', b[:160])
print('jobs', len(js), 'cpu', round(tot, 1))
for p in props:
    for l in re.findall(r'sym::reach\("([^"]*)"\)', open('%s/harness/src/%s.rs' % (V, p.lower())).read()):
        if l not in reach: print('NOT REACHED', p, l)
