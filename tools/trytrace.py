import sys, random, json, subprocess, time
sys.path.insert(0, '/verif/tools')
import hsmgen, lib
exe = sys.argv[1]; N = int(sys.argv[2]); feat = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
r = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
runs = []; txt = ''
for i in range(1, N+1):
    m = hsmgen.gen_machine(r, feat); ops = hsmgen.gen_script(r, m); runs.append((i, m, ops)); txt += hsmgen.enc_run(i, [m], ops)
t=time.time()
out = subprocess.run([exe, '10'], input=txt, stdout=subprocess.PIPE, text=True).stdout
print('harness', time.time()-t)
res = hsmgen.parse_out(out)
bad = [(i, res[i]['end']) for i, _, _ in runs if res[i]['end'] != 0]
print('crashed', bad[:10], len(bad))
from collections import Counter
c = Counter(o['k'] for x in res.values() for l in x['obs'].values() for o in l); print(c)
with open('/tmp/w/runs.ndjson', 'w') as f:
    for i, m, ops in runs:
        if res[i]['end'] == 0:
            f.write(json.dumps(hsmgen.tla_run(i, m, ops, res[i])) + '\n')
t=time.time()
x = lib.tlc('HsmTrace', env=dict(RUNS='/tmp/w/runs.ndjson', COMPARE='api'))
print('tlc', time.time()-t, x['states'], x['ok'], x['violated'])
if not x['ok']: print(x['out'][-6000:])
