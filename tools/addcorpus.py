"""addcorpus.py replay/*.json : keep the passing cases of repaired failures as regression cases in corpus/"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    r = json.load(open(f))
    rc = subprocess.run([os.path.join(HERE, 'check'), '--replay', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if rc.returncode != 0 or 'out of the domain' in rc.stdout:
        print('skipped', f, rc.stdout.strip().splitlines()[-1][:100] if rc.stdout else '')
        continue
    p = os.path.join(HERE, 'corpus', r['property'] + '.jsonl')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    line = json.dumps({'part': r['part'], 'case': r['case']})
    have = open(p).read().splitlines() if os.path.exists(p) else []
    if line not in have:
        with open(p, 'a') as fh:
            fh.write(line + '\n')
