"""show replay files briefly: tools/rp.py FILE.."""
import json, sys
for f in sys.argv[1:]:
    d = json.load(open(f))
    print('##', f, d['error'][:300])
    print(json.dumps(d['case'])[:1500])
    print('\n'.join(l for l in d['traceback'].split('\n') if '^^^' not in l and 'vf/' not in l)[-1400:])
