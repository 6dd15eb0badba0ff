"""Add the shrunk case of a replay file to the regression corpus: pin.py REPLAY 'where it comes from'."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
os.makedirs(os.path.join(HERE, 'pbt', 'corpus'), exist_ok=True)
p = os.path.join(HERE, 'pbt', 'corpus', d['property'] + '.jsonl')
old = [json.loads(l) for l in open(p)] if os.path.exists(p) else []
if all(o['case'] != d['case'] for o in old) and len(json.dumps(d['case'])) < 6000:
    with open(p, 'a') as f:
        f.write(json.dumps(dict(source=sys.argv[2], case=d['case'])) + '\n')
    print('pinned', d['property'])
