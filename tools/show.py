"""Short listing of the last violations of a property, grouped by message."""
import glob, json, sys, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = {}
for f in sorted(glob.glob(os.path.join(here, 'replays', sys.argv[1], '*.json'))):
    d = json.load(open(f))
    m = d['message'].strip().split('\n')
    seen.setdefault(re.sub(r'[0-9.e+-]+', '#', m[0])[:45], []).append((d['case'], m))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 2
for k, v in list(seen.items())[:int(sys.argv[3]) if len(sys.argv) > 3 else 8]:
    print('### %d x' % len(v), v[0][1][0][:260], '|', ' / '.join(x.strip() for x in v[0][1][-5:])[:700] if len(v[0][1]) > 1 else '')
    for c, m in v[:n]:
        print('    ', json.dumps(c)[:330])
