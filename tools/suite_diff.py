"""Development aid: compare a test.sh result with the baseline."""
import json
import sys
base = json.load(open('/opt/vp/BASELINE.json'))
got = json.load(open(sys.argv[1]))
stable = set(base['stable'])
missing = sorted(stable - set(got['passed']))
print('stable', len(stable), 'passed', len(got['passed']), 'missing', missing)
sys.exit(1 if missing else 0)
