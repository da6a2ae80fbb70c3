"""compare a test.sh result with the baseline's stable list"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
st = set(b['stable'])
ps = set(o.get('passed', [])) if isinstance(o.get('passed'), list) else {k for k, v in o.items() if v == 'passed'}
miss = sorted(st - ps)
print('stable missing:', miss)
