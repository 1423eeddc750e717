# compares a test result with the baseline: stable.py OUT.json
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(sys.argv[1]))
miss = [x for x in b['stable'] if x not in set(t['passed'])]
print(len(b['stable']), "stable,", len(miss), "not passing:", miss[:10]); sys.exit(1 if miss else 0)
