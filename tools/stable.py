# compare a test.sh result with the stable baseline: python3 stable.py OUT.json
import json, sys
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
t = json.load(open(sys.argv[1]))
miss = sorted(b - set(t["passed"]))
print("stable tests not passing:", len(miss), miss[:5])
sys.exit(1 if miss else 0)
