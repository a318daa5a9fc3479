"""the errors in the last replay file of a property: python3 tools/trace.py C15 [clause]"""
import collections, json, sys
rs = json.load(open(f"/verif/evidence/replays/{sys.argv[1]}.json"))
print(collections.Counter(r["clause"] for r in rs))
def find(x):
    if isinstance(x, dict):
        if isinstance(x.get("trace"), str) and x["trace"]:
            return x["trace"]
        x = list(x.values())
    if isinstance(x, list):
        for v in x:
            if t := find(v):
                return t
print(collections.Counter(find(r["record"]) for r in rs if len(sys.argv) < 3 or r["clause"] == sys.argv[2]).most_common(1)[0][0])
