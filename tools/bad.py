"""summary of the last replay file of a property: python3 tools/bad.py C09 [fields...]"""
import collections, json, sys
rs = json.load(open(f"/verif/evidence/replays/{sys.argv[1]}.json"))
print(collections.Counter(r["clause"] for r in rs))
seen = set()
for r in rs:
    if r["clause"] in seen: continue
    seen.add(r["clause"])
    rec = r["record"]
    print("==", r["clause"], list(rec))
    for f in sys.argv[2:]:
        print("  ", f, json.dumps(rec.get(f))[:1500])
