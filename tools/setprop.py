"""setprop.py ID FIELD OLD NEW: replaces text in one field of one property of properties.jsonl."""
import json
import sys

pid, field, old, new = sys.argv[1:]
out = []
for line in open("/verif/properties.jsonl"):
    d = json.loads(line)
    if d["id"] == pid:
        assert d[field].count(old) == 1, (pid, field, d[field])
        d[field] = d[field].replace(old, new)
    out.append(json.dumps(d, ensure_ascii=False) + "\n")
open("/verif/properties.jsonl", "w").writelines(out)
