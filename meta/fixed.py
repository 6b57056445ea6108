"""python3 meta/fixed.py PROP COMMIT text...: records a repaired defect"""
import json, sys
p, c, w = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
open("/verif/known_findings.jsonl", "a").write(json.dumps(dict(property=p, status="fixed", commit=c, what="fixed: property=%s %s %s" % (p, c, w))) + "\n")
