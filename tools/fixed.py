"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
K = json.load(open(P))
K.append(dict(property=sys.argv[1], status="fixed", key="", what="fixed: property=%s %s %s" % tuple(sys.argv[1:4])))
json.dump(K, open(P, "w"), indent=1)
