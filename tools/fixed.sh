#!/bin/bash
# fixed.sh PROP COMMIT what   -- record a repaired defect
python3 - "$@" <<'P'
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/known-findings.jsonl','a').write(json.dumps({"status":"fixed","property":p,"commit":c,"entry":f"fixed: property={p} {c} {w}"})+"\n")
P
