#!/usr/bin/env python3
"""Write MANIFEST.json: one entry per property, claimed ones as checks."""
import json
SCHED = "stateless model checking of the real server under a controlled scheduler and environment (deviation-bounded exhaustive)"
FAULT = "exhaustive enumeration of fault points and schedules of the real server in a controlled environment"
ENUM = "bounded-exhaustive enumeration of inputs and operation histories on the real code against an independent reference model"
PROC = "bounded-exhaustive enumeration of protocol histories on the real binary against a reference model"
import sys
sys.path.insert(0, '/verif')
from claims import CLAIMS
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
T = {'sched': SCHED, 'fault': FAULT, 'enum': ENUM, 'proc': PROC}
checks = []
na = []
for p in props:
    if p in CLAIMS:
        t, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
                           technique=T[t], level="model_checking", level_note=note))
    else:
        na.append(dict(property=p, reason="not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks use its public API and binaries only. The select! macro's branch order is controlled by a patched copy of futures-util in mc/vendor; p256 and x25519-dalek are patched copies that only memoize products.")
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
