#!/usr/bin/env python3
# writes MANIFEST.json: one check per property for which contracts exist
import json,glob,re
props=set()
for f in glob.glob('/verif/contracts/**/*.go',recursive=True):
    m=re.search(r'^// verif:properties (.*)$',open(f).read(),re.M)
    if m: props|=set(m.group(1).split())
na=[("C21","liveness over unbounded schedules and failures: termination of a call depends on remote nodes and connections, which partial-correctness contracts cannot express"),
("C22","the generated code is produced by the reflective text/template interpreter from parsed source text; neither is within the verifier's subset, and the property quantifies over programs")]
have=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
for p in have:
    if p not in props and p not in [x[0] for x in na]:
        na.append((p,"check not built yet"))
notes={}
for l in open('/verif/tools/level_notes.txt'):
    k,_,v=l.strip().partition(' ')
    notes[k]=v
checks=[]
for p in have:
    if p in props:
        checks.append({"property":p,"quick_cmd":"./check.sh %s quick"%p,"thorough_cmd":"./check.sh %s thorough"%p,
          "technique":"contract-based deductive verification of the real code (go/ssa verification conditions, z3/cvc5)",
          "level":"proof","level_note":notes.get(p,notes["DEFAULT"])})
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,
  "not_applicable":[{"property":p,"reason":r} for p,r in sorted(na)],
  "notes":"The verifier is /verif/engine, contracts are in /verif/contracts, concrete replays in /verif/witness. No hooks are needed in /repo."},open('/verif/MANIFEST.json','w'),indent=1)
