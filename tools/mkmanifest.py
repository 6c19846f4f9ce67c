import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg=json.load(open(V+"/specs/props.json"))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA=json.load(open(V+"/tools/not_applicable.json"))
checks=[]
for p in props:
    c=cfg.get(p["id"])
    if not c: continue
    checks.append(dict(property=p["id"],quick_cmd="./check.sh %s quick"%p["id"],thorough_cmd="./check.sh %s thorough"%p["id"],
        technique=c.get("technique","contracts on the Go functions of /repo, verified function by function from their SSA by gocv (symbolic execution, loop invariants by summarisation, SMT: z3, cvc5); concrete replay of the contract on the compiled package"),
        level=c["level"],level_note=c.get("note","")))
m=dict(version=1,setup_cmd="./build.sh",checks=checks,
  not_applicable=[dict(property=p["id"],reason=NA.get(p["id"],"no check yet: contracts for this part are not written")) for p in props if p["id"] not in cfg],
  notes="No hooks in /repo: gocv reads the SSA of the working tree, and the concrete harnesses are compiled into the packages through go test -overlay.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
