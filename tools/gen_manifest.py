#!/usr/bin/env python3
# Writes MANIFEST.json from the table below and properties.jsonl.
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L="runs the real code on generated and hostile workloads; the oracle judges every observed step, so the claim is bounded by the executions listed in the evidence file"
T={
"C01":("reference-ledger monitor over raw state snapshots","conservation and canonical form of all balances after every ABCI call and exact transfer deltas, in random histories of signed transactions"),
"C02":("reference-ledger monitor over raw state snapshots","every decrease of a balance must be a transfer or fee of a signer"),
"C03":("signature-forgery mutation monitor with independent verifier","every mutant of valid transactions must be refused and every valid one accepted"),
"C04":("sequence monitor over histories with replays and gaps","sequences compared with a reference model after every call"),
"C05":("whole-database snapshot comparison around calls","read-only calls byte-identical; refused transactions leave application objects as they were"),
"C14":("reference-ledger monitor of fees","fee moved once per authenticated transaction"),
"C16":("account-number monitor over histories","numbers consecutive and unique after every step"),
"C25":("snapshot comparison of failing transactions","only authentication effects remain after a failed message"),
}
def load(name):
    p=os.path.join(root,"tools",name)
    return json.load(open(p)) if os.path.exists(p) else {}
T.update({k:tuple(v) for k,v in load("claims.json").items()})
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
m={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"verif","enable":"go build -tags verif (harness compiled into the module by -overlay, see build.sh)","source_commits":["5a0c1d7"]},
 "checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in T:
        t,n=T[i]
        m["checks"].append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,
          "technique":"runtime monitoring: "+t,"level":"exploration","level_note":n+"; "+L})
    else:
        m["not_applicable"].append({"property":i,"reason":"monitor not built yet"})
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); print(len(m["checks"]),"checks")
