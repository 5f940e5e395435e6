import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="deterministic simulation: the real contracts on simulated chains under a seeded scheduler with fault injection; "
how={
"C01":"every process attempt checked against a delivered-set model",
"C02":"every verify answer checked against a reference quorum rule over independently rebuilt metadata",
"C03":"end-to-end history check: every quorum-based delivery has an earlier matching dispatch",
"C04":"call-tree oracle for process plus twin recipient_ism query",
"C05":"nonce/id reference model over the dispatch history",
"C06":"reference merkle tree over the dispatch history",
"C07":"call-tree and balance oracle on every dispatch",
"C08":"predict-then-execute: exactly quoted dispatches in the same state must commit",
"C09":"payment conservation and predict-then-execute against a reference quote",
"C10":"reference quote and registry model compared with every answered quote",
"C11":"token-conservation invariant after every transaction",
"C12":"authorisation oracle on every mint, release and outgoing transfer",
"C13":"ownership state-machine model compared after every transaction",
"C14":"full configuration read back after every transaction and compared with an owner-driven model",
"C15":"pause model: gates checked in every call tree, liveness predicted",
"C16":"routing model compared with every routed verification",
"C17":"reference threshold rule over the members' real answers",
"C18":"routing model compared with every forwarded call and quote",
"C19":"call-tree oracle: order, payload and payment of every member hook",
"C20":"fee acceptance rule and custody invariant",
"C21":"reference map compared with lookups and paged walks",
"C22":"announcement log model with independent signature recovery",
"C23":"migration battery plus differential twin run without upgrades",
"C24":"bounded liveness: after faults stop every owed message is delivered",
"C26":"every committed call's events compared with what the reference model says it did",
}
checks=[]
for p in props:
    i=p['id']
    if i=='C25': continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":T+how[i],"level":"exploration","level_note":"seeded search over schedules, inputs and faults; it shows violations with a replayable minimised schedule and does not prove their absence"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,
"not_applicable":[{"property":"C25","reason":"wire encodings are pure functions of their input: no schedule, clock, I/O, party or fault can influence them, so simulation would degenerate to plain input fuzzing; the encodings that travel in simulated runs are still compared byte for byte by C03, C05, C09 and C11"}]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
