#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="deterministic simulation with fault injection (seeded scheduler over the real code)"
NOTE={
"C01":"Real generator code under a seeded scheduler with a statement-level scheduling point in every repository function; clock faults at any reading.",
"C02":"Several simulated nodes with crash and restart at arbitrary instants; assumes distinct machine ids and restart in a later millisecond, as the statement does.",
"C03":"Timestamps and progress bounds judged against the simulated clock.",
"C04":"Real query helpers over database/sql on a simulated server; faults at every driver call.",
"C05":"A client follows whole page chains over a simulated table, with failed requests retried.",
"C06":"Reused variables scanned through database/sql from a simulated server, compared with fresh ones.",
"C07":"Pools of one or two connections on simulated servers (in-process driver and real lib/pq over a simulated network); open sessions and goroutines counted afterwards.",
"C08":"Concurrent transaction clients on a simulated transactional server, judged against a reference model of committed effects.",
"C09":"Close raced with operations, other closes and the ticker; goroutines, sessions and pings counted over later simulated time.",
"C10":"Hours of simulated time with outages; every ping slot is checked.",
"C11":"Random builder programs, sequential and concurrent, against a reference model of statement text and arguments.",
"C12":"Random parameter-set histories against the process-wide query cache.",
"C13":"Race detector build driven by the seeded scheduler; simulator itself uninstrumented so that it adds no ordering.",
"C14":"Real lib/pq listener over a simulated network and server.",
"C15":"Real lib/pq listener; connection loss, context end and close at arbitrary points.",
"C16":"Real golang-migrate over the simulated server; a fault or crash at every statement.",
"C17":"Several simulated processes migrating one simulated server.",
"C18":"Random catalogs, both dialects, faults at every driver call; compared with the catalog.",
"C19":"Random foreign-key graphs and call histories; compared with graph closure.",
"C20":"The real command run repeatedly under different runtime random streams; outputs compared byte by byte.",
"C21":"File operations of the process under test fail, tear or run out of space at chosen points.",
"C22":"Writer, reader and replicator nodes over simulated storage (Postgres wire protocol and in-process drivers, session time zones) and a lossy link; compared with what was written.",
"C23":"Real lib/pq and go-mssqldb log in to simulated servers; what each server was told is compared with the parts the connection string was written from; configuration files change and fail meanwhile.",
"C24":"Concurrent read-merge-write clients on a simulated database with faults and retries; rows compared with a field-by-field reference over the updates they hold.",
}
NA={
}
WIP={}
claimed=json.load(open(os.path.join(V,"tools","claimed.json")))
checks=[];na=[]
for l in open(os.path.join(V,"properties.jsonl")):
    p=json.loads(l)["id"]
    if p in claimed:
        checks.append({"property":p,"quick_cmd":f"bash ./run.sh {p}","thorough_cmd":f"bash ./run.sh {p}","technique":TECH,"level":"exploration","level_note":NOTE[p]})
    elif p in NA: na.append({"property":p,"reason":NA[p]})
    else: na.append({"property":p,"reason":"The check is still being built."})
m={"version":1,"setup_cmd":"bash ./run.sh build","checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
