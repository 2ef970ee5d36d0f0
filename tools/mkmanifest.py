#!/usr/bin/env python3
# Regenerates MANIFEST.json from the property list and the checks built into the harness.
import json,os,subprocess,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("model-based runtime monitoring","every operation and read is compared with a reference ranking on random histories; sampled, not exhaustive"),
"C02":("structural invariant monitor + independent storage decoder","checked after every operation of random histories, in memory and on stored blobs"),
"C03":("model-based runtime monitoring","queries at, between and beyond every score and percentile of sampled lists"),
"C04":("model-based runtime monitoring","neighbours and before/after ranks compared with the reference ranking on sampled histories"),
"C05":("model-based runtime monitoring across save/reload","reloads from the same storage at random points of sampled histories"),
"C06":("model-based runtime monitoring of two lists","clone and later histories on both sides, sampled"),
"C07":("round-trip monitor with stream corruption","backup/restore of sampled lists, truncations and corruptions of the stream"),
"C08":("race detector, linearizability checking, deadlock watchdog","recorded concurrent histories under the Go race detector; interleavings are sampled with injected delays"),
"C09":("race detector, linearizability checking, deadlock watchdog","as C08 with the manager's background services running"),
"C10":("storage fault injection with outcome monitor","a fault at every storage call of each sampled operation, plus random bursts"),
"C11":("damage injection with independently computed expectation","sampled lists and damages"),
"C12":("blob inventory monitor","stored keys compared with those reachable according to an independent decoder"),
"C13":("model-based runtime monitoring","random histories on every store and wrapper stack"),
"C14":("race detector and linearizability checking (porcupine)","sampled concurrent histories per key"),
"C15":("write-order monitor and race detector","observes every write reaching the wrapped store on sampled histories"),
"C16":("model-based runtime monitoring with fault injection","sizes around the limits, every part failing or missing"),
"C17":("scripted error sequences with attempt counting monitor","sampled scripts"),
"C18":("model-based runtime monitoring, race detector","sampled directories, all page sizes, concurrent changes"),
"C19":("round-trip monitor with fault injection and corruption","sampled directories, truncations and byte changes"),
"C20":("differential monitoring against a naive reference","sampled collections including large ones"),
"C21":("invariant monitoring over generated floats","boundary and random values"),
"C22":("round-trip monitor and mutation fuzzing","sampled values, every truncation of small values, mutated bytes"),
"C23":("model-based runtime monitoring of many lists","sampled interleaved histories on a shared cache and store"),
"C24":("model-based monitoring of HTTP traffic","real server in a child process, sampled traffic"),
"C25":("access rule monitor over HTTP traffic","real server with authentication on, sampled tokens and targets"),
"C26":("model-based monitoring of HTTP traffic","real server, sampled selections"),
"C27":("model-based monitoring of HTTP traffic","real server, sampled lifecycles"),
"C28":("acknowledgement log checked after restart","real server processes shut down at random points under traffic"),
"C29":("acknowledgement log checked after SIGKILL","writer processes killed at random points; a process kill, not a power loss"),
"C30":("model-based monitoring with fault injection","sampled jobs, polled concurrently"),
"C31":("result monitor under injected cancellation, race detector","sampled interleavings of cancelled and live calls on a blocking store"),
"C32":("damage injection judged by an independent storage decoder","sampled lists and single damages of layouts, elements and index"),
"C33":("write-sequence monitor under storage faults, race detector","sampled fault and change sequences with millisecond intervals"),
"C34":("differential and model-based monitoring of HTTP traffic, mutated msgpack bodies","real server, sampled requests in random encodings"),
"C35":("resource-leak monitor over goroutine dumps, open files and tracked handles, with fault injection","sampled failing, cancelled and abandoned work in process and in real servers"),
"C36":("online monitor of the updates under way, at a gate in a storage stand-in that holds and fails writes, plus a model of the lists","sampled mixes of updates, limits, failures and leaving clients against real servers"),
"C37":("conservation monitor: reported counts against counts kept by clients, cache and storage, race detector","sampled concurrent operations, failures and configurations, in process and against real servers"),
}
FAULT={"C10"}
run=subprocess.run(["bash","-c","here=%s; . env.sh; $(build_harness) list"%here],cwd=here,capture_output=True,text=True)
have=set(re.findall(r"^(C\d+)",run.stdout,re.M))
checks=[];na=[]
for l in open(os.path.join(here,"properties.jsonl")):
    i=json.loads(l)["id"]
    if i in have:
        checks.append(dict(property=i,quick_cmd="bash run.sh "+i,thorough_cmd="VERIF_TIER=thorough bash run.sh "+i,
          technique=T[i][0],level="fault_enumeration" if i in FAULT else "exploration",level_note=T[i][1]))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
