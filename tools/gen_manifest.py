#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
HIST="online reference-model monitor over randomized fault-injected API histories"
T={
"P01":("power-cut images of monitored histories booted and judged by an online durability model","fault_enumeration","Every or a dense sample of the journaled storage mutations of each generated history is a power-cut point (NOR word writes and erases included, torn); histories are random."),
"P02":("power-cut images of monitored histories; joint hydrated vector must equal one attempt","fault_enumeration","As P01; all keys judged jointly."),
"P04":("online monitor on every invalidate call against an independent record parser","fault_enumeration","Errors, drops and hangs injected at collection operations; histories are random."),
"P05":("post-collection content comparison with independent parser, plus endurance loops on small storage","fault_enumeration","Histories random; endurance loops run a fixed number of cycles."),
"P06":("recovery-sequence monitor after injected faults, aborts and power cuts","fault_enumeration","Faults at random operations, every or sampled power-cut point."),
"P07":("independent parse of storage at every acknowledged write, under silent corruption","fault_enumeration","Corruption kinds: dropped, altered, truncated, extended, duplicated, re-tagged elements."),
"P08":("per-key pending-change model over sequential and concurrent histories","exploration","Random interleavings of operations at every await point."),
"P19":("sequence-number monitor over parsed storage contents","fault_enumeration","Random histories, faults, power cuts."),
"P20":("per-call monitor of mutating storage operations","fault_enumeration","Random histories, faults, power cuts."),
"P21":("reported counters compared with traffic measured at the storage interface","exploration","Random histories, faults."),
"P03":("differential monitor: hydrated values vs. independent parser over damaged element sequences","exploration","Random damage of generated record sequences; element and NOR byte level."),
"P09":("per-key register model over random interleavings with cancellation and faults","exploration","Wake-accurate randomized scheduler; every await point is a scheduling point."),
"P10":("reference protocol model of attach/detach/handle lifecycle over random interleavings with cancellation","exploration","Wake-accurate randomized scheduler."),
"P11":("ledger of every payload birth and drop","exploration","Random histories with failing decodes, faults, cancellations."),
"P12":("Miri, ThreadSanitizer and AddressSanitizer over multi-threaded safe-API workloads; compile probes for Send/Sync","exploration","Miri with many schedules; sanitizers on stress runs; probes are exhaustive over the listed payload classes."),
"P13":("wake-accurate executor: attach completion monitor","exploration","Random interleavings."),
"P14":("virtual-time trace monitor of the real default worker","exploration","Random request mixes and timings, deterministic virtual clock."),
"P15":("virtual-time monitor: stop fired at every reachable await of the worker, storage judged at return","fault_enumeration","Random histories; stop points by poll count."),
"P16":("panic and step monitor over arbitrary contents, buffers and payload sizes","exploration","Random and mutated bytes, overflow checks and debug assertions on."),
"P17":("round-trip and schema-evolution differential monitor","exploration","Random values over a family of payload types."),
"P18":("model comparison of the real NOR backend over simulated flash geometries; boundary sizes vs. process_writes","exploration","Random sequences over a fixed list of geometries; boundary sizes exhaustive around limits."),
"P22":("erase-counter and bit-transition monitor of simulated NOR flash over long runs","exploration","Fixed list of geometries, long update loops."),
"P23":("wake-accurate executor with the real no-op worker","exploration","Random interleavings."),
"P24":("quiescence monitor: wake-accurate executor must not stall with outstanding work","exploration","Random interleavings, dropped waits."),
}
DONE=open(os.path.join(root,"tools/claimed.txt")).read().split()
NA={}
checks=[]
for p in props:
    i=p["id"]
    if i not in DONE: continue
    t,l,n=T[i]
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} --tier quick",thorough_cmd=f"./run.sh {i} --tier thorough",evidence_file=f"evidence/{i}.json",technique=t,level=l,level_note=n))
m=dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="none",enable="no hooks: the checks use the crate's public API only",source_commits=[]),checks=checks,
 not_applicable=[dict(property=p["id"],reason=NA.get(p["id"],"check under construction")) for p in props if p["id"] not in DONE])
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
