#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
T={
"T01":"online geometric oracle (exact integer arithmetic) over edit histories of the real triangulation",
"T02":"model-based monitor of several live triangulations after every operation",
"T03":"reference multiset and brute-force nearest neighbour compared after every operation",
"T04":"offline half-plane oracle on the regions returned for generated point sets",
"T05":"online half-plane oracle on live diagrams after every operation",
"T06":"exact integer geometric oracle on one-shot triangulations",
"T07":"monitor on pixel, line and block callbacks, cross-checked and against edge equations",
"T08":"per-pixel ownership monitor over whole tilings",
"T09":"differential oracle: independent definition of the fitness, with interval for ambiguous faces",
"T10":"differential oracle: independent definition of the region fitness",
"T11":"online differential oracle against evaluation from scratch in simulated generations",
"T12":"recording evaluator, mutator and fitness function; trace checker over every step",
"T13":"recording mutator and fitness functions; offline reconstruction of every generation",
"T14":"stateful recording functions checking the base protocol online",
"T15":"Go race detector plus trace equality across processor counts and injected delays",
"T16":"monitor on mutation callbacks and statistics of the results",
"T17":"monitor on returned groups, aliasing probes and statistics",
"T18":"independent pixel reader compared with the conversion",
"T19":"independent mean-colour oracle on rendered shapes",
"T20":"statistical monitors (chi-square, tails, moments) and replayed call sequences",
"T21":"crash-point monitor: files and captured output read before every step",
"T22":"reference implementation and aliasing probes",
"T23":"event-log checker (start and end of every evaluation) with injected delays and a watchdog",
"T24":"end-to-end oracle: accuracy of the rendered result measured per pixel",
"T25":"live heap, goroutine and descriptor monitor over long histories, with the final state checked by the geometric and fitness oracles",
"T26":"Go race detector plus comparison of results alone and together, with cold-start processes",
}
N={
"T15":"Observed interleavings only; the race detector sees races on executed paths with happens-before evidence.",
"T26":"Observed interleavings only; the race detector sees races on executed paths with happens-before evidence.",
"T25":"Leaks below 64 kB over the history of a case are not seen.",
"T20":"Statistical: a deviation smaller than about one in a few thousand of a cell's probability is not seen.",
"T21":"Crash points between two steps; a crash inside the rewriting of a file is not covered.",
}
checks=[]
for k,t in T.items():
    checks.append(dict(property=k,quick_cmd="bash check.sh run %s quick"%k,thorough_cmd="bash check.sh run %s thorough"%k,
      evidence_file="evidence/%s.json"%k,technique="runtime monitoring: "+t,level="exploration",
      level_note=N.get(k,"Holds on the executions observed (counts in the evidence file); workloads are generated from VERIF_SEED. Assumptions are listed in the evidence and in DESIGN.md.")))
json.dump(dict(version=1,setup_cmd="bash check.sh build",checks=checks,not_applicable=[]),open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
