#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
D="deterministic simulation with fault injection: "
T={
"C01":("seeded interleavings of the worker team at memory-access granularity, seeded team sizes; happens-before race check and comparison with the sequential run","Every explored schedule gave the sequential result and no unordered conflicting access. Interleavings are sequentially consistent; weaker orders are covered through the race check."),
"C02":("several caller threads on separate estimators and copies under seeded interleavings, compared with each running alone; race check","Sampled interleavings of 2-3 callers; clones, moves, restores checked against solo runs."),
"C03":("concurrent const calls on one model under seeded interleavings, compared with the sequential run and a reference evaluation; race check","Sampled interleavings of 2-3 querying callers."),
"C04":("the same history re-executed under dirty, reused and relocated memory, other entropy, processor counts and process histories; all observations compared","Two to four differently disturbed executions per history must agree byte for byte; libstdc++ and glibc internals outside the seams are real."),
"C05":("crashes at seeded points with restart from durable documents, hand-overs, epoch splits; compared with the uninterrupted run","Sampled crash points, splits and configurations, including special generator positions and boundary states planted through documents."),
"C06":("seeded storage faults on saved documents and configurations, then restore and a further life of the model; heap shadow checks every access","Sampled damage (torn, bit flips, mixed, foreign, edited values); memory safety judged by the simulated heap for accesses of the instrumented library code."),
"C07":("malformed requests injected at seeded points of histories; compared with the history without them","Sampled malformed requests of every class of every data-taking call."),
"C08":("failing allocations at seeded positions inside every call; outcome, state, leaks and later behaviour checked","Sampled positions (single and persistent failure) of every allocation of the library and the standard library under it."),
"C09":("failing, short-writing and throwing log sinks at seeded positions; compared with the quiet run","Sampled failure points of std::clog's buffer."),
"C10":("histories with faults; well-formedness of the model checked after every call","Invariant checked after each call of each sampled history, also from boundary states planted through documents."),
"C11":("histories with faults; every answer compared with an independent evaluation of the learned clauses","Reference evaluation in a small model of the published definition, from the saved document only."),
"C12":("histories leading to arbitrary states, then one-sample steps checked against the feedback rules as a transition relation","Each step's outcome must be in the set the rules allow for the sample and the state before; draws are the library's own."),
"C13":("histories with faults ending in a fit; compared with a fresh estimator","Sampled prior histories."),
"C14":("many seeded one-sample steps from one state; counts tested against the documented rates","Statistical: deviations beyond a Bernstein bound of e^-32 are reported (suspicions are followed up with more steps), so deviations of a few per cent are found and false alarms are negligible."),
"C15":("training through crashes, schedules and bad requests; bounded-epoch accuracy of the median of five models; every call must return","Liveness as progress in bounded epochs; thresholds calibrated with margin on the current tree."),
"C16":("the same history under other tile sizes, counter widths, verbosity and job counts; all states and answers compared","Sampled settings, feature counts around tile and vector boundaries, and histories."),
"C20":("the random source is put under the simulator's control: models of one configuration under many related and unrelated seeds, new or with a past, are started; positions compared by place, by seed and in pairs with fair independent ones","Statistical at eight standard deviations over 36 to 400 seeds per configuration; seeds include single-bit differences. Streams of neighbouring seeds that are shifted against each other are not told apart."),
"C19":("from prepared states in which every presentation leaves a trace of exactly one, the traces of whole training calls are counted, across handovers, schedules and earlier faults; chains of epochs whose outcome depends on the order are compared with uniform orders","Counts are exact for the sampled data sets (to 70000 samples); orders are judged statistically at seven standard deviations."),
}
checks=[{"property":p,"quick_cmd":"python3 check.py %s"%p,"thorough_cmd":"python3 check.py %s"%p,"evidence_file":"evidence/%s.json"%p,
 "technique":D+t,"level":"exploration","level_note":n} for p,(t,n) in sorted(T.items())]
NA=[("C17","Checking parameter values is a pure function of the caller's arguments: no schedule, clock, I/O, randomness or second party for a simulator to control (the seed drawn when none is given is C04, damaged documents are C06)."),
("C18","The containers are single-threaded pure data structures with no time, I/O, concurrency or faults; a simulator has nothing to vary (their use inside the estimators is exercised by C10, C11, C16).")]
m={"version":1,"setup_cmd":"python3 check.py --build","checks":checks,"not_applicable":[{"property":a,"reason":b} for a,b in NA],
"notes":"No hooks in /repo: the simulator links the unchanged sources and replaces the OpenMP runtime, threads, allocation, entropy, clocks and log sink at link level. Replay a violation with 'python3 check.py --replay FILE'."}
json.dump(m,open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
