# Writes /verif/MANIFEST.json.
import json, os
T="deterministic simulation with fault injection: "
C={
'C01':("seeded scheduler interleaves callers at control-flow edges, re-entrant calls; results compared with runs alone","a data race or lost isolation shows if a schedule within the budget exposes it"),
'C02':("one caller stalled for ever or crashed at a seeded point, the others must finish within a step bound","liveness as progress within a bounded number of simulated steps"),
'C03':("a panic or allocation failure injected at a seeded event of a query; later answers and held points compared with a run without the query","the points of interruption are all calls out of the library and all allocations"),
'C04':("a panic or allocation failure injected at a seeded event of a registration; later history must equal one of the two clean histories","two clean histories per interruption, run for real, are the oracle"),
'C05':("seeded histories of registrations and queries on several objects, each answer compared with a fresh object asked once","the fresh object is the oracle, so a bug common to both is C15's matter"),
'C06':("system-call seam records every I/O call made in the library; stdout and stderr closed, full or failing at a seeded write","I/O through the C library is seen; raw system-call instructions are not"),
'C07':("the same calls under perturbed entropy, clock, environment, addresses, thread and process identity, compared bit for bit","sources of nondeterminism are those behind the seams"),
'C08':("seeded rounds of calls with injected failures, live heap bytes compared between rounds","memory from the global allocator"),
'C09':("a failure injected at a seeded event of a call; every lent value read back and used again","values are compared bit for bit and by use"),
'C10':("panics and allocation failures injected at seeded events; the payload or the exact result must come out","identity of the payload is checked"),
'C11':("seeded histories of calls, some failing; each result compared with the same call first in a fresh process","the fresh process is the oracle"),
'C12':("seeded storms of queries, some interrupted; steps and live bytes per query must not grow","growth is judged by comparing early and late rounds"),
'C13':("last-place differences injected into results of mathematical functions, seeded; classification, count and coordinates compared","inputs are in general position or touch at points; tangencies and sweeps are excluded"),
'C14':("formatting into a sink that fails at a seeded write; prefix and reported error checked","all public values that can be formatted"),
'C15':("seeded histories, schedules and interruptions on sweep objects against a reference model (brute force over the registered segments)","completeness only for line segments of which at most two meet in any point"),
'C16':("seeded histories and interruptions on hull objects against a reference model (exact gift wrapping)","coordinates on a grid on which the model is exact"),
'C17':("seeded histories and interruptions on a vertex against a sequence model","edges distinct by more than the tolerance"),
}
NA={
'C18':"A pure function of two segments: no schedule, clock, I/O, state or second party for the property to depend on; a simulator has nothing to decide. What does depend on faults and schedules about these calls is claimed in C01, C07, C09, C10, C11 and C13.",
'C19':"A pure function of a point and a figure; see C18.",
'C20':"A pure function of a point and a line; see C18.",
'C21':"A pure function of a polygon; see C18. (What is left of it after the repair of the hole bridging: DESIGN.md, observations.)",
'C22':"A pure function of a polygon; see C18.",
'C23':"A pure function of a circle and two angles; see C18. (It does not hold for infinite or huge angles: DESIGN.md, observations.)",
'C24':"A pure function of two values; see C18.",
'C25':"A pure function of the input in two precisions; see C18.",
'C26':"A pure function of the input; termination over all inputs is not a matter of schedules or faults.",
'C27':"The bindings compile for wasm32 only and need a JavaScript host; none is installed for them here, and they keep no state.",
'C28':"A pure function of the registered set, once C05 holds; and known not to hold (DESIGN.md, observations), so it is listed as an aspiration of the algorithm.",
}
M={'version':1,'setup_cmd':'./check.sh build','checks':[],'not_applicable':[{'property':k,'reason':v} for k,v in NA.items()],
 'notes':'No hooks in /repo: every seam is outside it (generic number and segment parameters, the global allocator, the C library functions, and control-flow edges instrumented by the compiler when /repo is built for the checks). check.sh replay FILE repeats a violation. KNOWN_FINDINGS lists the defects repaired and those only recorded.'}
for k,(t,n) in C.items():
    M['checks'].append({'property':k,'quick_cmd':f'./check.sh {k} quick','thorough_cmd':f'./check.sh {k} thorough','technique':T+t,'level':'exploration',
     'level_note':'Seeded search, no exhaustiveness; '+n+'. Sequentially consistent interleavings; real library code throughout, no hooks in it.'})
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','MANIFEST.json')
json.dump(M,open(p,'w'),indent=1)
import jsonschema; jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
