# Writes /verif/properties.jsonl.
import json, os
A='src/algorithm/'; K='src/kernel/'; D='src/data_structure/'
HULL=A+'convex_hull/convex_hull_2.rs'; SW=A+'intersection/sweep_segment_2_intersection.rs'
AVL=D+'avl_tree.rs'; CD=D+'circular_doubly_linked_list.rs'; PQ=D+'priority_queue.rs'; EAR=A+'triangulation/earcut_2.rs'
NUM=K+'number_type.rs'; SEG=K+'segment_2.rs'
ALLALG=[HULL,SW,A+'intersection/segment_2_segment_2.rs',A+'location/point_2_polygon_2.rs',A+'projection/point_2_line_2.rs',EAR]
KER=[K+x for x in ('arc_segment_2.rs','circle_segment_2.rs','line_segment_2.rs','polygon_2.rs','point_2.rs','vector_2.rs')]
def m(*p): return [{'name':a,'where':b} for a,b in p]
def st(*p): return [{'name':a,'meaning':b,'where':c} for a,b,c in p]
P=[]
def add(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':mech}
    if state: a['state']=state
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

add('C01','Callers do not affect each other',
 "Any number of callers - on different threads, or re-entering the library from their own number or segment type in the middle of a call - may use the library at once, each with its own objects and with read-only values they share. Whatever the interleaving, every call returns exactly the result it returns when it is made alone, and no caller sees a panic, an error or a changed value because of another.",
 ['schedules','programs','inputs'],'every workload of several callers, every interleaving of their calls down to single control-flow edges, every depth of re-entry from caller-supplied code',
 'Every test is single-threaded in effect and makes one call at a time with f64; none interleaves calls or re-enters.',
 ALLALG+[AVL,CD],m(('no statics, no thread-locals, no interior state outside the objects','src/'),('free functions over Copy values',A)),
 obs=['return values and panics of every public call'])
add('C02','A stalled or crashed caller never blocks or slows another',
 "If a caller stops for ever, or dies, at any point inside a library call, every other caller that does not share a mutable object with it still completes. Each of its calls then takes no more than a constant factor of the work it takes alone, so no call ever waits, spins or retries for another caller.",
 ['schedules','crash_points'],'every point inside any call at which one caller stalls or crashes, every workload of the other callers',
 'No test stalls or kills a caller inside a call.',
 ALLALG,m(('no locks, no shared flags, nothing waits','src/')),obs=['steps taken by the other callers'])
add('C03','An interrupted query leaves the object as it was',
 "A query on a convex-hull object or a sweep-intersection object that is cut short at any point - a panic in the caller's number or segment type, or a failed allocation - loses and adds nothing. The object still holds exactly the points or segments it held, and every later query on it returns exactly what it would have returned had the interrupted query never been made.",
 ['crash_points','fault_sequences','histories'],'every event inside a query at which it can be cut short, every history of queries, interruptions and registrations around it',
 'No test interrupts a call or looks at an object afterwards.',
 [HULL,SW,AVL,PQ],m(('a hull query only reorders the points it holds',HULL),('a sweep query works on a clone of the event queue and clears its scratch state first',SW),('ordered structures lose what a cut-short query left in them',AVL)),
 st(('points','the points of a hull object',HULL),('registered events','the segments of a sweep object',SW)),['later queries','the public point list'])
add('C04','Registering a segment with a sweep object is all or nothing',
 "If registering a segment is cut short at any point - a panic in the caller's segment or number type, or a failed allocation - the sweep object is either exactly as if the segment had never been offered or exactly as if it had been registered completely. Registering it again, registering others and querying afterwards all give the answers of that one clean history.",
 ['crash_points','fault_sequences','histories'],'every event inside a registration at which it can be cut short, for every segment kind and every earlier history',
 'The tests register only well-behaved segments.',
 [SW,PQ],m(('all events are computed, and room reserved, before the first is pushed',SW)),st(('event queue','events of registered segments',SW)),['later queries'])
add('C05','A sweep answers from its registered segments only',
 "What a sweep-intersection object answers is determined by the segments registered with it and the order they were registered in. Asking it earlier, more than once or between registrations, or using other sweep objects before or in between, never changes a later answer.",
 ['histories','inputs'],'every interleaved history of registrations and queries on one or more sweep objects, and for every segment kind and number type',
 'Each test makes one object, registers everything, and asks once.',
 [SW,AVL,PQ],m(('a query sweeps a clone of the event queue and clears its scratch state first',SW)),st(('event queue','events of registered segments',SW)),['query answers'])
add('C06','The library does no I/O',
 "No call reads or writes any stream, file or device: nothing appears on standard output or standard error on any path. A closed, full or failing stream therefore never changes a result or makes a call panic.",
 ['fault_sequences','inputs','histories'],'every call on every input, with streams that work, are closed, are full or fail at any write',
 'Test harnesses capture output; no test makes a stream fail, or reaches the rare paths that might print.',
 ALLALG+[CD],m(('no I/O in the library','src/')),obs=['system calls made inside library calls'])
add('C07','Results do not depend on the surroundings',
 "A call's result is a function of its arguments and the object it is made on, bit for bit. The clock, the system's entropy, environment variables, the working directory, memory addresses, and which thread or process makes the call have no influence on it, on the order of what it returns, or on whether it finishes.",
 ['configurations','inputs','fault_sequences'],'every setting of clock, entropy, environment, address-space layout and thread and process identity, and every sequence of calls',
 'A test runs once in one environment; dependence on entropy or addresses shows in rare runs only and cannot be repeated.',
 ALLALG+[AVL],m(('Vec, VecDeque and ordered structures only; no hash iteration, no address comparison','src/')),obs=['bitwise results under perturbed surroundings'])
add('C08','No memory is retained by finished calls',
 "When a call has returned or been cut short and the caller has dropped its arguments, its results and the objects it made, every byte the call allocated is free again. Repeating any sequence of calls, with the same or with ever different values, does not grow memory.",
 ['histories','fault_sequences','inputs'],'every sequence of calls repeated any number of times, with and without panics and allocation failures in them',
 'No test measures memory, and reference cycles and caches are invisible to assertions on results.',
 [CD,AVL,EAR,SW,K+'vertex_2.rs',K+'edge_2.rs'],m(('a Drop that unlinks the circular list',CD),('status structures owned by the call',AVL)),
 st(('list nodes','strong links both ways',CD),('tree nodes','parent and child links',AVL)),['live heap bytes between calls'])
add('C09','An interrupted call leaves lent values intact',
 "A call that only borrows its arguments never changes them, also not for a moment that an interruption could make lasting. After a panic in caller-supplied code or a failed allocation at any point inside it, every value lent to it reads bit for bit as before and works as before in further calls.",
 ['crash_points','fault_sequences','inputs'],'every event inside any borrowing call at which it can be cut short',
 'No test interrupts a call.',
 ALLALG+KER+[K+'vertex_2.rs',K+'edge_2.rs'],m(('operations take shared references or copies; equality and ordering only read','src/')),obs=['every lent value after the interruption'])
add('C10','An injected failure surfaces as itself or not at all',
 "If the caller's number or segment type panics, or an allocation fails, inside a call, then that very failure reaches the caller, or the call completes with exactly the right result. It is never swallowed into a wrong or partial result, never replaced by a different panic, and never turned into an abort or an endless loop.",
 ['crash_points','fault_sequences','inputs'],'every event inside any call at which caller-supplied code or the allocator can fail, once or several times',
 'Tests use infallible built-in numbers and never fail an allocation.',
 ALLALG+[AVL,PQ,CD],m(('no catching, no fallback paths; errors propagate by unwinding','src/'),('destructors that do not panic',CD)),obs=['payload of the panic, or the result'])
add('C11','Every call is independent of the calls before it',
 "A call gives bit for bit the result it would give as the first call in a fresh process, apart from the history of the object it is made on. What was called before - in this thread or another, with whatever values, successfully or cut short - never matters.",
 ['histories','fault_sequences','inputs'],'every history of earlier calls in the process, including failed ones, followed by any call',
 'Each test makes a few calls with one set of values; caches and scratch state only show after particular histories.',
 ALLALG+[NUM],m(('no statics, caches or thread-locals','src/')),obs=['results after a history against results in a fresh process'])
add('C12','Repeating a query costs no more and keeps no more',
 "A long-lived hull or sweep object can be queried any number of times: the work one query does and the memory the object keeps do not grow with the number of earlier queries, finished or cut short. No query panics because of how often the object was asked.",
 ['histories','fault_sequences'],'every number of repeated and interrupted queries on one object, for every content',
 'Tests ask an object once.',
 [HULL,SW,AVL,PQ],m(('queries leave nothing behind in the object',SW),('deletion unlinks nodes completely',AVL)),obs=['steps per query','live bytes after each query'])
add('C13','Results are stable under rounding differences of the math library',
 "Sine, cosine, arc tangent and square root may differ in the last places between platforms and versions of the math library. For inputs in general position, intersections of pairs of segments of any kind, locations of points, and arc and vector operations give the same classification, the same number of answers and the same answers up to a small tolerance, whichever of these results they get.",
 ['fault_sequences','inputs','configurations'],'every pattern of last-place differences in the results of the mathematical functions during a call',
 'Tests run with the one math library of the build machine.',
 [NUM,K+'arc_segment_2.rs',K+'vector_2.rs',A+'intersection/arc_segment_2_arc_segment_2.rs',A+'location/point_2_arc_segment_2.rs'],m(('comparisons with a tolerance instead of exact equality',NUM)),obs=['classification, count and coordinates'])
add('C14','Formatting a value obeys the sink',
 "Formatting any public value for display or debugging, linked edges and vertices included, ends and writes to the given sink and nowhere else. If the sink refuses at any write, formatting stops and reports that error, having written a prefix of the full text; it never panics, drops or repeats text, or reports success.",
 ['fault_sequences','inputs'],'every write at which the sink can fail, every value and every format flag used',
 'Tests never format into a failing sink.',
 [K+'point_2.rs',K+'vertex_2.rs',K+'edge_2.rs',K+'line_segment_2.rs',K+'util_enum.rs'],m(('derived formatting',K),('an edge shows its ends, not its neighbours',K+'edge_2.rs')),obs=['text received by the sink, returned result'])
add('C15','A sweep object refines the set of segments registered with it',
 "After any history of registrations, queries and interruptions, under any schedule of other callers, every point a sweep-intersection query returns lies on at least two of the registered segments. When the registered segments are line segments in general position - at most two meet in any point, which may be an end of one or both, and none overlap - with coordinates up to sixteen, it returns every point where two of them meet and does not panic.",
 ['histories','schedules','fault_sequences','inputs'],'every history of registrations, queries and interruptions on any number of sweep objects used by several callers',
 'The tests check a few fixed scenes, registered in one order and asked once.',
 [SW,AVL,PQ,A+'intersection/segment_2_segment_2.rs',A+'intersection/line_segment_2_line_segment_2.rs'],m(('event queue ordered by position',PQ),('status structure ordered along the sweep line',AVL),('neighbours are tested whenever they become adjacent',SW)),
 st(('event queue','registered and found events',SW),('status','segments crossing the sweep line',AVL)),['query answers'])
add('C16','A hull object refines the set of points it holds',
 "After any history of additions to its public point list, queries and interrupted queries, asking a convex-hull object whose points are not all on one line returns exactly the corners of the convex hull of the points it holds at that moment, counter-clockwise, each once, whatever their order and however many are repeated or lie on an edge of the hull.",
 ['histories','fault_sequences','inputs'],'every history of additions, queries and interruptions, every point set with repeated and collinear points',
 'The tests ask fresh objects once about a few fixed point sets.',
 [HULL],m(('lower and upper chains over a sorted copy',HULL)),st(('points','the points of the object',HULL)),['query answers','the public point list'])
add('C17','A vertex and its edges are what was last set',
 "After any history of adding and removing edges, the edges a vertex reports are those added and not removed since, in the order they were added; removing an edge removes every edge equal to it and no other, and removing one that is not there changes nothing. An edge's ends, twin, next and previous edge are the ones last set. A change cut short leaves everything else in place and in order.",
 ['histories','crash_points','fault_sequences','inputs'],'every history of additions, removals, links and interruptions on a vertex and its edges',
 'No test uses the vertex and edge structures.',
 [K+'vertex_2.rs',K+'edge_2.rs'],m(('retain over the edge list with geometric edge equality',K+'vertex_2.rs'),('setters that replace one handle',K+'edge_2.rs')),st(('edges','incident edges',K+'vertex_2.rs'),('source, target, twin, next, prev','the links of an edge',K+'edge_2.rs')),['the reported edges and links'])

PURE='every input'
def pure(id,title,stmt,why,files,mech):
    add(id,title,stmt,['inputs'],PURE,why,files,mech)
T='The tests sample a handful of inputs.'
pure('C18','Pairwise intersections are sound, complete and symmetric',
 "The intersection of two segments of any kinds is the set of points on both, up to the tolerance; it does not depend on the order of the two, and the yes/no question agrees with it.",T,[A+'intersection/segment_2_segment_2.rs',A+'intersection/circle_segment_2_circle_segment_2.rs'],m(('case analysis per pair of kinds',A+'intersection')))
pure('C19','Point locations are classified correctly and consistently',
 "Every point is classified as on, inside or outside (or left or right of) a line, ray, segment, arc, circle, triangle or polygon according to its distance from it and the tolerance, and the separate yes/no questions agree with the classification.",T,[A+'location/point_2_polygon_2.rs',A+'location/point_2_triangle_2.rs'],m(('sign and distance tests',A+'location')))
pure('C20','Projection returns the nearest point',
 "Projecting a point on a line or segment returns the point of it nearest to the given point; projecting again changes nothing.",T,[A+'projection/point_2_line_2.rs',A+'projection/point_2_line_segment_2.rs'],m(('orthogonal projection',A+'projection')))
pure('C21','Ear cutting covers the polygon exactly',
 "Triangulating a simple polygon with n corners gives n-2 triangles over its corners that do not overlap and together cover it.",T,[EAR],m(('ear clipping',EAR)))
pure('C22','Polygon measures are correct',
 "Area, simplicity and convexity of a polygon are those of the figure its corners describe.",T,[K+'polygon_2.rs'],m(('shoelace formula and pairwise edge tests',K+'polygon_2.rs')))
pure('C23','Arcs are normalised and split into monotone pieces',
 "Building an arc from any two angles ends, describes the arc meant, and splitting it gives monotone pieces that join up to it.",T,[K+'arc_segment_2.rs'],m(('angle normalisation',K+'arc_segment_2.rs')))
pure('C24','Tolerant comparison gives a usable order',
 "Comparing numbers, points, segments and vertices with the tolerance is symmetric, antisymmetric and agrees with equality, wherever values are not within a few tolerances of each other.",T,[NUM,K+'point_2.rs',K+'vertex_2.rs'],m(('absolute tolerance',NUM)))
pure('C25','Single and double precision agree',
 "For well-conditioned inputs, results in single and in double precision agree up to the single-precision tolerance.",T,[NUM],m(('generic code over one number trait',NUM)))
pure('C26','Every call ends without a panic on finite input',
 "No call with finite, well-formed input panics or loops for ever.",T,[K+'arc_segment_2.rs',EAR,SW],m(('bounded loops','src/')))
pure('C27','The browser bindings mirror the native library',
 "Every exported binding returns what the native call returns for the same values.",'No test runs the bindings.',['src/wasm.rs','src/wasm/kernel.rs'],m(('thin wrappers','src/wasm')))
add('C28','Sweep over arcs, circles and degenerate scenes is complete',
 "A sweep-intersection query also returns every crossing when the registered segments include arcs and circles, overlap, meet three or more in a point, or have large coordinates.",
 ['inputs'],PURE,T,[SW,AVL],m(('monotone pieces of arcs and circles as events',SW)))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
try:
    import jsonschema
    for p in P: jsonschema.validate(p,s)
except ImportError: pass
for p in P:
    assert len(p['title'])<=80, p['id']
    assert p['statement'].count('. ')<=2, p['id']
    for f in p['anchors']['files']: assert os.path.exists('/repo/'+f), f
