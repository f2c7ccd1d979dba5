#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, in one place)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API = "libs/MeshKernelApi/src/MeshKernel.cpp"
US = "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp"
MESH = "libs/MeshKernel/src/Mesh.cpp"
M2D = "libs/MeshKernel/src/Mesh2D.cpp"
CG = "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"
OAS = "libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["the C interface: exit codes, returned values and arrays, and the content of every state read back through it"],
                          "hook_needed": None}})


prop("C01", "Undo and redo restore the exact content",
     "Undoing the latest recorded edit brings the content of the state it belongs to (2D mesh nodes, edges and faces, 1D mesh, network, contacts, curvilinear grid, projection) back to exactly what a client could read before that edit, and redoing it brings back exactly what could be read after it. This holds for every kind of undoable edit, at any depth of undo and redo, with edits of several states interleaved. An undo or redo never fails and never alters a state it does not belong to.",
     ["histories", "inputs"], "every history of edits, undos and redos on every state, with any arguments",
     "The tests undo a few fixed sequences; the number of histories (edits x arguments x undo depth x mix of states) is unbounded, and most errors need an edit on content that an earlier edit or undo left behind.",
     [US, API, MESH, CG, "libs/MeshKernelApi/src/MKStateUndoAction.cpp", "libs/MeshKernel/src/UndoActions/CompoundUndoAction.cpp"],
     [("undo actions store what an edit replaced and put it back", "libs/MeshKernel/src/UndoActions"), ("whole content kept aside for replacing edits", "libs/MeshKernelApi/src/MKStateUndoAction.cpp"), ("commit and restore of single actions", MESH), ("grid undo actions", "libs/MeshKernel/src/CurvilinearGrid/UndoActions")])
prop("C02", "The undo history is counted, ordered, bounded and attributed correctly",
     "All states share one history of steps, most recent last: each successful edit adds one step for its own state (none when it changes nothing), a new edit drops the undone steps of its own state only, undo and redo take the latest step and report the state it belongs to, and the oldest steps are dropped when the configured size is exceeded. Expunging a state or clearing its history removes its steps and no others; clearing everything removes all. The reported numbers of done and undone steps, in total and per state, agree with this after every call.",
     ["histories", "configurations"], "every history over several states and every configured history size",
     "Tests check a handful of linear histories with the default size; interleavings of several states with size changes, expunging and partial undo are not reached.",
     [US, API], [("done and undone lists with one state id per step", US), ("size limit and removal per state id", US), ("each interface function adds its step with its state id", API)])
prop("C03", "States are isolated from one another",
     "Everything a client gets from calls on its own states (exit codes, returned values, the content of its meshes and grids, the effect of undo of its own steps) is the same whether or not other clients work on other states in between. This includes interactive sessions, edits that fail and edits that run out of memory.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of the calls of several clients, each on its own states, with failures injected in the other clients' calls",
     "Tests work on one state, or on two in a fixed order; interference through process-wide data (state table, history, cached arrays kept between two-phase calls, error text) needs particular interleavings.",
     [API, "libs/MeshKernelApi/include/MeshKernelApi/State.hpp"], [("state table by id", API), ("sessions kept in the state", "libs/MeshKernelApi/include/MeshKernelApi/State.hpp")])
prop("C04", "A failing call is contained",
     "A call with invalid arguments, an unknown state or too little memory returns a non-zero exit code and never ends or hangs the process. Every other state, and the history of every other state, is exactly as before. The state it addressed can still be read, expunged and given new content, and undo and redo keep working.",
     ["fault_sequences", "inputs", "histories"], "every call of the interface, with invalid arguments or a failing memory allocation at any point, after any history",
     "Memory exhaustion is never exercised by the tests, and invalid arguments only one function at a time on a fresh state.",
     [API, "libs/MeshKernel/include/MeshKernel/Exceptions.hpp"], [("exceptions caught at the interface and turned into exit codes", API), ("argument checks", API)])
prop("C05", "Creating content, undo and redo are all or nothing when memory runs out",
     "When memory runs out at any point of a call that creates, replaces or adds to the content of a state as a whole, or of undo or redo, the call reports a failure and the state, every other state and the history are exactly as before the call. Repeating the call with enough memory then gives the same result as if the failure had not happened.",
     ["fault_sequences", "crash_points", "histories"], "every allocation of every such call as the failing one, after any history",
     "The tests inject no allocation failure at all; each call has hundreds of points where one can happen.",
     [US, API, "libs/MeshKernelApi/src/MKStateUndoAction.cpp"], [("new content is built aside and installed after the undo step is made", API), ("a step moves between the lists only when it was applied", US)])
prop("C06", "Results do not depend on threads",
     "Every result of a call that computes in parallel (face properties, orthogonalization and smoothing, coordinate conversion, rotation and translation) is bit for bit the same for every number of threads and every interleaving of them. No two threads access the same memory at the same time where one of them writes, and no exception or failure is lost.",
     ["schedules", "inputs"], "every team size and every interleaving of the memory accesses of the parallel loops, on meshes reached by any history",
     "Tests run each loop once under whatever schedule the machine picks, and compare with tolerances.",
     [M2D, OAS, "libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp"],
     [("iterations write to their own elements only; scratch arrays are private to a thread", M2D), ("two-array update of the node positions", OAS)])
prop("C07", "Results are a function of the calls alone",
     "Running the same calls gives bit for bit the same exit codes, values and content whatever the memory allocator returns: the garbage found in fresh memory and on the stack, the addresses of blocks, and how soon freed memory is used again. Nothing that is read back was never written.",
     ["inputs", "histories", "configurations"], "every history, under every content and placement of fresh memory",
     "A test runs in one process with mostly zeroed fresh memory; a value that was never written, or an order that depends on addresses, looks right there.",
     [API, MESH, M2D, "libs/MeshKernel/include/MeshKernel"], [("members and output arrays are initialised before use", MESH)])
prop("C08", "Interactive sessions give the result of the single call, and end cleanly",
     "Driving orthogonalization or a grid line shift in small steps, with any other valid calls (on this or other states) and any queries in between, ends in the same content as the uninterrupted sequence of the same steps. A session lasts until it is ended or its mesh or grid is replaced. A step without a session, or after the mesh or grid it was started for has been replaced, is reported as an error and changes nothing. Ending or abandoning a session at any point leaves a state that can be used and from which a new session starts afresh.",
     ["histories", "schedules", "fault_sequences"], "every order of session steps, edits, undos, queries and failures",
     "Tests run initialise, steps and finish once, in order, on an untouched mesh.",
     [API, OAS, "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp", "libs/MeshKernelApi/include/MeshKernelApi/State.hpp"], [("session objects kept in the state", "libs/MeshKernelApi/include/MeshKernelApi/State.hpp"), ("guards in the session calls", API)])
prop("C09", "No call accesses memory it does not own, crashes or hangs",
     "Whatever the history, arguments, thread schedule and memory failures, no call reads or writes outside live memory or outside the arrays its caller provides, frees memory twice or mismatched, ends the process by a signal or an uncaught exception, or runs without end. Arrays sized as the interface prescribes are never overrun.",
     ["histories", "inputs", "fault_sequences", "schedules"], "every history of calls of the whole interface, with valid and invalid arguments, allocation failures and thread interleavings",
     "The tests call functions on a few well-formed inputs and do not see an out-of-range access that happens to hit mapped memory.",
     [API, MESH, M2D, CG], [("range checks of indices and sizes", API), ("validity checks of nodes, edges and faces", MESH)])
prop("C10", "Queries change nothing and agree with their announced sizes",
     "A query (a call that only asks for data) leaves the content of every state, the history and the result of every later call unchanged: histories with and without the queries, or with queries repeated, give the same results. Asked twice in a row, a query gives the same answer, and a call that fills arrays fills exactly as much as the preceding call announced.",
     ["histories", "inputs"], "every history with queries inserted at any place",
     "A test queries at the end; the effect of a query on later edits (cached trees, administration, kept arrays) is not tested.",
     [API, MESH, M2D], [("queries work on const data or rebuild caches only", API), ("arrays kept between the announcing and the filling call", "libs/MeshKernelApi/include/MeshKernelApi/State.hpp")])
prop("C11", "Every state stays structurally valid",
     "After any history of calls, successful or failing, every mesh that is read back is well formed: edges join existing valid nodes or are marked removed as a whole, every face is a closed ring of at least three distinct valid nodes joined by its listed edges, faces and edges list each other consistently, no edge belongs to more than two faces, the announced numbers of valid nodes and edges are right. Merging, deleting and moving nodes of a mesh leave no edge twice and no edge from a node to itself. Grid nodes are valid or missing as a whole, and contacts come in pairs.",
     ["histories", "inputs", "fault_sequences"], "every history of calls with valid and invalid arguments, including undo and redo",
     "Tests compare counts and coordinates after single operations on fresh meshes.",
     [MESH, M2D, CG, API], [("administration of nodes, edges and faces is rebuilt after edits", MESH), ("face search", M2D)])
prop("C12", "Memory is given back",
     "When all states have been expunged and the history is cleared, no memory allocated for them remains, whatever calls were made, also when calls failed half way for any reason. Repeating the same calls any number of times does not let memory grow.",
     ["histories", "fault_sequences"], "every history, with invalid arguments and allocation failures, followed by expunging and clearing",
     "Tests do not look at memory; the sanitizer-free test program ends with everything still alive.",
     [API, US, "libs/MeshKernel/src/TriangulationWrapper.cpp"], [("ownership by smart pointers and containers", API), ("explicit release of the triangulation's arrays", "libs/MeshKernel/src/TriangulationWrapper.cpp")])
prop("C13", "Failures are reported, with the right code and a message",
     "Every call returns one of the documented exit codes; a call on a state that does not exist always returns a failure. After a failing call the error interface returns the message (non-empty, terminated within the caller's array) of that failure, and that of the latest one only; the reported invalid mesh item belongs to the latest geometry error. Successful calls and the error interface itself do not disturb this.",
     ["histories", "fault_sequences", "inputs"], "every history with failing calls of every kind",
     "Tests check single failures on fresh states.",
     [API, "libs/MeshKernel/include/MeshKernel/Exceptions.hpp"], [("one handler turns exceptions into codes and keeps the message", API)])
prop("C14", "Answers depend on the content, not on how it was reached",
     "Two states with the same readable content (all of it in one projection) give the same answers to every query and the same result for every next edit, however the content was reached: by edits, by undo and redo, or by setting it directly in a fresh state; the same edit made again after its undo gives the same result. No search tree, polygon, length or other derived data outlives the content it was made from.",
     ["histories", "inputs"], "every history, compared with a fresh state that was given the same content",
     "Tests ask each question once on a fresh mesh; out-of-date derived data only shows when a question precedes an edit and is repeated after it.",
     [MESH, M2D, API, CG], [("flags that force trees and administration to be rebuilt after an edit", MESH), ("projection change rebuilds trees", API)])
PURE = [
    ("C15", "Refinement and creation cover the requested area", "Refining, de-refining or creating a mesh covers the same area as the input or the given polygon, without holes or overlaps, and refined cells meet the requested size.",
     ["libs/MeshKernel/src/MeshRefinement.cpp", "libs/MeshKernel/src/CasulliRefinement.cpp"], "area conservation of one refinement is a function of its input only"),
    ("C16", "Orthogonalization and smoothing improve the mesh", "Orthogonalization lowers the orthogonality measure and smoothing the smoothness measure of a mesh, without folding cells.",
     [OAS], "the quality of the result is a numerical function of the input mesh; its independence of schedules and steps is C06 and C08"),
    ("C17", "Interpolated values stay within the range of the samples", "Averaging and triangulated interpolation of samples give values within the range of the samples used and missing values outside their extent.",
     ["libs/MeshKernel/src/AveragingInterpolation.cpp", "libs/MeshKernel/src/SampleTriangulationInterpolator.cpp"], "numerical function of samples and locations"),
    ("C18", "Coordinate conversion and its inverse cancel", "Converting a mesh between Cartesian and spherical coordinates and back gives the original coordinates within rounding.",
     ["libs/MeshKernel/include/MeshKernel/ProjectionConversions.hpp"], "numerical function of coordinates"),
    ("C19", "Polygon and contact geometry is right", "Offsets, refinement, inclusion tests, snapping and 1D-2D contacts agree with their geometric definition.",
     ["libs/MeshKernel/src/Polygons.cpp", "libs/MeshKernel/src/Contacts.cpp"], "geometric function of the input"),
]
for id, title, st, files, why in PURE:
    prop(id, title, st, ["inputs"], "every input", "Tests sample a few inputs; the input space is continuous.", files, [("the algorithm itself", files[0])])

TECH = "deterministic simulation: seeded search over histories, faults and schedules of the real library; "
LV = {
    "C01": ("executable reference model of the history checked after every undo and redo", "Every content comparison is exact on all observables of the interface."),
    "C02": ("executable reference model of the history (refinement) checked after every call", "Counts, ids and order are compared after every call."),
    "C03": ("each client's projection of an interleaved run compared with its solo run", "Bitwise comparison of everything the client observed."),
    "C04": ("invariants on all other states and usability probes after every failing call", "Allocation failures at seeded positions, invalid arguments of every operation."),
    "C05": ("every k-th allocation of a call failed in forked copies of the run, content and history compared, call retried", "All allocations of small calls, a seeded sample of those of large ones."),
    "C06": ("parallel regions re-run under many seeded interleavings with race detection, results compared bit for bit", "Interleavings at the granularity of instrumented memory accesses; sequential consistency assumed."),
    "C07": ("twin runs under different heap contents, placement and stack garbage compared bit for bit", "Garbage patterns and placements chosen by the seed."),
    "C08": ("sessions interleaved with other calls compared with the uninterrupted session", "Sessions of orthogonalization and line shift."),
    "C09": ("every memory access of the library checked against the simulated heap, step limit for termination", "Heap and caller arrays are checked at byte granularity; stack overruns only when they crash."),
    "C10": ("twin runs with and without queries, and repeated queries, compared bit for bit", "All queries of the catalogue."),
    "C11": ("well-formedness invariants on all states after every call", "All meshes read back through the interface."),
    "C12": ("live memory of the simulated heap compared before and after complete histories with faults", "Byte-exact accounting of the library's heap."),
    "C13": ("exit codes and error interface checked after every call", "Seeded faults and invalid arguments of every operation."),
    "C14": ("answers and next edits compared with those of a fresh state set to the same content", "Content copied through the interface."),
}
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
TRUST = " Assumes calls from one thread at a time, as the interface requires; trusts the compiler, the instrumentation and the observation functions. Exploration, not proof: it covers the runs of the given seed and budget."


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sim/build.py",
         "checks": [{"property": c, "quick_cmd": "python3 check.py " + c, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + c,
                     "technique": TECH + LV[c][0], "level": "fault_enumeration" if c == "C05" else "exploration", "level_note": LV[c][1] + TRUST} for c in CLAIMED],
         "not_applicable": [{"property": id, "reason": "Not decidable by schedules or faults: " + why + "; no concurrency, time, I/O or multi-party behaviour is involved."} for id, _, _, _, why in PURE]
         + [{"property": c, "reason": "The check is not finished."} for c in LV if c not in CLAIMED],
         "notes": "No hooks in /repo: the seams are operator new/delete and malloc, the OpenMP runtime entry points and the compiler's access instrumentation, all outside the sources."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
