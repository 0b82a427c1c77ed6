#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "observe_at": observe, "hook_needed": None}})

MODEL = ("A valid model: a stage-structured (layered) dynamic program whose states determine their stage, the sink may be "
         "reached at different depths; merge, local bound and dominance are admissible; |objective| < 2^31-1.")
NOTEST = "The repository's tests only exercise Vec, the bit sets, the pool and the sort on fixed inputs; "

p("C01", "Branch and bound returns the true optimum",
  "For every valid model (layered: every state belongs to one stage, only the sink may be reached at several depths), minimising or maximising, and every width of at least one, the search run to completion leaves the primal bound equal to the true optimum of the model; if the model has no solution the primal bound stays at its initial value and no solution is reported. "
  "This holds whatever combination of admissible local bound, admissible dominance rule and partial (state-pair refusing) merge operator the model supplies, and wherever in the diagram the sink can be reached.",
  ["inputs", "configurations"], MODEL + " For every such model, width >= 1, direction, option set.",
  NOTEST + "no test runs a search at all, and optimality is a statement about every model, width and option set.",
  ["src/search.cpp", "src/dd.cpp", "src/dd.hpp", "src/heap.hpp"],
  [("best-first loop, pruning by dual key, cutset branching, widening", "src/search.cpp BAndB::search"),
   ("duplicate-state filter of open nodes", "src/dd.hpp DDNodeAllocator::cloneNode"),
   ("dual bound / cutset", "src/dd.cpp Relaxed::compute, Relaxed::computeCutSet")],
  ["Bounds::getPrimal after BAndB::search", "solution callback"])

p("C02", "Every reported solution is a real solution with the reported value",
  "Every solution handed to a solution callback or returned as a diagram's incumbent, by the search, the exact, the restricted and an exact relaxed diagram, is a complete sequence of labels that the model's own label, transition and cost functions replay from the initial state to the sink. "
  "Its total cost equals the primal bound (or diagram optimum) announced with it at that moment.",
  ["inputs", "configurations", "histories"], MODEL + " Every callback of every run, including runs cut by a limit and sub-diagrams rooted at any open node.",
  NOTEST + "no test looks at an incumbent; labels are copied between nodes, merged nodes and pools and any slip is input dependent.",
  ["src/dd.hpp", "src/dd.cpp", "src/node.hpp", "src/search.cpp"],
  [("optimal label sequences carried on nodes", "src/dd.cpp WidthBounded::tighten, Restricted/Relaxed::compute, AbstractDD::computeBest"),
   ("incumbent publication", "src/dd.hpp DD::update, Bounds::setIncumbent"), ("prefix kept when a node becomes a root", "src/node.cpp ANode copy, src/dd.hpp Node::resetWith")],
  ["Bounds solution callbacks", "AbstractDD::incumbent"])

p("C03", "The primal bound only improves, and a given primal bound is honoured",
  "During a search every reported solution is strictly better than the primal bound in force before it, so the reported values are strictly monotone. "
  "A primal bound set before the search is honoured: only strictly better solutions are reported, the final bound is the better of the given bound and the true optimum, and when nothing better exists the given bound is left untouched and no solution is reported.",
  ["inputs", "histories"], MODEL + " For every initial bound (none, worse than, equal to, better than the optimum) and every callback history.",
  NOTEST + "nothing exercises Bounds.",
  ["src/dd.hpp", "src/dd.cpp", "src/search.cpp"],
  [("apply only updates on strict improvement", "src/dd.cpp AbstractDD::apply"), ("Bounds::attach keeps a set primal", "src/dd.cpp Bounds::attach"),
   ("update", "src/dd.hpp DD::update")], ["solution callbacks", "Bounds::getPrimal"])

p("C04", "The exact diagram computes the optimum",
  "Compiling a model with the exact strategy yields, as the diagram's optimum, the best cost over all root-to-sink label sequences (the initial sentinel if there is none), with an incumbent achieving it, and the diagram is flagged exact. "
  "It holds for every acyclic model, including those where a state is reachable along paths of different lengths, and for stage-structured models an admissible local bound does not remove any solution better than the current primal bound.",
  ["inputs", "configurations"], "Every finite acyclic model (layered or not), both directions, with or without local bound and primal bound.",
  NOTEST + "no test compiles a diagram.", ["src/dd.cpp", "src/dd.hpp", "src/heap.hpp", "src/queue.hpp"],
  [("breadth-first compilation and topological longest/shortest path", "src/dd.cpp Exact::compute, AbstractDD::computeBest")],
  ["AbstractDD::currentOpt, incumbent, isExact after compute/apply"])

p("C05", "A restricted diagram is feasible, within width, and exact only if complete",
  "A restricted diagram of a layered model, of any width of at least one, never reports a value better than the true optimum of the sub-problem it was built from, and any finite value it reports is achieved by its incumbent. "
  "It never expands more states in one layer than its width, and if it is flagged exact then its value is the true optimum of the sub-problem (as far as better than the primal bound in force).",
  ["inputs", "configurations"], MODEL + " Every root (initial or open node), width >= 1, primal bound, option set.",
  NOTEST + "no test compiles a diagram.", ["src/dd.cpp", "src/dd.hpp"],
  [("layer truncation and exactness flag", "src/dd.cpp Restricted::compute, WidthBounded::pullLayer/estimate"), ("dominance", "src/dd.cpp Restricted::checkDominance")],
  ["AbstractDD::currentOpt/isExact/incumbent", "label-generation calls per stage"])

p("C06", "A relaxed diagram is a valid dual bound, exact only if exact",
  "The value of a relaxed diagram of a layered model, of any width of at least one, is never worse than the true optimum of the sub-problem it was built from, whenever that optimum improves on the primal bound in force. "
  "If the diagram is flagged exact its value is that optimum, and when the model's merge never refuses a pair no layer expands more states than the width.",
  ["inputs", "configurations"], MODEL + " Every root (initial or open node), width >= 1, primal bound, option set, merge-refusal pattern.",
  NOTEST + "no test compiles a diagram or merges nodes.", ["src/dd.cpp", "src/dd.hpp"],
  [("layer merging and arc transfer", "src/dd.cpp Relaxed::mergeLayer/mergeOne/mergePair/transferArcs"), ("merged bound", "src/dd.hpp DD::merge"), ("sink value", "src/dd.cpp WidthBounded::tighten")],
  ["AbstractDD::currentOpt/isExact", "label-generation calls per stage"])

p("C07", "The cutset of a relaxed diagram covers every improvement",
  "Every node in the cutset of a relaxed diagram of a layered model is an exact state: its label prefix replays on the model to exactly that state with exactly the recorded cost, and recorded cost plus recorded completion bound is never worse than its best real completion that improves on the primal bound. "
  "After a relaxed diagram that is not exact has been applied, the best solution of the sub-problem that improves on the primal bound either has already become the primal bound or passes through a cutset node. The cutset is a frontier: each of its nodes has a child that is not exact.",
  ["inputs", "configurations"], MODEL + " Every inexact relaxed diagram reached by branching from cutset nodes to any depth, all widths and option sets.",
  NOTEST + "cutsets are never computed in tests.", ["src/dd.cpp", "src/dd.hpp", "src/search.cpp"],
  [("frontier of exact nodes", "src/dd.cpp Relaxed::computeCutSet"), ("backward bounds", "src/dd.cpp AbstractDD::computeBestBackward"), ("exactness propagation", "src/dd.hpp DD::makeNode, src/dd.cpp Relaxed::mergePair")],
  ["AbstractDD::computeCutSet", "ANode getters"])

p("C08", "Runs are independent and repeatable",
  "Running the search again on the same diagram object, on a fresh object, at other widths, after other searches or compilations, or compiling one sub-problem after another in the same diagram, gives for each run the value it would give on a fresh object. "
  "Nothing computed for one root, primal bound or run leaks into the next, and a duplicated diagram behaves like the original.",
  ["histories", "configurations"], MODEL + " Every interleaving of searches/compilations over shared diagram, bounds-listener and strategy objects.",
  NOTEST + "reuse histories are unbounded and none is tested.", ["src/dd.hpp", "src/dd.cpp", "src/search.cpp", "src/store.cpp"],
  [("reset to baseline mark, hash table generation counter", "src/dd.hpp DD::reset/makeInitFrom, src/lighthash.hpp clear"), ("duplicate", "src/dd.hpp DD::duplicate")],
  ["AbstractDD::currentOpt/isExact/incumbent/cutset per run", "Bounds::getPrimal"])

p("C09", "A limit stops the search cleanly and the final report is truthful",
  "When the user's limit predicate first returns true the search returns without exploring any further node, and the primal bound and last reported solution are then a real solution of the model, or still the initial bound. "
  "The final summary line states the configured width, the final primal bound, and says the limit was hit if and only if the predicate stopped the search.",
  ["inputs", "fault_sequences"], MODEL + " Every iteration at which the limit can fire, on every model.",
  NOTEST + "no test sets a limit.", ["src/search.cpp", "src/search.hpp"],
  [("limit test at node extraction; Done line", "src/search.cpp BAndB::search")],
  ["limit predicate call count vs model callbacks afterwards", "stdout summary line", "Bounds::getPrimal"])

p("C10", "Branch and bound terminates within a bound given by the model",
  "For every valid finite layered model and every width of at least one the search terminates, extracting no more open nodes than the number of distinct (state, path value) pairs of the model plus one extraction per unit of widening needed to make the root's children fit. "
  "In particular it terminates when the width is smaller than the branching factor, when merging is refused, and when the model is infeasible.",
  ["inputs", "configurations"], MODEL + " All widths >= 1, including widths below the branching factor, and infeasible models.",
  NOTEST + "termination is a liveness statement over all inputs; restated here as a bound on logical steps.",
  ["src/search.cpp", "src/dd.cpp", "src/dd.hpp"],
  [("widening when the cutset is the root", "src/search.cpp"), ("duplicate-state filter", "src/dd.hpp DDNodeAllocator::cloneNode")],
  ["limit predicate calls (one per extraction)"])

p("C11", "No memory error or undefined behaviour",
  "No sequence of valid calls to the library (building and solving models, compiling diagrams, using the containers and sets within their documented domain) performs an out-of-bounds or use-after-free access, reads an invalid value or executes undefined behaviour, and no internal assertion of a debug build fails.",
  ["inputs", "histories", "configurations"], "Every valid model and call history; containers within the domains stated in their own properties.",
  NOTEST + "they are run without sanitizers, in release mode, on fixed inputs.",
  ["src/dd.hpp", "src/dd.cpp", "src/node.cpp", "src/vec.hpp", "src/store.cpp", "src/search.cpp", "src/util.hpp", "src/heap.hpp", "src/queue.hpp"],
  [("manual pool allocation, placement new, raw handles, intrusive lists", "src/store.cpp, src/node.hpp, src/vec.hpp"), ("assertions", "src/*.hpp")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, assertions"])

p("C12", "Model states and memory are released",
  "Every model state the library constructs is destroyed exactly once: after a diagram, or a completed search with all its diagrams, is gone, constructions and destructions of states balance and no heap memory is left unreleased. "
  "Recompiling in the same diagram releases the states of the previous compilation, so neither the number of live states nor the heap in use grows when compilations are repeated. "
  "The library's containers (sets, arrays, matrices, heap, queue, tables, pool, vectors, union-find, node lists) likewise leave no heap memory behind, whatever history of copies, moves, assignments and growth they had.",
  ["inputs", "histories"], MODEL + " Every call history of compile/apply/search/destroy and of the containers' operations, state types with owning members included.",
  NOTEST + "nothing counts states or runs leak detection.", ["src/dd.hpp", "src/dd.cpp", "src/search.cpp", "src/pool.hpp", "src/util.hpp", "src/queue.hpp", "src/store.cpp", "src/uf.hpp"],
  [("reset destroys all nodes of the table", "src/dd.hpp DD::reset"), ("open-node allocator", "src/dd.hpp DDNodeAllocator, AbstractNodeAllocator")],
  ["constructor/destructor counts of the model's state type", "LeakSanitizer"])

p("C13", "A compiled diagram is a consistent, correctly labelled graph",
  "In every compiled diagram the incoming and outgoing arc lists of all nodes agree, the graph is acyclic, distinct nodes hold distinct states, and every arc carries a label and the cost that the model gives for its source state. "
  "Without dominance, every arc leads to the state the model's transition gives or, in a relaxed diagram, to one the merge operator produced from it; every node's value is the best over its incoming arcs and, in a relaxed diagram, its completion bound is the best over its outgoing arcs. Without a local bound, every expanded node of an exact or relaxed diagram has exactly one arc for every generated label that has a transition.",
  ["inputs", "configurations"], MODEL + " All three strategies, all widths, sub-problem roots included.",
  NOTEST + "no test compiles a diagram.", ["src/dd.cpp", "src/node.cpp", "src/node.hpp", "src/dd.hpp"],
  [("arc bookkeeping", "src/node.cpp ANode::addArc/disconnect, src/dd.cpp transferArcs"), ("state table", "src/lighthash.hpp"), ("bounds", "src/dd.cpp computeBest/computeBestBackward/tighten")],
  ["ANode and Edge public accessors from the root"])

p("C14", "Local bounds and dominance only prune: the answer never changes",
  "For a fixed model and width the search returns the same optimal value whether the model supplies no, or any, admissible local bound (arbitrarily loose or perfectly tight, differing between calling contexts) and no, or any, valid dominance rule (partial, symmetric on ties, or total). "
  "A dominance rule is only ever applied to drop a state whose value so far is no better than that of its dominator.",
  ["inputs", "configurations"], MODEL + " All pairs (option set A, option set B) on the same model.",
  NOTEST + "options multiply the configuration space and none is tested.", ["src/dd.hpp", "src/dd.cpp", "src/search.cpp"],
  [("bound test in transitions", "src/dd.hpp DD::transition"), ("dominance checks", "src/dd.cpp checkDominance, src/search.cpp")],
  ["Bounds::getPrimal", "dominance callback calls"])

p("C15", "The engine respects the contract of the model's callbacks",
  "The transition and cost functions are only ever called with a state and a label that the label function generated for that state, cost only where a transition exists; the sink is never expanded, merged or evaluated for labels. "
  "Merge is only called on two different non-sink states of the same stage, dominance only on states the model produced, and the local bound function receives the search context for open nodes and the diagram context during compilation.",
  ["inputs", "histories"], MODEL + " Every callback invocation of every run.",
  NOTEST + "no test defines a model; user callbacks index arrays by label and rely on this.", ["src/dd.hpp", "src/dd.cpp", "src/search.cpp"],
  [("expansion loops", "src/dd.cpp Exact/Restricted/Relaxed::compute"), ("merge guards", "src/dd.cpp Relaxed::mergeOne"), ("sink test", "src/dd.hpp DD::eqSink")],
  ["the model's own callbacks"])

p("C16", "Fixed-size natural sets implement set algebra",
  "A fixed-size bit set over [0, 64w) behaves as the mathematical set for every sequence of operations: construction from list, interval, copy and move, insertion, membership, size, emptiness, largest element, complement within capacity, union, intersection, equality, ascending iteration and printing. "
  "The reflection ofs - S of a set with ofs >= max(S) and ofs < 64w is exactly { ofs - v : v in S }.",
  ["inputs", "histories"], "Every operation sequence, word count w and element in [0, 64w).",
  "test6/test7 check a handful of fixed sets; the reflection has shift cases for every word/bit offset.", ["src/util.hpp"],
  [("NatSet word operations and reflection by bit reversal", "src/util.hpp NatSet")], ["public API vs std::set reference"])

p("C17", "Growing natural sets implement set algebra",
  "A growing bit set behaves as the mathematical set of naturals (elements below one million) for every sequence of operations, whatever capacity it was created with: construction from list, interval, range, fixed-size set, copy and move, insert, remove, complement within capacity, union, intersection, difference, removal of everything above or below a value, membership, size, equality and inequality, ascending iteration, minimum, maximum, filter and sums. "
  "A moved-from set can be assigned again.",
  ["inputs", "histories"], "Every operation sequence over naturals below 10^6 and every starting capacity, including empty ranges.",
  "test6 samples few small sets of one capacity.", ["src/util.hpp"], [("GNSet word array and growth", "src/util.hpp GNSet")],
  ["public API vs std::set reference"])

p("C18", "Equal values hash equally and states are identified by equality only",
  "For every state component type the library provides a hash for (fixed and growing sets, vectors, standard sets, arrays), values that compare equal have equal hashes however they were built. "
  "A diagram identifies states exactly by equality: equal states share a node and unequal states never do, whatever the quality of the hash (even a constant one), so the result does not depend on the hash.",
  ["inputs", "histories"], "All pairs of equal values built by different operation histories; all hash functions consistent with equality.",
  "The tests never hash equal values of different capacity or force collisions.", ["src/util.hpp", "src/lighthash.hpp", "src/dd.hpp"],
  [("hash specialisations", "src/util.hpp"), ("chained lookup by equality", "src/lighthash.hpp getLoc"), ("node table", "src/dd.hpp DD::makeNode")],
  ["std::hash results", "AbstractDD results under degenerate hashes"])

p("C19", "The priority heap extracts in order and supports removal by handle",
  "For every history of insertions, bulk building, extractions, key decreases through handles and removals through handles, and any initial capacity of at least one, the heap holds exactly the elements inserted and not yet removed. "
  "Extraction returns an element that no remaining element beats, removal through a handle removes exactly that element, handles stay valid across growth, and finding a value returns a handle to a held element with that value, or nothing if there is none.",
  ["inputs", "histories"], "All operation histories and orders (strict weak), ties included.",
  NOTEST + "the heap has no test.", ["src/heap.hpp"], [("binary heap over stable locations", "src/heap.hpp Heap")], ["public API vs multiset reference"])

p("C20", "The circular queue is FIFO and loses nothing",
  "For every history of enqueue, dequeue, peek, clear, traversal and fold, any initial size and across growth and wrap-around, elements leave in exactly the order they entered, none lost or duplicated, the count is right and an empty queue says so. "
  "A fold visits the elements in queue order and stops at the first non-zero accumulator. Retracting an element, by handle or by value, removes exactly one such element and keeps all others.",
  ["histories"], "All operation histories and initial sizes.", NOTEST + "the queue has no test.", ["src/queue.hpp"],
  [("ring buffer of locations with doubling", "src/queue.hpp CQueue")], ["public API vs deque reference"])

p("C21", "Hash tables are maps for any capacity and any hash",
  "For every requested capacity and hash function and every history of insert, insert-at-location, lookup, clear and traversal, the pool-based hash tables answer as a map: a lookup finds exactly the keys inserted since the last clear with their latest value, sizes are right, and traversal visits each entry exactly once.",
  ["inputs", "histories"], "All capacities (zero and one included), all hash functions, all histories.",
  NOTEST + "the tables have no test.", ["src/hashtable.hpp", "src/lighthash.hpp"],
  [("chaining with generation counter", "src/hashtable.hpp, src/lighthash.hpp")], ["public API vs std::map reference"])

p("C22", "Pool allocations are disjoint, aligned and stable until cleared",
  "Every block allocated from a pool, of any positive size including sizes above the segment size, is 16-byte aligned, lies in memory the pool owns, overlaps no other live block, and keeps its contents until the pool is cleared to a mark taken before it. "
  "Clearing to a mark keeps all blocks allocated before the mark and lets the memory after it be reused, without growth when the same pattern repeats.",
  ["inputs", "histories"], "All allocate/mark/clear histories (marks used in stack order), all segment sizes.",
  "test2/test4 allocate a few fixed sizes.", ["src/store.hpp", "src/store.cpp"],
  [("segmented bump allocation", "src/store.cpp Pool::allocate"), ("marks", "src/store.hpp Pool::mark/clear")], ["addresses and contents of blocks"])

p("C23", "Pool vectors behave as vectors",
  "For every history of push, pop, indexed write, read, swap-removal with relinking, clear, copy (also into another pool), move and iteration, a pool vector holds exactly the elements a plain sequence would, and copies are independent of their source. "
  "Removal moves only the last element into the hole and reports that element to the relink callback.",
  ["histories"], "All operation histories, initial capacities and index types.",
  "test1/test3 push a few values.", ["src/vec.hpp"], [("pool-backed growth, swap removal", "src/vec.hpp Vec")], ["public API vs std::vector reference"])

p("C24", "Merge sort orders every array",
  "For every array and every strict weak order, sorting produces a permutation of the input in which no element is preceded by one it should precede, for all lengths including zero and one.",
  ["inputs"], "All arrays (lengths up to tens of thousands), all strict weak orders, heavy ties included.",
  "test5 sorts a few arrays.", ["src/msort.hpp"], [("top-down merge with alternating buffers", "src/msort.hpp")], ["array contents"])

p("C25", "Union-find maintains the partition",
  "For every history of set creation, merging and lookup, two elements have the same representative if and only if they have been connected by merges, and merging returns the representative of the merged set.",
  ["histories"], "All merge/lookup histories.", NOTEST + "union-find has no test.", ["src/uf.hpp"],
  [("union by size with path compression", "src/uf.hpp UnionFind")], ["setFor results vs reference partition"])

p("C26", "Ranges, arrays, matrices and set helpers compute what they say",
  "Ranges iterate exactly the integers from start (included) to end (excluded; included for closed ranges) in their direction with the matching size; fixed arrays and matrices return what was stored at each index, with deep copies, working moves and element-wise equality. "
  "The standard-set helpers (union, intersection, removal, filter, minimum, maximum, membership, fold, sums) compute the corresponding mathematical results.",
  ["inputs", "histories"], "All bounds (ascending, descending, empty), sizes, dimensions and sets.",
  NOTEST + "these helpers are barely touched.", ["src/util.hpp"], [("Range, FArray, FMatrix, helper templates", "src/util.hpp")], ["public API vs reference"])

p("C27", "Node sequences keep order under erasure and sorting",
  "The array of node handles used for layers and the intrusive node list behave as sequences for every history: pushing, popping, erasing at an iterator, truncating, removing a given node, sorting and re-adding a removed node leave exactly the expected nodes in the expected order, with the right count, each visited once by iteration.",
  ["histories"], "All operation histories within the documented preconditions.",
  NOTEST + "these have no test.", ["src/dd.hpp", "src/node.hpp"], [("NDArray with holes", "src/dd.hpp NDArray"), ("intrusive doubly linked list", "src/node.hpp ANList")], ["public API vs std::vector reference"])

p("C28", "The exported graph is the compiled diagram",
  "Displaying a compiled diagram writes a complete DOT graph in which every node of the diagram appears exactly once with its exactness colour and the sink shape, and every arc appears exactly once with its cost and label, for any diagram size. "
  "The textual listing likewise names every arc exactly once. Displaying never alters the diagram, and the calling program continues exactly once even when the viewer or layout programs are missing.",
  ["inputs", "configurations"], "All compiled diagrams of the three strategies; viewer programs present or absent.",
  NOTEST + "display is never called in tests.", ["src/dd.cpp"], [("saveGraph/display", "src/dd.cpp AbstractDD::saveGraph/display")], ["the DOT file written, the process tree, the diagram afterwards"])

p("C29", "Elapsed times are true",
  "On every call the limit predicate receives the wall-clock time in milliseconds since this search began: never negative, never decreasing within a search and starting afresh with the next search, also on the same engine. "
  "The times in the final summary are the time of the last reported solution (zero if there was none) and of the whole search, in seconds, and the library's clock helpers convert between instants, milliseconds, seconds and microseconds accordingly.",
  ["inputs", "schedules", "histories"], MODEL + " Every search, with model callbacks of any duration.",
  NOTEST + "nothing measures time.", ["src/search.cpp", "src/RuntimeMonitor.cpp"],
  [("start/now instants of the search loop", "src/search.cpp BAndB::search"), ("clock helpers", "src/RuntimeMonitor.cpp")],
  ["argument of the limit predicate against our own monotonic clock, with injected delays", "summary line"])

p("C30", "The search log tells the truth",
  "Everything the search prints while it runs is true at that moment. A progress line shows the number of nodes explored so far, the primal value then in force, and a dual value that bounds the optimum whenever a better solution still exists (with a primal above zero, the gap is their relative distance in percent); one is printed at the next node once five seconds have passed since the last. "
  "Every solution is logged exactly once with the value and labels delivered to the listeners, the root bound shown is the model's local bound of the initial state, and the final line counts the nodes extracted and explored and no more dominated nodes than the dominance test found.",
  ["inputs", "configurations", "schedules"], MODEL + " Every search, width, option set, limit and warm start, with model callbacks of any duration.",
  NOTEST + "no test runs a search or reads its output.", ["src/search.cpp", "src/dd.hpp"],
  [("progress line, counters and final line", "src/search.cpp BAndB::search"), ("tightening lines", "src/dd.hpp DD::update")],
  ["std::cout, with markers interleaved by the limit predicate and a solution listener"])

p("C31", "Every listener hears every solution exactly once",
  "Every solution listener registered with a bounds object (given at construction or added before or between runs) is called exactly once for every improving solution that a search or a compiled diagram finds with that object, in order of registration, all with the same labels and with the primal bound already set to that solution's value. "
  "The last solution delivered by a completed search is an optimal one, a search that cannot improve the given bound delivers none, and the bound never changes without a notification.",
  ["inputs", "histories", "configurations"], MODEL + " Every number of listeners, every history of runs on one bounds object.",
  NOTEST + "no test registers a listener.", ["src/dd.hpp", "src/dd.cpp", "src/search.cpp"],
  [("listener list", "src/dd.hpp Bounds::setIncumbent, onSolution"), ("publication", "src/dd.hpp DD::update, src/dd.cpp AbstractDD::apply")],
  ["trace of all listener calls"])

p("C32", "Handles behave as the pointers they wrap",
  "A handle (handle_ptr, strict_ptr) designates the very object it was given through every history of construction, copying, moving, assignment from handles and raw pointers, and conversion from a derived class: dereferencing, get, the null test and equality (also between handles of base and derived class) agree with the plain pointers. "
  "Handles never create or destroy objects except that make_handle builds exactly one from its arguments and freeing destroys exactly the designated object once and leaves the handle null.",
  ["histories"], "All histories over base and derived objects; a moved-from handle is only assigned to, and no handle of a freed object is used.",
  NOTEST + "no test touches a handle.", ["src/handle.hpp"], [("handle_ptr, strict_ptr, make_handle", "src/handle.hpp")], ["public API vs raw pointers; construction and destruction counts"])

p("C33", "Standard vectors over a pool or arena keep their elements",
  "A std::vector using the library's allocator adapter over a pool or over a fixed arena holds exactly the elements a plain vector would for every history, in aligned storage taken from that pool or arena; vectors sharing it never disturb each other. "
  "A fixed arena hands out disjoint blocks inside its own bytes, grants a request exactly when that many bytes remain, otherwise throws without changing anything, and reports its capacity truthfully.",
  ["histories"], "All histories of vectors of one element type per arena (the arena packs blocks without padding), arenas of any size including one byte.",
  NOTEST + "the adapter is never instantiated.", ["src/stlAllocAdapter.hpp", "src/store.hpp"], [("bump allocation", "src/stlAllocAdapter.hpp CoreAlloc"), ("allocator adapter", "src/stlAllocAdapter.hpp StackAdapter")], ["vector contents vs reference; addresses and refusals"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P), "properties")
