PATHS = "path-sensitive abstract interpretation of the typed SSA of every path of the entry points (calls inlined, loops widened to a fixpoint), with "
NOTES = {
"G01": ("lockset dataflow over SSA: must-held locks per access of shared fields, package variables and captured variables, across all operations and goroutines", "Objects of one type are not told apart, so two instances' locks count as one."),
"G02": ("lock typestate dataflow over SSA (may- and must-held locks, lock order graph, blocking calls under a lock)", "Objects of one type are not told apart. Blocking inside third-party code is recognised by a list of packages."),
}
NOTES["G03"] = ("interprocedural value flow of contexts and requests over SSA", "Modular: each function reachable from an operation with a context or request is judged for what it passes on.")
NOTES["G04"] = (PATHS + "the errors of the calls made as ghosts, judged where functions, goroutines and loop turns end; plus a def-use pass for errors nobody looks at", "Modular: each function is judged with its callees as unknowns that may fail. Which errors are best effort is a list, given in DESIGN.md.")
NA = {
"Z01": "Canonicity quantifies over all pairs of URL texts and the equivalence net/url's parser and escaper induce on them: a fact about values of strings, not about which operations are performed, that no sound static argument in reach bounds. N01 decides that every rewrite is applied on every path; that the rewrites compose to a canonical form is not claimed.",
"Z02": "The number admitted in a window depends on run-time clocks and on the arithmetic inside golang.org/x/time/rate, which is not source of this repository. L02 decides that every admission waits for one token of one shared bucket built with the configured rate.",
"Z03": "A probability over the hash values of a third-party filter; no static rule of this family bounds it.",
"Z04": "Spacing of requests by different workers in real time is a property of schedules and clocks. (The code does not provide it: each worker waits the delay on its own, see DESIGN.md.) R03 and E05 decide that each request waits out the delay.",
"Z05": "Round-tripping arbitrary responses through httputil.DumpResponse and http.ReadResponse is a property of the byte values and of those library functions. D05 decides that the two sides use matching transformations and that no error becomes a value.",
"Z06": "Keys are 64-bit hashes: distinct requests can share one, so the property is false as a universal statement; the probability is a run-time quantity. C07 decides that method and full URL both enter the key.",
"Z07": "Termination and coverage of a crawl depend on the site's content, unbounded run-time data and fairness of the scheduler. Its static ingredients are claimed separately (E01, E02, E03, Q02, Q03).",
"Z08": "Equality of extracted text with the HTML standard's DOM is a property of the third-party parser and selector engine on arbitrary documents.",
}
