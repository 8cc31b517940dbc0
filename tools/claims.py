PTA = "whole-program points-to and effect analysis over SSA"
SUM = "abstract interpretation over SSA with loop summaries, compared with a declarative specification of the result"
CLAIMS = {
 "L03": (SUM, "Start version, replay and caching of Snapshot, for every log and version."),
 "L04": (SUM, "Version windows of Track and Slice, for every log and range."),
 "L05": (SUM, "Time windows of TemporalTrack, TemporalSlice and TemporalSnapshot, for every log and range."),
 "L06": (SUM, "Redundancy removal of Track, TemporalTrack, History and Compact."),
 "L08": (SUM + "; points-to analysis for ownership", "Versions, first snapshot, current state, pool and ownership of Slice and TemporalSlice."),
 "L11": (SUM, "Membership, order and initial entry of History."),
 "L02": (SUM, "Every outcome of Append compared with the specified state change, for every log and pool."),
 "L07": (SUM, "Every outcome of Set and TestSet, for every log, operation, leaf kind and kind of value."),
 "L01": (PTA, "Sound for the modelled language subset; every write reachable from a query is attributed to an object and compared with the allowed effects."),
 "L10": (PTA, "No write through Store reaches the caller's list and the log shares no backing array with it."),
 "P01": (PTA, "Effects and sharing of ApplyPatch, ApplyOperation and GeneratePatch over all documents."),
 "T05": (PTA, "Effects and sharing of all exported functions of the document package."),
 "L09": ("order-dependence dataflow over SSA (map ranges, sorts, iterators)", "Every loop over a map and every sort of the document, patch and log packages and the experiments."),
 "W01": ("taint analysis over SSA with numeric conversions as sanitisers", "Every file operation of the web server that a request can reach."),
 "V02": ("table agreement over SSA: settings read against settings provided", "Every unchecked read of a setting, every map of settings that can reach it, every flag."),
 "V01": ("context-sensitive value slicing over SSA (which dataset reaches which operand)", "The step and the series of the dataset generator, for every number of cars and files."),
 "X01": ("table agreement over SSA: sensor groups and categories", "Every function of the experiments that goes through, fills or searches the sensor groups, every configured sensor."),
 "X02": ("abstract interpretation over SSA: path conditions bound the generated value; def-use checks of the range parameters", "Every path of the number generator for every ranged pattern, every place that sets a range."),
 "P05": (SUM, "Every pair of kinds of documents in both modes; every key and index of two containers; the comparison is followed through its recursion by induction."),
 "P02": ("abstract interpretation over SSA with panic obligations (bounds, assertions, nil maps, comparisons, sizes, descent)", "Every operation that can panic on the way of ApplyOperation and ApplyPatch, for every kind of document, every path and value."),
 "P04": ("abstract interpretation over SSA with panic obligations (bounds, assertions, nil maps, comparisons, descent)", "Every operation that can panic on the way of GeneratePatch and GeneratePatchWithTimestamp, for every pair of kinds of documents that is reached."),
 "P06": (SUM, "Every kind of document, operation and value, at the root, at the last and at an earlier segment; deeper segments by induction over the recursion."),
 "T06": ("abstract interpretation of the lookup over SSA: per-kind cells with panic obligations, induction over the segments, inverse proof of the unescape table", "Every kind of document at the head of every list of segments; longer paths by induction over the recursion or the loop; every string as path for the split."),
 "T01": ("abstract interpretation of the hand-written parser over all inputs (symbolic byte sets, finite abstract states, recursion cut at the value parser); panic obligations of the JSON readers", "Every byte sequence: reads within the input, cycles of states without consumption, depth counted and checked on every recursive path; JSON readers for every decoded value. Unmodelled state handling is reported as undecided in the evidence."),
 "T02": ("abstract interpretation of every traversal, once for each kind of value (exhaustiveness of the type switches, use of every element in every loop path)", "cloning, printing, sorting, conversion to and from JSON, latest timestamp, diffing and applying: no kind is rejected by an error made up on the spot, each leaf's value reaches the result, each element of a container is used on every path of a loop over all elements, no panic"),
    "T07": ("product of the parser's abstract states with an automaton of the document syntax; every accepting return is checked for acceptance by the automaton", "Every byte sequence; nested values by induction over the recursion. The automaton is liberal about number forms, escapes and repeated leading timestamps."),
 "P08": ("abstract interpretation of the printing functions: the text of every outcome is a template that is parsed as JSON; each hole has to be an encoded field", "Operation.String, Operation.Marshal, Patch.String, Save, and every other exported function that prints operations: members, fields, encoders, exact timestamps, presence of the value, separators and completeness of lists, for every operation and patch."),
 "T04": ("abstract interpretation of the writers into one regular expression per kind of document, and of the parser over all texts of these expressions at once (finite automata, no text is given)", "the compact and the indented writer for every kind of document at the top and inside of containers: acceptance, the whole text is read, kind, timestamp, boolean and number provenance, number of elements, characters of strings"),
 "T03": ("abstract interpretation of every function that makes, prints or converts leaves: provenance of each printed or stored timestamp and value, path by path", "printing (compact, indented), conversions to and from JSON, cloning, parsing (every path of every function that reads a value), diffing and applying; whether a timestamp of 0 or a missing one is kept; timestamps left to a caller are followed to the places that pass leaves on"),
 "L12": (SUM, "Every outcome of NewLogument, for every form of document and patches: version list, snapshot, current state, recorded and pending operations."),
 "L13": (SUM, "The choice of the snapshot that every temporal state is built on, the operations before the window that make a time slice's first snapshot, and every other snapshot of a time slice, for every log and window."),
 "T10": ("abstract interpretation of both comparisons with provenance of the compared values", "Every pair of documents: how each compared value is made from its document, every outcome with a fixed answer."),
 "T09": ("abstract interpretation of every cloning, printing and converting function, once for each kind of value: key, index and value of what each loop stores; def-use checks of what the parser stores", "Every member, element and leaf of every document or JSON value; the parser's keys, lists, strings and numbers."),
 "T08": ("abstract interpretation of the search over SSA: per-kind cells, fold step of the running maximum, panic obligations", "Every kind of document; every element of every container, in any order; deeper levels by induction over the recursion."),
 "P03": (SUM, "The loop over the operations of a patch, for every patch and document: first document, order, each result, first error."),
 "P07": ("abstract interpretation of the comparison and of SplitPath; word-by-word inverse proof of the replacement tables", "Every path that any cell of the comparison writes; the escape and unescape tables for texts of every length; the list of segments for every path."),
 "E01": ("error-flow analysis over SSA (dominance of nil tests)", "Every call with an error result in the document, patch and log packages and the web server."),
}
NA = {
 "N01": "Whether formatting a float64 and parsing the text again gives the same bits is a statement about the arithmetic of strconv at run time, for which the repository's source only supplies the arguments. What the source decides is checked: T03 (the value printed is the leaf's, no narrowing conversion on the way) and T04 (every number form that is printed is accepted and becomes a number).",
 "N02": "Quantifies over measured sizes of generated workloads: a random, data-dependent run-time quantity that no static argument over the source bounds.",
 "N03": "Relational over two unbounded documents and the composition of two recursive functions, where index shifts of array operations interact over a whole patch; generation is also deliberately partial (containers that are added are errors). The local statements it is made of are decided: P05 (which operations with which values), P07 (which paths), P03 (order of application), P06 (effect of one operation). Their composition over all patches is out of reach of these summaries, and a run of the two functions would not be static analysis.",
 "N04": "Which document is the right one depends on the files in the data folder at run time, their names and contents; the source only fixes how names are built from numbers, which W01 decides.",
}
