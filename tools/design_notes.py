"""Per property: how it is decided (tools/design.py puts it in DESIGN.md)."""

NOTES = {
"C01": """Scenarios of 1-3 workers and 1-2 clients submitting returning, throwing, blocking and self-submitting tasks; per execution: each task ran once, on a pool thread, its future has its own outcome, order for one worker, n tasks in progress for n workers. Oracle: counters in the tasks plus race and deadlock detection. Quick bound 2-3 deviations, thorough deeper.""",
"C02": """Destruction of pools in every phase of their workers, with queued, running and throwing tasks, and failure of the k-th thread creation (a fault the engine injects). Timed waits never have to time out: a schedule in which they do not is explored as well, so a worker that only wakes by chance is reported. Oracle: termination, threads joined, future states.""",
"C03": """All programs of 2-3 threads with 1-2 operations each from push, try_pop, empty on queues of 0-2 elements; the history of each execution is checked for linearizability by brute force over the orders that respect real time. Also with move-only values.""",
"C04": """All numbers of threads up to 24 (thorough: more) times all sizes up to several hundred, 1d and 2d. Oracle: the blocks concatenated are 0..n-1; none empty; enough of them.""",
"C05": """Each parallel algorithm against its own sequential execution: 790 scenarios of algorithm x shape x threads. For small shapes all schedules within the deviation bound; for all shapes up to 11x5 the default schedule under the race detector - since race detection is by happens-before, one execution of a shape that is race free and partitions the data shows the absence of races for all schedules with the same synchronisation.""",
"C06": """Operations of our own (every state of every element: no-data, out of domain, out of range, fine - a full product over elements, ranks and policies) and the real ones over all no-data patterns; arguments of different types; results compared element by element with a per-element model.""",
"C07": """All 65536 pairs of 8 bit values and all pairs of boundary values of the other types, for all 64 type combinations. Oracle: __int128 arithmetic.""",
"C08": """All pairs of about 90 special values (zeroes, denormals, limits, infinities, nan, around every domain boundary) in float and double, and mixed with integers. Oracle: long double arithmetic, within a few ulp, and the documented domain.""",
"C09": """All pairs of values of 8 bit types, boundary values of the others, special floating point values. Oracle: the truth table, long double comparison.""",
"C10": """All no-data patterns and a product of values of all shapes up to 6 elements (thorough 9), per statistic, sequential and parallel; results wider than the argument type. Oracle: recomputation over the list of valid elements.""",
"C11": """All lists up to length 5 over small alphabets, all ways to build (constructor, assignment, one by one), all splits in up to three parts, both merge orders and groupings, with empty parts. Oracle: recomputation with long double and 128 bit integers.""",
"C12": """All 512 no-data patterns of 3x3 images (4096 of 3x4 and 4x3) for all 32 policy combinations, all kernel types; impulse responses in every position for radii 1-3 on images from twice the radius upwards; sequential and parallel. Oracle: the defining double loop.""",
"C13": """All no-data patterns of 3x3, 3x4, 4x3, patterns with few (un)masked cells of larger ones, several cell sizes, planes of all small integer gradients; images of two rows or columns; sequential and parallel. Oracle: Horn's formula with focal averages.""",
"C14": """As C13 for gradient, laplacian and lax. Oracle: the case distinctions of the documentation.""",
"C15": """All no-data patterns of all shapes up to 10 elements 1d, 3x4 2d, sequential and with pools of 2 and 3. Oracle: a filtered vector; round trip.""",
"C16": """All offsets from -(n+3) to n+3 in each dimension of all shapes up to 6 and 3x3, all no-data patterns, policies and fill value, sequential and parallel; also the smallest and largest offsets of 32 and 64 bit types. Oracle: index arithmetic per element.""",
"C17": """All combinations of condition/no-data/value states per element for all supported rank combinations up to 3-4 elements. Oracle: a per-element ternary.""",
"C18": """All special values of each pair of types. Oracle: truncation, rounding, non-zero-ness; which pairs have a range policy follows from what compiles.""",
"C19": """All no-data patterns of both arguments and the result; all sub-ranges and positions of copies. Oracle: per-element boolean formulas.""",
"C20": """Every collection type for every small shape, read by indexing, iterating, `data`, `get`; all short sequences of masking operations on small masked arrays and of assignments between masked scalars. Oracle: a vector of values and a vector of flags.""",
"C21": """Each operation runs on the same elements with the four ways of marking; the outcomes as text must be equal. The operations by themselves are decided, with masks, by C06-C19, which makes the masked run the oracle here. Not-a-number as a marker never equals anything and is outside of the space. One finding (lax), listed in known_findings.json.""",
"C22": """All short strings over alphabets chosen to contain the characters that matter. Oracle: loops over the characters.""",
"C23": """All short paths and data names. Oracle: the conventions written out on strings; how many of several leading slashes remain is left open, as standard libraries differ.""",
"C24": """Explicit exploration of all sequences of operations; the container is copied, assigned and moved at each step and the original checked again afterwards. Oracle: maps and vectors.""",
"C25": """All sets of flags. Oracle: bit operations on numbers.""",
"C26": """All histories of instances, and all exception points in nested scopes. Oracle: one flag per instance.""",
"C27": """`harness/ast.h` enumerates all scripts of a size from a grammar, writes them as XML with a writer of its own, and matches the parsed tree vertex by vertex. Spoiled documents: every prefix, every element renamed, removed or doubled, every attribute removed or garbled.""",
"C28": """All scripts of the grammar. Oracle: an environment of nested maps. Function definitions are left out: the code has no notion of parameters yet.""",
"C29": """All scripts of the grammar. Oracle: an interpreter that records what it evaluates for each vector of decisions, compared with the walk over the successors. An if without else has no edge for the false outcome; the walk then continues at its end, as the code's own tests have it. While statements (an unconditional assertion in the code) and functions called twice (one successor per vertex) are not supported by the code and outside of the space.""",
"C30": """All operations of a table with asymmetric parameters, on all types. Oracle: promotion by rank on sets of types; first error in evaluation order with all its details.""",
"C31": """All scripts of assignments. Oracle: two loops.""",
"C32": """Datasets are written through the C interface of GDAL (not through the code under test) in a scratch directory, or are text formats written by hand; missing bands, missing files, truncations and bands that do not read (the fault injected by removing or cutting the data file behind a header) follow. Oracle: the list of values written, compared bit for bit, and equality with the no-data value as stored. Histories of clients: all sequences of making and destroying them. What GDAL itself tolerates (formats that read zeros after the end of the file) is asked of GDAL first, and left out.""",
"C33": """All sequences of operations on handles, checked after each operation against a reference count per dataset; the open datasets are asked of the libraries themselves (GDALGetOpenDatasets, nc_inq_path over the ids). Reads: all sequences of three of twelve reads, most of which fail.""",
"C34": """Datasets are written through the C interface of netCDF, mostly in memory. Oracle: a tokenizer of a few lines, and the list of what was written. Refusals: a product of everything that can be wrong, in which the first in the stated order decides.""",
"C35": """Documents are written by the harness from a tree of its own, one element per line, so that the line of an error is known. Spoiling them covers every line. Oracle: the tree; for the position, the line of the element that does not belong.""",
"C36": """The harness has a reader of the language of its own (tokens, indentation, precedence as in Python), so the layout of the text and superfluous parentheses do not matter. Oracle: the script the tree was made from. An integral number keeps its value, not its size, which the language has no notation for; infinities and not-a-number have none either.""",
"C37": """Explicit exploration of all histories of additions. Oracle: a tree of maps with the objects stored, queried next to the feature at every path up to a depth, absolute and relative. Storing a second thing under a taken name, or below a feature that does not exist, is a precondition violation (assertions) and left out, as are cycles.""",
"C38": """All histories of additions. Oracle: the list of additions. Types: a table of all kinds of attributes.""",
"C39": """All combinations of arguments from a set with the characters that formatting libraries treat specially; all histories of copies. Oracle: the pieces of text between the arguments, joined. Scripts without a name, and statements that are empty, are precondition violations.""",
"C40": """The drawing is read by a reader of DOT of its own (so layout, colours and the order of declarations do not matter), and compared with the graph derived from the script and the links (uses, successors) of the tree, which C28 and C29 decide. Left out, as the code does not draw them yet: members of features, parameters of functions; functions and while in the flow graph.""",
"C41": """Operations, inputs and outputs are stand-ins that record each call with its arguments; each result carries the number of its event, so that values cannot be confused. Oracle: an evaluator of a page. If, while, subscripts and function definitions are not implemented by the code (TODO) and left out; operations have one result; a name without a value is a precondition violation.""",
"C42": """Crash points are those between operations: the file is copied while the dataset is open, and the copy read back; within an operation HDF5 makes no promise, and fern does not add one. Oracle: a map from path to type and value; the values are also read through the C interface of HDF5. Reading a whole feature is not implemented (assertion); writing another type over an attribute, an attribute over a feature, and a path without a feature are precondition violations. An empty file opened for update is a dataset to HDF5, and is left out; so is the answer for overwriting a link that leads nowhere.""",
}

LIMITS = """
- The largest shapes are those stated; nothing is claimed beyond them. The code has no size-dependent behaviour other than block division (C04) and borders (C12-C14), and the bounds contain every case of those.
- Schedules: the bound on deviations is stated in the evidence; scenarios with more than 3 workers are only run in one schedule (with race detection).
- `index_ranges` documents at most one block more than threads; it gives up to about twice as many for some sizes. Not claimed: no caller depends on it.
- Elements whose convolution involves only zero weights (`value_seen` with weight 0): the documentation does not settle them; C12 leaves them unspecified.
- `n_ary_local_operation` has no user; not claimed. `laplacian<float>`, cover and if-then of 1d arguments, and any-policy execution of 1d fill do not compile, and are not claimed.
- If one task of a parallel algorithm throws, the others keep references to the caller's stack. No algorithm's operation throws; not claimed.
- Comparisons of signed with unsigned integers follow C++'s conversions; C09 compares within a type.
- The XML parser takes an integer through a 32 bit int, asserts that a true block is not empty and that sizes are 8 to 64: documents outside of that are outside of C27. Values that do not fit the stated size are not claimed either.
- Threading of while statements and of functions that are called more than once, copying and optimizing of syntax trees, writing functions as text, and types of subscripts and attributes are not implemented (assertions, TODO); scoping of types and outputs in nested blocks neither. Not claimed.
- Reading a raster takes the shape as given (a raster of another shape is a precondition violation) and leaves the transformation alone; unsigned and signed 64 bit and signed 8 bit types of newer GDALs are not supported by the code. Files without read permission cannot be made here (root). `read_coards` reads scalars of type double only, the single type the code provides for.
- GPX names are compared for ASCII text and characters that need escaping.
- language/script, compiler, command, python and the reading of scripts in language/interpreter are not part of the build here (the parser needs an interface of Python that no longer exists) and are not claimed. The execution of a syntax tree (C41) is compiled by the check itself.
"""
