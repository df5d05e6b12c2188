VG = 'dataflow: gated value numbering on SSA to canonical terms, '
REAL = ' Arithmetic is exact real arithmetic (rounding, overflow and NaN are outside); trusted: go/types, x/tools/go/ssa and the models of library calls. An obligation the analysis cannot summarise is reported as undecided, not as a violation.'
CLAIMS = {
 'V01': (VG + 'polynomial identity', 'For every operand: each operation\'s value graph equals the textbook formula, in-place and value forms agree, no other store or panic is reachable.' + REAL),
 'V02': (VG + 'polynomial/radical identity by cases', 'For every operand, including the zero vector.' + REAL),
 'V03': (VG + 'rational identity', 'For every plane, line and point; the panic condition is compared as a condition.' + REAL),
 'P01': (VG + 'polynomial identity with the determinant', 'For every tuple of points.' + REAL),
 'P02': (VG + 'comparison of the gating condition and gated values', 'For every tuple of points; the gate is compared exactly, including the constant.' + REAL),
 'T01': (VG + 'polynomial/rational identity; cyclic sums modulo rotation of the index', 'For every point tuple and every polygon length.' + REAL),
 'T02': (VG + 'abstract state at the recursive call compared with the flipped quadrilateral', 'link and addTriangle for every state and argument; legalize for each of the 9 slot combinations, with and without outer neighbours, for symbolic triangle numbers, vertices and points (first level of the recursion; deeper levels are calls of the same function on the state reached).' + REAL),
 'T03': ('points-to and information flow from coordinates to coordinates', 'Every constructor and loop of the triangulation; each coordinate reaching an output point is a copy of the same coordinate of one input point.' + REAL),
 'T04': ('points-to and information flow (order dependence), two-phase with a differing-order lattice', 'Every function reachable from the plane triangulation.' + REAL),
 'T05': (VG + 'abstract evaluation under the assumption that no triple has a circle', 'For every list of points none of which has a circumcircle; index obligations by interval bounds.' + REAL),
 'T07': (VG + 'implication of the conjuncts of the acceptance condition', 'For every triangulation value; the twin condition additionally on half-edge lists of up to three entries.' + REAL),
 'T08': (VG + 'piecewise affine range and slope; provenance of table positions', 'For every direction and table length of at least one; rounding of the quotient to the ends of its range is included.' + REAL),
 'T09': (VG + 'lockstep comparison of open loop recurrences with the specified construction; sort order split by ties', 'For every point list; circumradius, circumcentre and the half-edge steps are functions of their own (T01, T02).' + REAL),
 'T10': (VG + 'lockstep comparison of the insertion loop and its walks with the specified ones over an abstract hull ring', 'For every point and pair of start positions on hull rings of three to seven nodes (twelve ring states) with symbolic coordinates and half-edges: first hull, table search, search for a visible edge, both walks, links of a node joined or taken out, and that no point ends the loop; the Delaunay check and the table positions are the subject of T02 and T08.' + REAL),
 'T11': (VG + 'provenance of the fields of the result; abstract interpretation of the ring walk', 'For every point list, with the construction as one opaque step; the hull is read from rings of three to six nodes entered at every node, with symbolic coordinates, for any list of points and for lists of which all or all but two are on the hull.' + REAL),
 'T06': (VG + 'loop recurrences paired and compared with those of the specified algorithm', 'For every point list; the pop loops are closed recurrences, compared component by component. A hull in another form is judged on a few definite sorted lists of up to six points.' + REAL),
 'G01': (VG + 'loop recurrences paired with those of the specified algorithm', 'For every point list with coordinates strictly inside the float64 range.' + REAL),
 'G02': (VG + 'sign conditions compared over the sign patterns of the face volumes', 'For every tetrahedron and point, in both packages.' + REAL),
 'G03': (VG + 'loop recurrences paired with those of the specified algorithm; measures as polynomial identities', 'For every point list; ties between equally distant points are free.' + REAL),
 'G04': (VG + 'face determinants at the corners of the bounding box as products of non-negative factors', 'For every box with non-negative extent, in both packages.' + REAL),
 'M01': (VG + 'permutation matching of corner and face lists; unique decomposition of key texts', 'For every face, point number and corner sequence.' + REAL),
 'M02': (VG + 'offsets extracted from the value graphs must agree', 'For every point list.' + REAL),
 'M03': (VG + 'lockstep comparison of nested loop recurrences with the specified cavity retriangulation; sign of the circumsphere test under either orientation', 'For every point list and number of insertions; keys, corner lists and the filter are the subject of M01 and M02.' + REAL),
 'M04': ('taint: map iteration order, scheduling, clock and random sources must not reach the result', 'Every function reachable from the tetrahedrisation.' + REAL),
 'M05': (VG + 'loop recurrences; enumeration of the constant face lists', 'For every point list; the reversal helper for list lengths up to 4 and the flip as a whole.' + REAL),
 'X01': ('points-to and information flow from argument storage to results and stores', 'Every exported function of every package.' + REAL),
 'S01': (VG + 'closed-form index lists judged in full at the constant counts, extreme values of affine bodies in general', 'For every centre and dimension: the exported constructors\' lists have constant lengths and are enumerated completely; general sector and stack counts by sign of polynomial coefficients.' + REAL),
 'S02': (VG + 'polynomial/trigonometric identity of the comprehension body', 'For every centre, dimension and vertex number. A difference is confirmed by evaluating the closed form at one parameter value before it is reported.' + REAL),
 'S03': (VG + 'lockstep comprehensions and polynomial/trigonometric identities', 'For every centre, dimension and vertex number.' + REAL),
 'S04': (VG + 'edge matching on the closed-form triangle list at the constant counts', 'For every centre and dimension: the exported constructors\' triangle lists do not depend on them and are enumerated completely; Construct additionally for five small sector/stack counts.' + REAL),
 'E01': (VG + 'comprehensions paired with the specified lists; information flow for the argument', 'For every mesh; what the glTF library stores is trusted to be what it is handed.' + REAL),
 'E02': (VG + 'abstract object graph of the document at the save call', 'For every mesh and path; the writers of the glTF library are trusted to return the accessor of what they are handed.' + REAL),
 'L02': (VG.replace('VG','') + 'loop simulation: the open-loop state recurrence is paired with the specified splitter and compared case by case over the character classes', 'For every text: an induction over the characters; strings.TrimSpace and the conversion between runes and text are library operations taken as named functions.'),
 'L01': ('loop simulation: the reader\'s open-loop state recurrence is paired with the specified one and compared case by case', 'For every file: an induction over the pieces bufio.ReadLine hands out, with long lines continued; the splitting of one definition is L02/L03. ReadLine and the map type are trusted.' + REAL),
 'L03': (VG + 'text terms (first occurrence, substring, white space removed) compared case by case with the specified ones', 'For every definition text; strings.SplitN, TrimSpace and unicode.IsSpace are trusted to do what they are documented to do.' + REAL),
 'L04': (VG + 'index and slice obligations under the path condition by interval bounds, with loops open (induction) for the proof and placed at an early iteration for a violation; origin of panic values', 'For every file content; every index and slice expression evaluated from Lex, Parse and each handler.' + REAL),
 'Q01': (VG + 'gated value of the handler returned, per entity name', 'For every type name; the keyword table of ISO 10303 for the supported entities is part of the check.' + REAL),
 'Q02': ('loop simulation of the work list with the specified one, effect summaries of the handlers', 'For every symbol table: a key is processed only when it is not visited and is marked afterwards; handlers only append to the queue.' + REAL),
 'Q03': (VG + 'values of the surface job compared with the argument of the same position', 'For every instance of the entity; the arguments are compared as terms over the definition\'s argument list.' + REAL),
 'Q04': (VG + 'queued states compared as sets of (handler, argument) with the specified ones', 'For every definition of the handled types.' + REAL),
 'N01': ('inferred order invariants of the search loop (template invariants, linear arithmetic), judged at every way out; falling difference of bounds', 'For every non-decreasing knot vector, degree and parameter, by induction over the iterations; a violation is reported only from an early iteration at a small constant degree. Loops the invariants do not cover are undecided.' + REAL),
 'N02': (VG + 'nested recurrences paired with the Cox-de Boor recurrence', 'For every degree, span and parameter when the recurrences pair up; otherwise compared at the constant degrees 0 to 3, where only a difference is reported. That the functions sum to one follows from the recurrence.' + REAL),
 'N03': (VG + 'recurrence paired with the specified sum; points-to of stores', 'For every curve and parameter when the recurrences pair up; otherwise compared at the constant degrees 0 to 2, where only a difference is reported.' + REAL),
 'N04': (VG + 'nested recurrences paired with the specified divided differences', 'For every degree, order and span when the recurrences pair up; otherwise compared at constant degrees and orders up to 3, where only a difference is reported.' + REAL),
 'X02': ('points-to analysis of all stores from package-level variables; reference scan for hidden inputs and goroutines', 'Every function of every package outside the tests, called with any argument; library calls are trusted except those on types whose methods modify them.'),
 'X03': ('call-graph reachability with backward slices of paths; typestate (open/closed) and error-outcome dataflow on the control-flow graph', 'Every call site of a file, encoding or export operation and every path of the control-flow graph from it; panics raised inside library calls are outside.'),
}
NA = {
 'D01': 'A property of the whole incremental construction over every point set: it needs an inductive invariant relating every reachable half-edge structure to in-circle signs of unbounded sets of points, which no static rule in reach establishes; the local ingredients (predicates P01/P02, flip conditions T01/T04/T06, cavity rule M03) are claimed separately.',
 'D02': 'A relation between the bytes the third-party glTF writer produces and what an external reader makes of them; the code that decides it is outside the repository. What the repository hands to the writer is claimed as E01/E02.',
 'D03': 'Quantifies over the rounding of every double-precision evaluation; the fast predicates are known not to satisfy it near degeneracy (that is what the exact fallback is for) and a sound static rounding bound would only restate the published error constants. P01/P02 claim the real-number value and the presence of the filter.',
}
