"""How each property is decided (text for DESIGN.md)"""
D = {
 "Q01": "Model::contains and everything below it (PROJ and Surface::query opaque) evaluated once; the returned diagram must equal the specified predicate over the public getters (origin, azimuth, dims, top surface), written in the same domain. A differing cell of the diagram is the witness. Covers all azimuths and boundaries at once, which samples cannot.",
 "Q02": "Model::query with a list of blocks of any length: the block used is an element found by a scan whose test is `bottom <= z <= top`, the scan starts at the first element, advances by one and stops only on a hit; sort order by the comparator's value; Block::query: argument k of every grid index is the coordinate of axis k, index objects are built from that axis' own attribute in loadMetadata (uniform or listed).",
 "Q03": "Query::queryTopElevation/queryTopoBathyElevation: loop over the models is recognised as first-hit search; the value returned in each case compared with the specification over Model's methods; Model's method compared with the coordinate pipeline; Surface::query index wiring as in Q02.",
 "Q04": "Query::query: the model asked is the element of the iteration that leaves the loop and no earlier element satisfies contains(); every output element is stored exactly once for each exit, with the element of that model's values selected by its own index map; status per exit.",
 "Q05": "The elevation passed to contains()/query() of each model compared with the specified piecewise formula over the squashing fields (found through setters), for the three modes; state transition of the setters compared as diagrams.",
 "Q06": "initialize(): both sides of the name comparison are the lower-cased strings (transform/tolower recognised as value identity), the index stored is `find - begin` of that model's names; raising conditions compared in both directions with `not found` and `units differ`; units taken at the index of the same value.",
 "Q07": "Interpolation code evaluated for 2-D and 3-D, unrolled over corners (2^d) with the value buffer as an array of unknowns: result polynomial must equal the multilinear form with every corner address computed from the specified strides; nearest: address of the rounded index. Tolerance snapping and the last cell are separate cells of the diagram.",
 "Q08": "As Q07, the NODATA comparison of each corner is a three-way condition; the result must be NODATA_VALUE exactly on the union of the corners' conditions (comparison tolerance wide enough for float32).",
 "Q09": "Cell and slab extents as integer linear expressions; `cached slab covers cell` or `new slab covers cell, lies in dataset, fits buffer` proved as entailments between guards and required inequalities (Fourier-Motzkin over the conditions of each path).",
 "Q10": "Hyperslab::interpolate/nearest with every call able to raise: in the memory state of each exceptional exit the recorded slab must be marked as not containing anything (the next query's `covers` test fails), and no normal exit is reachable after a failed read.",
 "Q11": "IndexingUniform/IndexingVariable evaluated for lists of each length (quick 2..6, thorough 2..10), bracketing compared with the piecewise linear form, both orientations; comparators checked irreflexive and asymmetric.",
 "Q12": "Typestate over the fields of Query: state after construction, after every exceptional exit of initialize(), after finalize() must make the query methods return the error/NODATA result with the call to every Model method having an unsatisfiable guard.",
 "H01": "Every repository function from which an acquiring or releasing call is reachable is evaluated with each opaque call able to fail or raise. For each value obtained: (valid and exit reached and not released) must imply that the state at that exit stores it in an object that outlives the function (or returns it); two releases with satisfiable conjunction, a use after a release, or a release with the wrong function are violations. For each member: old value replaced without release, kept after release, released by the destructor exactly once; copy constructors that exist in the IR must not share it. A failed H5 close counts as not released. Smart pointers are modelled (construction, reset, release, move, destruction). What is passed to a function too large to look into counts as handed over.",
 "H02": "Every library function that calls HDF5, PROJ or GDAL (virtual calls resolved with the vtable type tests of clang) is evaluated with the result of each such call unknown. For each call in the table of failure values (negative, null, not CE_None): failed and normal return must be contradictory - in loops: a failing iteration throws; a failed result must not reach an argument of a later call of these libraries. Calls in functions of the same file are seen through. Assertions: the condition of every branch into __assert_fail, abort, terminate or exit is sliced back through variables and members; when it depends on a read or a library call, the branch must be infeasible in the evaluation.",
 "H04": "The loading functions are evaluated on a new object with every result of the HDF5 wrapper unknown and every call possibly raising. For each documented attribute the value its getter returns in the state after a normal return must be the value the reading of that attribute under that path stored, converted to the type of the member, on every such path (so a path on which it was not read is a violation); flags that loops over blocks carry are recognised (set once and kept) and a failure in any iteration must lead to an exception; with everything present and nothing failing the function must return. Constructions of blocks and surfaces, their paths, and the calls that load and open them are compared with the list of datasets. Depends on H03 (what the readers store) and Q-series (how the members are used). Undecided: flags or loops in forms that are not recognised.",
 "H03": "Each function of the wrapper is evaluated with every result of the HDF5 library unknown. Which object each handle comes from is followed through the calls (the attribute of the object opened under the path in the own file; the space and type of that attribute), the conditions under which the functions return are compared with the documented ones (one value, text, list, equal ranks), buffers with their capacities (allocation size against number of elements × size, length + 1), loops must cover 0..count-1, and what the outputs hold at a normal return is compared with what the reading stored. Names of the library's entry points (H5Aread, H5Lget_name_by_idx, ...) give meaning to calls and types. What is not recognised (another way of building a list, another entry point) is undecided.",
 "C01": "transform, inverse_transform, initialize, createGeoToXYAxisOrder and getCRSUnits (with their helpers) evaluated for every result of PROJ. proj_trans is an uninterpreted function of handle, direction and coordinate, so that each output is compared by value with the right component of the transformation of the very point given; the handle is followed to proj_create_crs_to_crs of the two texts set last. For units the axis index and count handed to PROJ, the object the axes come from (bound or not) and each text stored are compared case by case; reads of axes are compared with the count.",
 "G01": "The methods are evaluated one after another on one symbolic object (constructor, setters, getBands, create, write; and read on a new and on a used object), every result of GDAL unknown. Arguments of each GDAL call are compared by value with what was set (the six numbers of the position as rational functions of box and sizes), label and band indices in the loops as functions of the iteration, loop bounds with the number of bands; the allocation behind the pointer getBands returns is compared with the size then set under every condition; the conditions of normal and exceptional exits with the results of the calls.",
 "P01": "run() is evaluated with the function that calls getopt_long unknown (it may set every member), so for every setting. Streams are models: opening, reading and writing give tokens and stream states. Decided by value numbering: the guard of a query against the state of the stream after the reads of the same iteration (every point read is answered, no other), the tokens between two line ends of one iteration against the values read and the elements of the queried buffer (index = trip number of the value loop), width and precision of each token against the longest number it can print, the order of set-up calls against the first query, the states that lead to the exceptional exits, and for the borehole elevation as an affine function of the trip number. Tests show a few files; this is for all of them.",
 "P02": "What each member of a program is for (the file to open for points, the name given to setLogFilename, ...) is found as in P01 from what run() does with it. The table of options is read from the initialiser passed to getopt_long. For each option run() is evaluated with getopt_long returning that option and an unknown text as its value, from an unknown earlier state: the member at the end of the iteration must be the text, the number decimal(text), the pieces of the text between commas pushed one by one after a clear, or the value of the keyword, and every other member that of the start of the iteration. Required options are the condition of the exceptional exit after the loop, over the emptiness of each member. Defaults are the state left by the constructor. One evaluation stands for every text and every earlier setting. The settings geomodelgrids_isosurface refuses are a condition on numbers: it is compared with its specification by its values on a grid of settings including every boundary.",
 "P03": "Isosurface::run is evaluated to one diagram with its helpers inlined (once for each value of the member that decides the search direction; virtual calls resolve because the class of the line search is then known). Image: every GeoTiff call is found, its arguments compared with the formula from the corners transformed to x-y order, the resolution and the number of isosurfaces; the store to the bands is compared as a polynomial in the loop counters, so the place of every pixel of every size is decided at once. Column: the loop over the levels is summarised by its values at the start, at an unknown iteration and after it. The interval at the start, each point searched, the condition to stop, the next interval and the stored depths (cases of the diagram: interpolation, top of the interval, 0, missing) are compared with their specification for unknown values of the model. Cost: 20 s.",
 "P04": "run() is evaluated with the functions that only print looked at separately, with the values they are given; what is written to the standard output (texts built in string streams taken apart) is put together to lines: a text with places for values, each value with the condition, the loop and the precision it is written with. Every documented line is looked for by its text, and its values compared with the term that says what they are (the getter of the model, surface or block, the element of the list in the turn of the loop); the extent of a block and the corners of the bounding box (the arguments of the coordinate transformation) are compared by value for settings that tell the alternatives apart. The condition of each line is decided for 13 sets of options (members set by each option found from the option loop as in P02) and, for lists, for the turns of a list of 3. Order of opening, loading, use and closing is compared by the position of the calls in the loop over the models.",
 "P05": "The same view of the program as for P04: every piece written by the verification with its condition and its loops. The conditions are functions of the getters of the model; they are evaluated from these terms (getters, elements of lists, loads, arithmetic, strings; loops turn by turn, with the values carried from one turn to the next and flags that stay set) for 818 descriptions of models, each in order but for one or two respects, and what would be written is compared with the outcome the specification gives for the description. Values the description does not give leave the check undecided; an element outside a list that decides the outcome is a violation. Options are decided as for P04. The program is not run: only the extracted conditions are looked at. Cost: 9 s.",
 "E01": "The constructor and the members are evaluated one after another, each starting in the memory the one before left (a new handler, after setError, after setWarning, and memory nothing is known of). What the getters then give is compared with the specification as a value: the status with the enumerator, texts as sequences of constants and the characters of the argument. Opening, closing and writing of streams are events with the stream, the name, the mode and the condition: the file named is opened in every case, with a mode that truncates or appends as it has to, after the stream was closed or is a new one; what logMessage writes is exactly its argument. C functions: calls on the handler with their condition, argument by argument, and the value returned for each status. Cost: 1 s.",
 "Y01": "The constructors and __next__ of both generators are evaluated from the syntax tree with all sizes unknown; each path gives the terms of the batch sizes and numbers under the path's comparisons. `b >= 1`, `product of b <= max_nvalues`, `number = ceil(n/b)` are proved from these terms by rules for integer roots (root(v,n)**n <= v, >= 1 for v >= 1), floor quotients (a//b*b <= a, >= 1 when b <= a) and the comparisons of the path; iteration is one step from an unknown position, which must be the next in the lexicographic order with the last direction fastest and give the ranges of the specification. Unbounded in all sizes. A proof that fails is a violation only when sizes are found for which the extracted terms themselves break the bound (the sizes are in the report); otherwise it is undecided.",
 "Y02": "Surfaces and blocks are constructed from an unknown configuration (a path per combination of uniform and variable axes) and generate_points evaluated for an unknown batch and without one; arrays are functions from indices to terms (arange, linspace, meshgrid, slices, broadcasting, searchsorted modelled so). The element at unknown indices i, j, k is compared as a value number with the specified formula on every path; the surface read is checked for the part it loads (contains every index used), the stride and the ValueErrors. One open finding (z_coordinates as distances, KNOWN_FINDINGS.json), four repaired defects.",
 "Y03": "A Model is made from an unknown configuration (for each object every combination of uniform and variable axes) and its methods evaluated on a model of h5py (sa/h5model.py) that knows which parts of the file exist (both cases explored when not known), refuses writing when closed or read-only, and keeps the operations in order. The final value of each documented attribute, the arguments of create_dataset, the selection and value of each write, and the element returned by reading are compared as value numbers with the specification. Errors in loading: the last condition of each raising path must be a difference of the attribute, of the number of coordinates, or of the element with the same index, and all three must be there. Two defects repaired (NameError, UnboundLocalError instead of ValueError).",
 "Y04": "main is evaluated for every combination of its options, with and without each surface and batch_size; the methods of Model, Surface and Block are opaque with effects. Calls are written with roles (the points generated by this surface for each batch of its own batches for the size) and compared with the specified set: each exactly once in the loop over the batches, none else, and the required orders. cli is evaluated with a model of argparse, so that each parameter's value is the option it comes from; get_config with two files, each there or not. Two defects repaired (cli without configuration and --all; top surface without points).",
 "A01": "Each extern-C function evaluated with every call able to raise: callee and argument identities, the handle test, catch coverage (no exceptional exit), status/elevation returned in each case, error handler calls (setError vs setWarning) per case, squash constants by value.",
 "A03": "Array methods evaluated with pybind11 opaque: guards of the C++ call against `ndim==2 && shape[1]==d`, loop bounds 0..shape[0], coordinate addresses, result addresses, conditions under which exceptions leave; registration calls in init_* matched name by name with the demangled target, enumerators and header constants by value.",
}
