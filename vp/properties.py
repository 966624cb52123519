# One call of prop() per property; see meta.py.
STATEFUL = "property-based testing: generated operation histories against a reference model, ASan/UBSan, shrinking"
EXPL = "Generated-input exploration, no proof; trusts the model in the harness, g++ and the sanitizers."

prop("C01", "A dictionary is an exact map of named values with deep-copy semantics",
     "After any sequence of insertions, overwrites, removals, edits through references and copies, a dictionary contains "
     "exactly the keys that were inserted and not removed, each holding the value last written to it, at every level of "
     "nested sub-dictionaries. Listing its keys yields each present key exactly once, emptiness agrees with that list, and "
     "removing an absent key changes nothing. A copy made at any moment is independent: no later change of either side is "
     "visible in the other.",
     ["histories", "inputs"],
     "all histories of insert, remove, write through a reference, sub-dictionary access, copy, move and self-insertion over several "
     "dictionaries, with arbitrary keys and values of any stored type",
     "The unit tests insert a handful of fixed keys once; they never overwrite, remove, copy after nesting, or combine operations.",
     ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp"],
     [("map from key to std::any", "src/core/dictionary.cpp"), ("deep copy through std::any", "include/NeoFOAM/core/dictionary.hpp")],
     ["contains, keys, empty, get, subDict, isDict, getMap"], EXPL, STATEFUL)

prop("C02", "Typed access to a dictionary is exact, and a failed access changes nothing",
     "Reading a key with the type it was stored with yields that value by reference, so that a write through the reference, "
     "also through any chain of nested sub-dictionaries, is what the next read sees. Reading an absent key or with any other type "
     "never yields a value: it throws an out-of-range or bad-cast error respectively, after a diagnostic on standard error that "
     "names the key (and, for a missing key, the available keys), and leaves the dictionary unchanged. Asking whether a key holds "
     "a sub-dictionary is answered truthfully for every key, present or not, without throwing.",
     ["inputs", "histories"],
     "all dictionaries with values of any of fifteen types, all requested keys (present, absent, near misses) and all requested types",
     "The tests request each of a few values with its right type and one wrong one; the pairs of stored and requested types are not sampled.",
     ["include/NeoFOAM/core/dictionary.hpp", "include/NeoFOAM/core/demangle.hpp", "src/core/dictionary.cpp", "src/core/demangle.cpp"],
     [("any_cast of the stored value, logged and rethrown on mismatch", "include/NeoFOAM/core/dictionary.hpp"),
      ("logOutRange", "src/core/dictionary.cpp")],
     ["exception type, standard error, dictionary contents before and after"], EXPL,
     "property-based testing: generated accesses against a typed value model, with captured diagnostics")

prop("C03", "A token list is a sequence with a read cursor",
     "A token list holds the inserted tokens in insertion order; inserting appends, removing an index removes exactly that token, and taking the "
     "first token returns its value and removes it alone. Sequential reading returns tokens in order, each once, starting at the "
     "cursor, and only a successful read advances the cursor; indexed access neither moves the cursor nor changes anything. Any access outside "
     "the list or with another type than the stored one throws (out of range or bad cast) and leaves tokens and cursor as they were; a copy "
     "carries its own tokens and cursor.",
     ["histories", "inputs"],
     "all histories of insert, next, popFront, remove, get, operator[], copy, assignment and editing of the token vector, on lists of any length and token types",
     "The tests walk one list of four tokens once; errors in the middle of a sequence, interleaved cursors and list-valued tokens are not tried.",
     ["include/NeoFOAM/core/tokenList.hpp", "src/core/tokenList.cpp"],
     [("vector of std::any plus cursor", "include/NeoFOAM/core/tokenList.hpp")],
     ["size, empty, get, next, popFront, tokens, operator[]"], EXPL, STATEFUL)

prop("C04", "Configuration reads the same from a dictionary and from a token list",
     "A record written to a dictionary or, in order, to a token list and read through the common input type yields the same record, field for field. "
     "Reading leaves the caller's input unchanged, including the token list's cursor, so that reading twice gives the same result; a "
     "missing or mistyped field is an exception, never a default value.",
     ["inputs"],
     "all record schemas up to eight fields of any stored type, all values, and inputs with missing, extra or mistyped fields",
     "The test reads one fixed record from each of the two representations.",
     ["include/NeoFOAM/core/input.hpp", "include/NeoFOAM/core/dictionary.hpp", "include/NeoFOAM/core/tokenList.hpp"],
     [("visit of the input variant by value", "include/NeoFOAM/core/input.hpp")],
     ["result of read, input before and after"], EXPL,
     "property-based testing: metamorphic relation between the two input forms, round trip of generated records")

prop("C05", "Every document has a unique identity and satisfies its validator",
     "Every document created without an explicit id gets a non-empty id that differs from that of every other document generated in the "
     "process, whatever number of documents or threads create them at the same time; an id given by the user is kept. A document whose content fails its "
     "validator is rejected with an exception and a document that was constructed validates; validation never alters the content and always judges the current content. "
     "Copies carry the same id, content and validator and are independent, and the document's name accessor reads and writes the name "
     "entry of that very document.",
     ["histories", "schedules", "inputs"],
     "all histories of creating, copying, assigning, editing and validating documents with arbitrary content and validators, long creation runs, and concurrent creators",
     "The tests create a handful of documents in one thread; uniqueness over many documents or threads cannot be seen from that.",
     ["include/NeoFOAM/core/database/document.hpp", "src/core/database/document.cpp"],
     [("atomic id counter", "include/NeoFOAM/core/database/document.hpp"), ("validation in the constructor", "src/core/database/document.cpp")],
     ["id(), validate(), content, thrown exceptions"],
     EXPL + " Thread interleavings are whatever the scheduler produces (plus ThreadSanitizer's happens-before analysis), not enumerated.",
     STATEFUL + ", ThreadSanitizer for the concurrent creators")

prop("C06", "A database maps each name to one collection",
     "After any sequence of insertions and removals, a database contains exactly the collections inserted and not removed, each reachable under "
     "its name and no other, and its size counts them. Inserting under a taken name keeps the stored collection and returns it; removing reports "
     "whether something was removed and affects only that name; looking up an absent name throws. Typed lookup yields the very collection stored if and only if the requested type is its type, "
     "otherwise it throws; references stay valid while other collections come and go.",
     ["histories"],
     "all histories of insert, remove, contains and (typed) lookup over up to a few databases, clashing and near-miss names and two collection types",
     "The tests insert and remove one or two collections; name clashes, reference stability and wrong-type lookups after removal are not exercised.",
     ["include/NeoFOAM/core/database/database.hpp", "src/core/database/database.cpp", "include/NeoFOAM/core/database/collection.hpp"],
     [("map from name to type-erased collection", "src/core/database/database.cpp"), ("checked downcast", "include/NeoFOAM/core/database/collection.hpp")],
     ["contains, size, at, returned references"], EXPL, STATEFUL)

prop("C07", "Collections store, find and update exactly their documents",
     "A collection returns each inserted document under its id, unchanged, until it is removed, and counts exactly the documents it holds. A query "
     "returns the ids of exactly those documents whose current content satisfies the predicate, each once, and neither queries nor lookups change "
     "anything; sorted keys are all ids in ascending order. Edits through a returned document are what every later lookup and "
     "query sees, through the typed and the type-erased interface alike, and the collection keeps reporting its own name, type and database.",
     ["histories", "inputs"],
     "all histories of inserting, editing, removing and querying documents with generated predicates through both interfaces, up to a few hundred documents",
     "The tests query collections of two or three documents with fixed predicates.",
     ["include/NeoFOAM/core/database/collection.hpp", "src/core/database/collection.cpp", "include/NeoFOAM/core/database/document.hpp"],
     [("CollectionMixin", "include/NeoFOAM/core/database/collection.hpp"), ("type-erased Collection", "src/core/database/collection.cpp")],
     ["doc, find, size, sortedKeys, name, type, db"], EXPL, STATEFUL)

prop("C08", "Run-time selection creates the registered class, with the caller's arguments",
     "Every class registered in a hierarchy is known, without further action, under the name it registered, and creating that name yields an object of the class last "
     "registered under it, constructed from the caller's arguments: values intact, references leading to the caller's objects, move-only arguments moved. "
     "The listed entries, their number, the printed overview and the documentation and schema of each entry, asked of the hierarchy or of the central documentation by base-class name, "
     "always describe exactly the registered classes of that hierarchy; unknown names throw. Hierarchies do not affect each other, and creating or destroying objects never changes what is registered.",
     ["histories", "inputs"],
     "all histories of registration, re-registration, creation and destruction over several hierarchies with different constructor parameters and arbitrary, also clashing, names",
     "The test registers two classes with fixed names and no constructor arguments.",
     ["include/NeoFOAM/core/runtimeSelectionFactory.hpp"],
     [("static registration of creators and documentation", "include/NeoFOAM/core/runtimeSelectionFactory.hpp")],
     ["create, entries, size, print, doc, schema"], EXPL, STATEFUL)

prop("C09", "Failures are never silent: they end the operation and name their cause",
     "A failed fatal check or fatal error prints the given message, the source file and line to standard error and ends the process with a failure status without continuing; "
     "the throwing variants throw an exception whose text carries the same information and print nothing. A check whose condition holds has no effect beyond evaluating the condition once, whatever expression it is, "
     "and equality checks compare the two expressions as written and report expected and actual value; containers of different lengths are refused by an error that names both lengths. Checks meant for debugging act like the "
     "others in a debug build and evaluate nothing in a release build; informational output goes to standard output in full.",
     ["inputs", "configurations"],
     "all conditions, messages, values and argument expressions, in release and debug configuration",
     "The tests that run contain no failing check at all; a fatal one would end the test process.",
     ["include/NeoFOAM/core/error.hpp", "include/NeoFOAM/core/info.hpp", "include/NeoFOAM/helpers/exceptions.hpp"],
     [("error and assertion macros", "include/NeoFOAM/core/error.hpp"), ("message macros", "include/NeoFOAM/core/info.hpp")],
     ["exit status, standard error, exception text"],
     EXPL + " The debug configuration uses a stand-in for the stack-trace library, which is not installed.",
     "property-based testing: generated conditions, values and messages; fatal cases in child processes")

prop("C10", "A stencil cache returns what was stored, under its key and with its type",
     "The first value stored under a key is what every later typed access to that key returns, by reference, until it is replaced in place; storing "
     "again under a taken key changes nothing. Accesses to absent keys or with another type throw and change nothing, membership is exact, and stored "
     "objects keep their address while others are stored; copies are independent.",
     ["histories"],
     "all histories of storing, reading, replacing and copying with values of fourteen types and near-miss keys",
     "No stable test exercises the cache at all.",
     ["include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"],
     [("map from key to std::any, emplace on insert", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp")],
     ["get, operator[], contains"], EXPL, STATEFUL)

prop("C11", "A view refers to exactly its range and, in debug builds, traps stray accesses",
     "Indexing, iterating and sub-ranging a view refers to exactly the elements of the range it was made from, and writing through it is writing to them. In a debug build every access outside the range aborts the program, or, when "
     "aborting is switched off, leaves the index of the first such access recorded; an access inside the range never aborts nor records anything.",
     ["histories", "configurations"],
     "all views over parts of buffers of any length, element types of different sizes, access histories in and out of range, release and debug configuration",
     "The view tests need a library that is absent here and sample three indices.",
     ["include/NeoFOAM/core/view.hpp"],
     [("checked operator[]", "include/NeoFOAM/core/view.hpp")],
     ["addresses, failureIndex, abort"], EXPL + " Kokkos::abort is replaced by a stand-in that throws.", STATEFUL)

STANDIN = ("Generated-input exploration, no proof. Kokkos (absent here) is replaced by a stand-in that runs kernels in generated orders and splits "
           "reductions and scans at generated places; trusts it, the model in the harness, g++ and the sanitizers.")
MODEL = "property-based testing: generated inputs, executors and kernel schedules against a sequential reference, ASan/UBSan, shrinking"
PAR = "include/NeoFOAM/core/parallelAlgorithms.hpp"
FIELD = "include/NeoFOAM/fields/field.hpp"
FV = "include/NeoFOAM/finiteVolume/cellCentred/"
FVS = "src/finiteVolume/cellCentred/"

prop("C12", "Parallel loops, reductions and scans equal the sequential loop",
     "On every executor, a parallel loop runs its body exactly once for each index of the given range and for no other, and a loop over a field assigns each element "
     "the value of its own index. A reduction (sum, count, minimum, maximum) returns the result over exactly the given range, whatever the result "
     "variable held before, and a scan gives each index the running total from the start of the range, and the grand total if asked. None of this depends on the executor, the order of iterations or "
     "the way the work is divided; executors compare equal exactly when they are of the same kind.",
     ["inputs", "schedules"],
     "all ranges (empty ones, ones that start past zero) and data, the three executors, all orders of iteration and all partitions of reductions and scans",
     "The parallel tests need Kokkos, which is absent; they run whole ranges of one size whose results are the same for many wrong ranges.",
     [PAR, "include/NeoFOAM/core/executor/executor.hpp", "include/NeoFOAM/core/executor/serialExecutor.hpp", "include/NeoFOAM/core/executor/CPUExecutor.hpp"],
     [("parallelFor, parallelReduce, parallelScan", PAR)],
     ["visited indices, results, returned totals"], STANDIN, MODEL)

prop("C13", "Fields are values: element-wise algebra, deep copies, on any executor",
     "After any sequence of construction, assignment, copying, transfer between executors, filling, element-wise mapping, arithmetic (with fields and with scalars) and resizing, a field holds exactly the "
     "elements that the same operations on plain vectors of values give, and reports its size and executor truthfully. Copies and transfers are deep: no later change of either side is visible in the other, and "
     "resizing keeps the common leading elements. Comparison for equality is true only if all elements agree, mismatched sizes or executors are refused, and every allocation is released exactly once.",
     ["histories", "inputs", "schedules"],
     "all histories of operations over several fields of scalars or vectors on the three executors, with fields of any length, also empty",
     "The tests apply each operation once to a field of fixed size with all elements equal, and need a library that is absent here.",
     [FIELD, "include/NeoFOAM/fields/fieldFreeFunctions.hpp"],
     [("owner of memory on an executor", FIELD), ("map, fill, setField, add, sub, mul, scalarMul", "include/NeoFOAM/fields/fieldFreeFunctions.hpp")],
     ["elements, size, executor, equality, allocations"], STANDIN, STATEFUL)

prop("C14", "Three-component vectors obey component-wise algebra",
     "Sums, differences, scalings (by real and integral factors, from either side) and their in-place forms act on each component separately; the inner product and the magnitude are those "
     "of Euclidean space. Two vectors are equal exactly if all three components are, indexing reads and writes the component asked for, and zero and one are the neutral "
     "elements of addition and multiplication.",
     ["inputs"],
     "all vectors with finite components, all real and integral factors",
     "The test uses two vectors with equal components, for which permuted or forgotten components cannot be told apart.",
     ["include/NeoFOAM/core/primitives/vector.hpp", "include/NeoFOAM/core/primitives/traits.hpp", "src/core/primitives/vector.cpp"],
     [("component-wise operators", "include/NeoFOAM/core/primitives/vector.hpp")],
     ["components, equality, printed text"], EXPL, "property-based testing: generated vectors against component-wise arithmetic")

prop("C15", "Segmented fields partition their values as the interval lengths say",
     "A segmented field made from interval lengths has exactly one segment per interval, each of its length (zero included), which lie behind each other without gap or overlap and together make up all values. Bounds, ranges, spans and "
     "subviews of a segment all refer to the same elements, and writing through any of them writes these. The offsets of interval lengths are their running totals, and the last one, which is also what is returned, is the grand total.",
     ["inputs", "schedules"],
     "all sequences of interval lengths (empty intervals and sequences included), the three executors, all partitions of the scan",
     "The test uses one fixed sequence of five lengths without empty intervals and needs a library that is absent here.",
     ["include/NeoFOAM/fields/segmentedField.hpp"],
     [("segmentsFromIntervals by scan", "include/NeoFOAM/fields/segmentedField.hpp")],
     ["bounds, range, span, subspan, offsets, values"], STANDIN, MODEL)

prop("C16", "Boundary data of a field are kept per patch, through copies and transfers",
     "Every kind of boundary data (values, reference values and gradients, value fractions, boundary types) has one entry per boundary face, and the range of each patch refers to exactly the "
     "faces of that patch in all of them, also for patches without faces. Copying, assigning or moving a domain field or its boundary data, or transferring boundary data to another executor, carries all entries of all kinds over unchanged and leaves "
     "independent data on the right executor.",
     ["inputs", "histories"],
     "all numbers of cells and patches, patch sizes (zero included), contents of each kind of data, and the three executors",
     "The tests build one domain of fixed size with all values equal and need a library that is absent here.",
     ["include/NeoFOAM/fields/boundaryFields.hpp", "include/NeoFOAM/fields/domainField.hpp"],
     [("BoundaryFields", "include/NeoFOAM/fields/boundaryFields.hpp"), ("DomainField", "include/NeoFOAM/fields/domainField.hpp")],
     ["entries of each kind, ranges of patches, executor"], STANDIN, STATEFUL)

prop("C17", "Meshes are consistent: geometry, numbering and patches agree",
     "A uniform one-dimensional mesh of any number of cells has equal cells that fill the unit interval, internal faces midway between their two cells with normals from owner to neighbour, and two boundary patches whose normals point outwards; the area vectors of "
     "each cell sum to zero. Each boundary face's data (centre, normal, area, owner's centre, distance, weight) are those of its face and its cell, and the ranges of the patches partition the boundary faces in order. A mesh returns the geometry, "
     "addressing, counts and patches it was made from, on its executor.",
     ["inputs"],
     "all numbers of cells of one-dimensional meshes; meshes of arbitrary connectivity and geometry with any number of patches; the three executors",
     "The test builds one mesh of four cells and needs a library that is absent here.",
     ["include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp", "src/mesh/unstructured/unstructuredMesh.cpp", "include/NeoFOAM/mesh/unstructured/boundaryMesh.hpp", "src/mesh/unstructured/boundaryMesh.cpp"],
     [("create1DUniformMesh, createSingleCellMesh", "src/mesh/unstructured/unstructuredMesh.cpp"), ("BoundaryMesh", "src/mesh/unstructured/boundaryMesh.cpp")],
     ["all accessors of the mesh and of its boundary mesh"], STANDIN, MODEL)

prop("C18", "Stencils and sparsity patterns are the adjacency of the mesh, in any schedule",
     "The cell-to-face stencil lists for each cell exactly its faces, internal and boundary ones, each once. The sparsity pattern has in each row exactly the diagonal and one entry for each neighbour across an internal face, and the offsets kept for owner, neighbour and "
     "diagonal lead, for each face and cell, to the position of the right row that holds the right column, no position being reached twice. The pattern is made once per mesh, and neither depends on the executor or the order in which faces are visited.",
     ["inputs", "schedules"],
     "all meshes with fewer than 256 faces per cell: one-dimensional, blocks of bricks in any numbering, arbitrary connectivity, also cells without faces; the three executors and all schedules",
     "The tests check one one-dimensional mesh of ten cells and need a library that is absent here.",
     [FV + "stencil/cellToFaceStencil.hpp", FVS + "stencil/cellToFaceStencil.cpp", FV + "linearAlgebra/sparsityPattern.hpp", FVS + "linearAlgebra/sparsityPattern.cpp"],
     [("CellToFaceStencil::computeStencil", FVS + "stencil/cellToFaceStencil.cpp"), ("SparsityPattern::update", FVS + "linearAlgebra/sparsityPattern.cpp")],
     ["segments, row pointers, columns, offsets"], STANDIN, MODEL)

prop("C19", "Sparse matrices and linear systems keep their entries through access and copies",
     "Looking up an entry by row and column, or by row and offset, reads and writes exactly that entry, for rows whose columns are in any order; an absent entry is a fatal error, never another entry. Copies to any executor, conversions of value type and "
     "conversions of linear systems keep sizes, pattern, values and right-hand side and are independent of their source, and a reset zeroes values and right-hand side only. The residual operation gives matrix times vector minus right-hand side, and the empty system of "
     "a mesh has the mesh's pattern with all values zero; mismatched sizes or executors are refused.",
     ["inputs", "schedules"],
     "all sparse matrices with rows of any length (empty ones included) in any column order, all values, vectors and right-hand sides, the three executors",
     "The tests use two fixed 3x3 matrices and need a library that is absent here.",
     ["include/NeoFOAM/linearAlgebra/CSRMatrix.hpp", "include/NeoFOAM/linearAlgebra/linearSystem.hpp"],
     [("CSRMatrixView::entry", "include/NeoFOAM/linearAlgebra/CSRMatrix.hpp"), ("LinearSystem, spmv, convertLinearSystem", "include/NeoFOAM/linearAlgebra/linearSystem.hpp")],
     ["entries, sizes, residual vector"], STANDIN, MODEL)

prop("C20", "Face values: geometry scheme and interpolation from cells to faces",
     "The geometry scheme of a mesh is made once per mesh; its weights are the normal-distance weights of each internal face (between 0 and 1, and 1 on the boundary), and its inverse distances are those of the two centres, or of cell and face centre, "
     "the normal ones limited for strongly non-orthogonal faces. Linear interpolation gives on each internal face the weighted mean of its two cells, so that it is bounded by them and exact for linear fields; upwind interpolation gives exactly the value of the cell the flux comes from; both give "
     "the boundary value on boundary faces. The result depends neither on what the output held before nor on the executor or how the scheme was given, and cell and boundary values and the flux stay as they were.",
     ["inputs"],
     "all meshes with non-degenerate faces (also face centres outside the two cells), all cell, boundary and flux values (zero flux included), scalars and vectors, the three executors",
     "The tests interpolate a field that is one everywhere, for which every choice of weights or direction gives one, and need a library that is absent here.",
     [FV + "stencil/geometryScheme.hpp", FVS + "stencil/geometryScheme.cpp", FVS + "stencil/basicGeometryScheme.cpp", FV + "interpolation/surfaceInterpolation.hpp", FVS + "interpolation/linear.cpp", FVS + "interpolation/upwind.cpp"],
     [("BasicGeometryScheme", FVS + "stencil/basicGeometryScheme.cpp"), ("computeLinearInterpolation", FVS + "interpolation/linear.cpp"), ("computeUpwindInterpolation", FVS + "interpolation/upwind.cpp")],
     ["internal fields of weights, distances and interpolated face fields"],
     STANDIN + " The separate boundary fields of face fields (a copy the library never fills) are not specified.", MODEL)

prop("C21", "Boundary conditions set exactly the boundary data of their own patch",
     "Correcting the boundary conditions of a field gives each face of each patch what that patch's condition says: the given value, the cell value plus the given gradient times the distance, the cell value, or, for calculated and empty patches, what it held before, with the reference value, gradient and "
     "value fraction that the implicit operators need to reproduce it. Cell values, other patches and the other kinds of data stay as they were; correcting again changes nothing, and after a change of the cell values the same holds for the new ones. Each condition knows the id and range of its patch, whatever the patch sizes, "
     "conditions that are unknown or lack their parameter are refused, and fields and conditions can be copied without sharing anything.",
     ["inputs", "histories"],
     "all meshes and patch layouts (patches without faces included), all assignments of condition kinds and values to patches, all previous boundary data, scalar and vector fields on cells and faces, the three executors",
     "The tests give every patch of one small mesh the same condition with the value one or two, and need a library that is absent here.",
     [FV + "boundary/volume/fixedValue.hpp", FV + "boundary/volume/fixedGradient.hpp", FV + "boundary/volume/extrapolated.hpp", FV + "boundary/volumeBoundaryFactory.hpp", FV + "boundary/boundaryPatchMixin.hpp", FV + "boundary/surface/fixedValue.hpp", FV + "fields/volumeField.hpp", FV + "fields/surfaceField.hpp"],
     [("correctBoundaryCondition of each condition", FV + "boundary/volume/fixedGradient.hpp"), ("BoundaryPatchMixin ranges", FV + "boundary/boundaryPatchMixin.hpp")],
     ["boundary value, refValue, refGrad, valueFraction; internal field; patch ids and ranges"],
     STANDIN + " The reference gradient of a fixed-value condition is documented as unused and not checked.", STATEFUL)

prop("C22", "Explicit divergence, surface integral and Gauss gradient",
     "The explicit divergence of a cell field along a flux, the integral of a face field and the Gauss gradient are, per cell, the sum over its faces, outgoing positive, of flux times face value (or area vector times face value) divided by its volume and times the operator's "
     "coefficient; hence fields are conserved (cells gain what the boundary lets in) and the gradient of a linear field is exact. Evaluated into an output they replace what it held, evaluated into a source they add to it, whichever way the scheme was named, on "
     "every executor and in every order of the faces. The operands stay as they were; unknown schemes or an operator without a scheme are refused.",
     ["inputs", "schedules"],
     "all meshes, fluxes (zero included), cell and boundary values, coefficients (number, field, both), previous output contents, scheme forms, scalar and vector fields, the three executors and all schedules",
     "The tests take the divergence of a field that is one everywhere on one mesh, so the result is zero with nearly any face value, and need a library that is absent here.",
     [FV + "operators/gaussGreenDiv.hpp", FVS + "operators/gaussGreenDiv.cpp", FV + "operators/divOperator.hpp", FVS + "operators/surfaceIntegrate.cpp", FVS + "operators/gaussGreenGrad.cpp"],
     [("computeDivExp", FVS + "operators/gaussGreenDiv.cpp"), ("DivOperator::build and explicitOperation", FV + "operators/divOperator.hpp"), ("computeGrad", FVS + "operators/gaussGreenGrad.cpp")],
     ["output field or source after the operation, operands, exit status on misuse"], STANDIN,
     "property-based testing: generated meshes and fields against a reference sum on the host, conservation, schedules; ASan/UBSan, shrinking")

prop("C23", "Face-normal gradient and explicit Laplacian",
     "The normal gradient at a face is the difference of the values on its two sides times the inverse normal distance, exact for linear fields on orthogonal meshes and zero for constants. The explicit Laplacian is, per cell, the sum over its faces of diffusion coefficient times normal gradient times face area, outgoing positive, "
     "divided by its volume and times the operator's coefficient, so that diffusion only exchanges between cells and through the boundary. Outputs are replaced, sources are added to, operands stay as they were, whichever way the scheme was named; unknown or incomplete schemes are refused.",
     ["inputs", "schedules"],
     "all meshes, diffusion coefficients, cell and boundary values, operator coefficients (number, field, both), previous output contents, scheme forms, scalar and vector fields, the three executors and all schedules",
     "The tests use one uniform line of cells with a linear field and a diffusion coefficient of one, and need a library that is absent here.",
     [FVS + "faceNormalGradient/uncorrected.cpp", FV + "faceNormalGradient/faceNormalGradient.hpp", FV + "operators/gaussGreenLaplacian.hpp", FVS + "operators/gaussGreenLaplacian.cpp", FV + "operators/laplacianOperator.hpp"],
     [("computeFaceNormalGrad", FVS + "faceNormalGradient/uncorrected.cpp"), ("computeLaplacianExp", FVS + "operators/gaussGreenLaplacian.cpp")],
     ["output field or source after the operation, operands, exit status on misuse"], STANDIN,
     "property-based testing: generated meshes and fields against a reference sum on the host, conservation, schedules; ASan/UBSan, shrinking")

prop("C24", "Implicit operators assemble exactly what the explicit ones compute",
     "What implicit divergence (upwind) and Laplacian add to a linear system, applied to any cell values, equals volume times the explicit operator for those values, with the boundary conditions (given value, given gradient, mixed) included; the Laplacian's entries across a face are mutual. A source term adds coefficient times field "
     "to a source, or coefficient times volume to the diagonal and nothing else. Assembly adds to what the system held, keeps its pattern, leaves the operands as they were, and does not depend on executor or schedule.",
     ["inputs", "schedules"],
     "all meshes, fluxes and diffusion coefficients, boundary data of any mixed condition, operator coefficients, systems with any content, scalar and vector fields, the three executors and all schedules",
     "The tests compare a few sums on a uniform line of ten cells and need a library that is absent here.",
     [FVS + "operators/gaussGreenDiv.cpp", FV + "operators/gaussGreenLaplacian.hpp", FVS + "operators/gaussGreenLaplacian.cpp", FVS + "operators/sourceTerm.cpp", FV + "operators/sourceTerm.hpp"],
     [("computeDivImp", FVS + "operators/gaussGreenDiv.cpp"), ("computeLaplacianImpl", FVS + "operators/gaussGreenLaplacian.cpp"), ("SourceTerm::implicitOperation", FVS + "operators/sourceTerm.cpp")],
     ["matrix entries and right-hand side before and after, explicit result"], STANDIN,
     "property-based testing: differential between implicit and explicit form on generated meshes, fields and systems; ASan/UBSan, shrinking")

prop("C25", "Expressions are sums of scaled operators and own their copies",
     "An expression built from operators by addition, subtraction, scaling with numbers, fields or coefficients, and from other expressions, evaluates to exactly the signed sum of its scaled terms: explicit ones into the source, implicit ones into the linear system, temporal ones only when time and step are given. "
     "It holds its own copies: nothing done to it changes the operators, coefficients or expressions it was made from, nor the other way round. Schemes given to an expression reach each of its operators exactly once; a coefficient is the product of its factors, and a product of two field-valued coefficients is refused.",
     ["inputs", "histories"],
     "all expression trees over spatial and temporal, implicit and explicit operators, numbers and fields as factors, scalar and vector fields on all meshes, the three executors; equations of the project's divergence, Laplacian and source operators",
     "The tests evaluate a few fixed sums of two operators on a single cell, and need a library that is absent here.",
     ["include/NeoFOAM/dsl/expression.hpp", "include/NeoFOAM/dsl/spatialOperator.hpp", "include/NeoFOAM/dsl/temporalOperator.hpp", "include/NeoFOAM/dsl/coeff.hpp", "src/dsl/coeff.cpp", "src/dsl/explicit.cpp", "include/NeoFOAM/dsl/implicit.hpp"],
     [("Expression and its operators + - *", "include/NeoFOAM/dsl/expression.hpp"), ("type-erased operators", "include/NeoFOAM/dsl/spatialOperator.hpp"), ("Coeff::operator*=", "src/dsl/coeff.cpp")],
     ["sources, linear systems, coefficients, log of build calls"], STANDIN,
     "property-based testing: generated expression trees against a list of scaled terms; ASan/UBSan, shrinking")

prop("C26", "Solving an equation advances the field as the chosen time scheme says",
     "A time derivative adds coefficient times volume over time step times the change since the old field to a source, or the same as diagonal and right-hand side to a system. A step of forward Euler (its own or by Runge-Kutta) gives the old field minus time step times the explicit terms; backward Euler and steady equations give the solver, chosen by the solution "
     "dictionary, exactly the system the equation says, explicit terms included, and take its answer. After a step the boundary values fit the new cells and the old field is the new one, however steps, changes from outside and copies of the integrator alternate; unknown names and empty equations are refused.",
     ["histories", "inputs"],
     "all equations of explicit and implicit divergence, Laplacian, source and other terms with factors, on all meshes with given-value and given-gradient boundaries, histories of steps with changing step sizes and outside changes, the three executors",
     "The tests advance a single cell by one step of one scheme; none solves a system in time, and they need libraries that are absent here.",
     ["include/NeoFOAM/dsl/solver.hpp", "include/NeoFOAM/timeIntegration/forwardEuler.hpp", "include/NeoFOAM/timeIntegration/backwardEuler.hpp", "src/timeIntegration/rungeKutta.cpp", "include/NeoFOAM/timeIntegration/sundials.hpp", FVS + "operators/ddtOperator.cpp", "include/NeoFOAM/linearAlgebra/solver.hpp"],
     [("dsl::solve", "include/NeoFOAM/dsl/solver.hpp"), ("BackwardEuler::solve", "include/NeoFOAM/timeIntegration/backwardEuler.hpp"), ("RungeKutta::solve", "src/timeIntegration/rungeKutta.cpp"), ("DdtOperator", FVS + "operators/ddtOperator.cpp")],
     ["field, boundary values, old field, system and first guess given to the solver"],
     STANDIN + " SUNDIALS is replaced by a stand-in with the documented behaviour of its explicit fixed-step integration.", STATEFUL)

prop("C27", "Registered fields stay what they are; old fields are independent copies",
     "A field registered in a collection is found there under its key, unmoved and unchanged but for what is done to it, however many fields and old fields are registered after it; one made like another field has its contents and conditions, and its indices unless given. Asking for the old field of a registered field makes, the first time, "
     "an independent copy of the field as it is then, one time index earlier and linked into the chain of its levels; ever after, through copies and constant references too, it is that same field. Incomplete documents, documents already there and unregistered fields are refused and change nothing.",
     ["histories"],
     "all histories of registering (new, like another, incomplete, twice), asking for old fields of any level, editing contents, documents and indices, shifting chains and looking up, over several collections, fields and the three executors",
     "The tests register one field of constant content and look at its first two old fields once, in a fixed order, and need a library that is absent here.",
     ["include/NeoFOAM/core/database/fieldCollection.hpp", "src/core/database/fieldCollection.cpp", "include/NeoFOAM/core/database/oldTimeCollection.hpp", "src/core/database/oldTimeCollection.cpp", FV + "fields/volumeField.hpp", "include/NeoFOAM/core/database/collection.hpp"],
     [("FieldCollection::registerField", "include/NeoFOAM/core/database/fieldCollection.hpp"), ("CreateFromExistingField", "include/NeoFOAM/core/database/fieldCollection.hpp"), ("OldTimeCollection::getOrInsert", "include/NeoFOAM/core/database/oldTimeCollection.hpp"), ("setCurrentFieldAndLevel", "src/core/database/oldTimeCollection.cpp")],
     ["fields, documents, links and collection listings after each few steps; exceptions on misuse"], STANDIN, STATEFUL)

prop("C28", "Courant number of a flux",
     "The Courant number of a flux is half the time step times the largest, over the cells, sum of the magnitudes of the fluxes through the cell's faces (boundary faces included) divided by its volume; the mean reported with it is the same with the sums and the volumes added up over all cells. It scales with the time step, does not "
     "depend on the sign of the flux, the executor or the order in which faces are visited, and leaves flux and mesh as they were.",
     ["inputs", "schedules"],
     "all meshes (with and without boundary), fluxes including zeros and extreme magnitudes, time steps, the three executors and all schedules",
     "The test has one uniform line of ten cells with a flux of one on every face and needs a library that is absent here.",
     [FVS + "auxiliary/coNum.cpp", FV + "auxiliary/coNum.hpp"],
     [("computeCoNum", FVS + "auxiliary/coNum.cpp")],
     ["returned value, line printed, flux and mesh afterwards"], STANDIN,
     "property-based testing: generated meshes and fluxes against a reference sum on the host, scaling and sign relations, schedules; ASan/UBSan, shrinking")

MPISTAND = ("Generated-input exploration, no proof. The ranks are threads over a stand-in for MPI that chooses, from a generated seed, which rank goes on, when messages are read and when they are delivered, "
            "within what the standard guarantees, and reports deadlock, misuse and messages left over; trusts it, the harness, g++ and the sanitizers.")
MPIH = "include/NeoFOAM/core/mpi/"
SCHED = "property-based testing: generated histories of exchanges and generated interleavings of ranks and deliveries against what was sent; ASan/UBSan, shrinking"

prop("C29", "Buffers exchange exactly what was put in, under every interleaving",
     "Whatever each rank puts into its send buffers arrives, unchanged and in order, in the receive buffer for that rank of every rank it is meant for, once: through half- and full-duplex buffers, any numbers of elements (none included) and types, buffers used again with another type or other numbers, several buffers under way under different names "
     "started in a different order on each rank. A buffer says it is complete only when everything is here, no interleaving of ranks and deliveries makes the ranks wait for ever, and finishing leaves the buffer free for the next use.",
     ["schedules", "histories"],
     "all numbers of ranks, communicators (the world or part of it), message sizes, element types, names with different tags, orders of starting and finishing by rank, interleavings of ranks and deliveries",
     "The tests exchange one fixed message between all ranks in one order, under whatever timing the machine happens to have, and are not run here.",
     [MPIH + "halfDuplexCommBuffer.hpp", "src/core/mpi/halfDuplexCommBuffer.cpp", MPIH + "fullDuplexCommBuffer.hpp", MPIH + "environment.hpp"],
     [("HalfDuplexCommBuffer::send and receive", "src/core/mpi/halfDuplexCommBuffer.cpp"), ("HalfDuplexCommBuffer::updateDataSize", MPIH + "halfDuplexCommBuffer.hpp"), ("bufferHash", MPIH + "halfDuplexCommBuffer.hpp")],
     ["received and sent buffers, completion answers, deadlocks, messages left over"],
     MPISTAND + " Names whose 16-bit tags collide are left out here and recorded as a known finding of C30.", SCHED)

prop("C30", "Communicator synchronises the mapped elements of fields and nothing else",
     "Between starting and finishing an exchange of a field under a name, each place a rank receives into gets the value its partner's mapped place had when the partner started, and all other places keep what they hold; that is so for all maps, types of fields, several fields under way at a time, names used again and again, a different "
     "order on each rank, and copies of the communicator. Starting changes no field, later changes of the field do not change what is sent, and completion is reported only when everything is here.",
     ["schedules", "histories"],
     "all numbers of ranks, communicators, maps (empty and uneven ones included), field types and sizes, names with different tags, histories of exchanges, orders by rank, interleavings of ranks and deliveries",
     "The only test exchanges one field once, and did not compile.",
     ["include/NeoFOAM/mesh/unstructured/communicator.hpp", "src/mesh/unstructured/communicator.cpp", MPIH + "fullDuplexCommBuffer.hpp", MPIH + "halfDuplexCommBuffer.hpp"],
     [("Communicator::startComm and finaliseComm", "include/NeoFOAM/mesh/unstructured/communicator.hpp"), ("findDuplexBuffer and createNewDuplexBuffer", "src/mesh/unstructured/communicator.cpp")],
     ["fields of all ranks before and after every step, completion answers, deadlocks, messages left over"],
     MPISTAND + " One known finding: names with the same 16-bit tag mix their messages.", SCHED)

prop("C31", "Reductions over ranks and messages of plain values",
     "A reduction leaves on every rank of the communicator, and only there, the maximum, minimum, sum, product or logical or bitwise combination of the values of all its ranks, exactly in the value's own type (component by component for vectors), whatever the ranks' order of arrival. Non-blocking messages of values of "
     "every supported type arrive whole, in place and only after they were sent, and a test says so only then. The environment knows its rank, size and communicator, copies included.",
     ["schedules", "inputs"],
     "all numbers of ranks, communicators, supported types and operations, values up to the ends of their ranges, message lengths and tags, orders of posting and waiting, interleavings of ranks and deliveries",
     "The tests reduce int and one float by each operation with values that differ by rank in one way, send one message, and are not run here.",
     [MPIH + "operators.hpp", MPIH + "environment.hpp"],
     [("allReduce", MPIH + "operators.hpp"), ("getType", MPIH + "operators.hpp"), ("getOp", MPIH + "operators.hpp"), ("isend, irecv, test", MPIH + "operators.hpp"), ("MPIEnvironment", MPIH + "environment.hpp")],
     ["reduced values and their neighbours in memory, messages, ranks and sizes, mismatched calls and deadlocks"], MPISTAND, SCHED)

prop("C32", "Kernels run concurrently without data races",
     "On executors that share memory, no two iterations of a kernel touch the same memory without synchronisation while one of them writes it, neither between faces of the same cell nor between boundary faces of the same cell nor anywhere else; so results on real threads are those of the sequential loop for every mesh, patch layout and timing.",
     ["schedules", "inputs"],
     "all kernels of fields, segments, meshes, stencils, sparsity patterns, matrices, boundary conditions, interpolation, gradients, divergence, Laplacian, source terms and the Courant number, on all meshes, with neighbouring iterations on different threads",
     "The tests run kernels on whatever threads Kokkos was built with, without a race detector, on line meshes where hardly two faces of a cell meet on different threads, and are not built here.",
     [PAR, FVS + "operators/gaussGreenDiv.cpp", FVS + "operators/gaussGreenGrad.cpp", FVS + "operators/gaussGreenLaplacian.cpp", FVS + "operators/surfaceIntegrate.cpp", FVS + "stencil/cellToFaceStencil.cpp", FVS + "linearAlgebra/sparsityPattern.cpp", FVS + "auxiliary/coNum.cpp", FVS + "stencil/basicGeometryScheme.cpp"],
     [("atomic updates of owner and neighbour", FVS + "operators/gaussGreenLaplacian.cpp"), ("slots handed out by atomic_fetch_add", FVS + "linearAlgebra/sparsityPattern.cpp"), ("face sums per cell", FVS + "auxiliary/coNum.cpp")],
     ["memory accesses of each iteration, results"],
     "Generated-input exploration, no proof. Kokkos (absent here) is replaced by a stand-in that runs every kernel on three threads, one iteration in three each; ThreadSanitizer decides. Trusts both, the model in the harness and g++.",
     "property-based testing: generated inputs with kernels on real threads under ThreadSanitizer, shrinking")

prop("C33", "An assembled equation is the equation: system, residual, solution",
     "Assembling an equation gives the linear system whose residual, for any cell values, is volume times the equation: implicit and explicit terms with their factors, time derivatives against the old field, boundary conditions included; assembling again starts afresh. Fixing a reference in a cell adds diagonal times value to the "
     "right-hand side of that cell and the diagonal to itself, and changes nothing else; the residual is matrix times field minus right-hand side; the solver chosen gets this system and the field as first guess, and its answer becomes the field. Copies have a system of their own, equations without terms or with time derivatives but no time scheme are not solved.",
     ["histories", "inputs"],
     "all equations of explicit and implicit divergence, Laplacian, source and other terms and time derivatives with factors, scalars and vectors, on all meshes with given-value and given-gradient boundaries; histories of assembling, references, residuals, copies, solving and changes; the three executors",
     "No test uses this class; half of it did not compile.",
     [FV + "dsl/expression.hpp", "include/NeoFOAM/dsl/expression.hpp", "include/NeoFOAM/linearAlgebra/linearSystem.hpp"],
     [("fvcc::Expression::assemble", FV + "dsl/expression.hpp"), ("fvcc::Expression::setReference", FV + "dsl/expression.hpp"), ("operator&(fvcc::Expression, VolumeField)", FV + "dsl/expression.hpp")],
     ["system after each operation, residual field, system and guess given to the solver, field afterwards"], STANDIN, STATEFUL)

BACKEND = ("Generated-input exploration, no proof. The library is absent: a stand-in with its documented semantics of arrays, matrices, vectors and configurations records what it is given; "
           "trusts it, the stand-in for Kokkos, the harness, g++ and the sanitizers.")
BACKTECH = "property-based testing: generated dictionaries, systems and histories of solvers against what a recording stand-in receives; ASan/UBSan, shrinking"
prop("C34", "The Ginkgo solver is configured as told and given exactly the system",
     "The configuration made from a dictionary has an entry for each of the dictionary's, under the same name and with the same value of the same kind (text, whole numbers, real numbers, dictionaries within), however deep and however extreme; a dictionary with an entry that has no counterpart is refused with the project's exception. "
     "Every solver, and every copy of one, hands Ginkgo under its own configuration the matrix entry by entry, the right-hand side and the field as first guess, and leaves the answer in the field, whatever was solved before; the system stays as it was.",
     ["inputs", "histories"],
     "all dictionaries of the supported types (values at the ends of their ranges included), nested, with and without entries of other types; all sparse systems, rows without entries or with columns in any order included; histories of making, copying and using several solvers; serial and CPU executors",
     "The tests convert dictionaries of one entry and solve one system of three rows, and need a library that is absent here.",
     ["src/linearAlgebra/ginkgo.cpp", "include/NeoFOAM/linearAlgebra/ginkgo.hpp", "include/NeoFOAM/linearAlgebra/utilities.hpp", "src/linearAlgebra/utilities.cpp", "include/NeoFOAM/linearAlgebra/solver.hpp"],
     [("la::ginkgo::parse", "src/linearAlgebra/ginkgo.cpp"), ("GinkgoSolver::solve", "include/NeoFOAM/linearAlgebra/ginkgo.hpp"), ("createGkoMtx", "include/NeoFOAM/linearAlgebra/utilities.hpp")],
     ["configuration, matrix, right-hand side, guess and answer at the border to Ginkgo; field and system afterwards"], BACKEND, BACKTECH)

prop("C35", "The PETSc solver is given exactly the system and its answer becomes the field",
     "Every solver with the PETSc backend, and every copy of one, hands PETSc the entries and the right-hand side of the system, each once and in its place, whatever the size of the system, the order of the columns and the number of entries in each row, in the types that fit the executor; PETSc's answer becomes the field, the system stays as it was, and "
     "nothing created for it is left behind.",
     ["inputs", "histories"],
     "all sparse systems, rows without entries or with columns in any order and up to nearly a million rows included; histories of solving and copying several solvers; the three executors",
     "The tests solve two full systems of three rows and need a library that is absent here.",
     ["include/NeoFOAM/linearAlgebra/petsc.hpp", "include/NeoFOAM/linearAlgebra/petscSolverContext.hpp", "include/NeoFOAM/linearAlgebra/solver.hpp"],
     [("petscSolver::solve", "include/NeoFOAM/linearAlgebra/petsc.hpp"), ("petscSolverContext::initialize", "include/NeoFOAM/linearAlgebra/petscSolverContext.hpp")],
     ["matrix, right-hand side and answer at the border to PETSc; field and system afterwards; live PETSc objects"], BACKEND, BACKTECH)

prop("C36", "Memory of a device is touched only there, host memory only by the host",
     "What the project allocates for an executor is read and written only where that executor runs: the host touches the memory of a device through explicit copies alone, kernels on a device never touch memory of the host, copies name the side on which each of their ends is, and memory goes back to the side it came from. "
     "So everything the project computes on a device gives the same results as on the host: fields, meshes, boundaries, stencils, matrices, interpolation, operators, expressions, time steps, old fields and communication between ranks.",
     ["inputs", "histories"],
     "all operations of the properties C12, C13, C15 to C28, C30 and C33 on all their inputs and histories, with fields and meshes on an executor whose memory is not the host's",
     "Tests without a device run all executors in the memory of the host, where a misplaced access works; those with one use a few meshes and sizes.",
     [PAR, FIELD, "include/NeoFOAM/core/executor/GPUExecutor.hpp", "include/NeoFOAM/fields/boundaryFields.hpp", "src/mesh/unstructured/unstructuredMesh.cpp", FVS + "operators/gaussGreenDiv.cpp", FVS + "operators/gaussGreenLaplacian.cpp", "include/NeoFOAM/mesh/unstructured/communicator.hpp"],
     [("deepCopyVisitor", FIELD), ("BoundaryFields::range", "include/NeoFOAM/fields/boundaryFields.hpp"), ("Communicator::startComm, finaliseComm", "include/NeoFOAM/mesh/unstructured/communicator.hpp"), ("create1DUniformMesh", "src/mesh/unstructured/unstructuredMesh.cpp")],
     ["memory accesses of the host and of each kernel, results"],
     "Generated-input exploration, no proof. There is no device here: a stand-in for Kokkos keeps two kinds of memory and AddressSanitizer reports accesses from the wrong side; host memory that Kokkos did not allocate (a captured std::vector) is not covered. Trusts the stand-in, the models in the harnesses and g++.",
     "property-based testing: generated inputs and histories with device memory poisoned for the host and vice versa (AddressSanitizer), shrinking")

prop("C37", "With 64-bit labels the project computes the same",
     "Built with 64-bit labels (option NEOFOAM_DP_LABEL) the project compiles and everything holds that holds with 32-bit labels: fields, segments, meshes, stencils, sparsity patterns, linear systems, interpolation, boundary conditions, explicit and implicit operators, expressions, time steps, old fields and communication between ranks give the same results, "
     "whatever the mesh and the values, and labels and indices keep their values wherever they are stored or handed on.",
     ["inputs", "histories"],
     "all operations of the properties C12 to C28, C30 and C33 on all their inputs and histories, on the three executors, built with the option",
     "No test is built with the option; with it the project did not compile.",
     ["include/NeoFOAM/core/primitives/label.hpp", FVS + "operators/surfaceIntegrate.cpp", FVS + "operators/gaussGreenDiv.cpp", "src/mesh/unstructured/unstructuredMesh.cpp", FVS + "linearAlgebra/sparsityPattern.cpp"],
     [("label, localIdx", "include/NeoFOAM/core/primitives/label.hpp"), ("surfaceIntegrate", FVS + "operators/surfaceIntegrate.cpp"), ("computeDivExp", FVS + "operators/gaussGreenDiv.cpp")],
     ["results of all operations, sanitizer reports"], STANDIN, STATEFUL)

prop("C38", "The debug build refuses no valid use and computes the same",
     "Built for debugging (NF_DEBUG) the project checks more - bounds of views, sizes and executors of operands, states of communications - but refuses only misuse: every operation that is valid in a released build is accepted, has the same effect and gives the same result, and what both builds refuse is refused in the same way.",
     ["inputs", "histories"],
     "all operations of the properties C12 to C28, C30 and C33 on all their inputs and histories, on the three executors, built with NF_DEBUG",
     "The existing tests that build here are built without NF_DEBUG; a check that is too strict, or has an effect of its own, shows only for inputs that reach its border.",
     ["include/NeoFOAM/core/error.hpp", "include/NeoFOAM/core/view.hpp", FIELD, "include/NeoFOAM/fields/segmentedField.hpp", "include/NeoFOAM/linearAlgebra/CSRMatrix.hpp", "include/NeoFOAM/mesh/unstructured/communicator.hpp"],
     [("NF_DEBUG_ASSERT", "include/NeoFOAM/core/error.hpp"), ("View::operator[]", "include/NeoFOAM/core/view.hpp"), ("Field::validateOtherField", FIELD)],
     ["results of all operations, refusals, ends of the process"], STANDIN, STATEFUL)

prop("C39", "Simulations conserve, keep constants, stay in bounds, whatever the numbering",
     "Stepping a convection-diffusion equation in time, explicitly or implicitly, the cells together gain in each step exactly what the boundary faces let in; a uniform field in a flow without divergence stays uniform; with upwind convection, diffusion and a step within the stability limit (any step if implicit) no new extrema arise. "
     "The answer does not depend on how cells, faces and patches are numbered, which side of a face is the owner, the executor or the schedule; it is linear in initial and boundary values and sources, scales with the units of length, time and value, and a run continued from its values goes on as the uninterrupted one.",
     ["inputs", "histories", "schedules"],
     "all simulations of one to four steps with forward Euler, Runge-Kutta (Euler) or backward Euler: any mesh with consistent faces, fluxes, diffusion coefficients, sources, given values and gradients per patch, on the three executors, and their renumbered, scaled and superposed variants",
     "No test follows a simulation: the tests look at one operator on a line of cells numbered from left to right, where fluxes, owners and patches are all alike.",
     ["include/NeoFOAM/dsl/solver.hpp", "include/NeoFOAM/timeIntegration/forwardEuler.hpp", "include/NeoFOAM/timeIntegration/backwardEuler.hpp", FVS + "operators/gaussGreenDiv.cpp", FVS + "operators/gaussGreenLaplacian.cpp", FVS + "interpolation/upwind.cpp", FVS + "interpolation/linear.cpp", FVS + "faceNormalGradient/uncorrected.cpp", FVS + "stencil/basicGeometryScheme.cpp", FVS + "linearAlgebra/sparsityPattern.cpp", FV + "boundary/volume/fixedGradient.hpp"],
     [("dsl::solve", "include/NeoFOAM/dsl/solver.hpp"), ("computeDivExp, computeDivImp", FVS + "operators/gaussGreenDiv.cpp"), ("computeLaplacianExp, computeLaplacianImpl", FVS + "operators/gaussGreenLaplacian.cpp"), ("computeUpwindInterpolation", FVS + "interpolation/upwind.cpp")],
     ["cell and boundary values after each step"],
     STANDIN + " Linear systems are solved by elimination in the harness. Implicit equations are generated with given gradients at outlets, so that they have a solution.",
     "property-based testing: conservation, maximum principle and metamorphic relations (renumbering, superposition, units, restart) over generated simulations; ASan/UBSan, shrinking")

prop("C40", "Vectors given to the time integration library carry exactly a field's values",
     "A vector made for an executor and a size has that size and lives on that executor. Writing a field to it and reading it back gives the field's values and leaves the field as it was. Copies are vectors of the same size with storage of their own, moved vectors keep their contents, starting a vector again gives it the new size, "
     "and nothing done to one vector - also its end - affects another.",
     ["histories"],
     "all histories of making, writing, reading, copying, moving, restarting and dropping up to five vectors of any size on the three executors",
     "The tests reach these vectors only through one Runge-Kutta run, and need two libraries that are absent here.",
     ["include/NeoFOAM/timeIntegration/sundials.hpp"],
     [("SKVector, SKVectorSerial, SKVectorHostDefault, SKVectorDefault", "include/NeoFOAM/timeIntegration/sundials.hpp"), ("fieldToSunNVector, sunNVectorToField", "include/NeoFOAM/timeIntegration/sundials.hpp")],
     ["length, kind, contents and identity of each vector after each step"],
     STANDIN + " SUNDIALS (absent here) is replaced by a stand-in whose vectors copy their shape only, as the real ones do.", STATEFUL)

prop("C41", "In single precision the project computes the same, to that precision",
     "Built with scalars of single precision (option NEOFOAM_DP_SCALAR off) the project compiles and everything holds that holds in double precision, up to the accuracy of the scalars: what is exact stays exact (fields, segments, meshes, stencils, sparsity patterns, matrices, old fields, "
     "messages between ranks), and interpolation, boundary conditions, explicit and implicit operators, expressions, time steps and Courant numbers agree with their definitions to single precision; no operand is read or written with the size of a double.",
     ["inputs", "histories"],
     "all operations of the properties C12 to C28, C30, C31 and C33 on all their inputs and histories, on the three executors, built without the option",
     "No test is built with single precision; without the option the project did not compile.",
     ["include/NeoFOAM/core/primitives/scalar.hpp", "include/NeoFOAM/core/primitives/vector.hpp", "include/NeoFOAM/core/mpi/operators.hpp", FVS + "stencil/basicGeometryScheme.cpp", FVS + "operators/gaussGreenDiv.cpp"],
     [("scalar", "include/NeoFOAM/core/primitives/scalar.hpp"), ("BasicGeometryScheme", FVS + "stencil/basicGeometryScheme.cpp"), ("computeDivImp", FVS + "operators/gaussGreenDiv.cpp"), ("allReduce(Vector)", "include/NeoFOAM/core/mpi/operators.hpp")],
     ["results of all operations, sanitizer reports"], STANDIN, STATEFUL)
