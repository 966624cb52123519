"""What each property's check is built from."""

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CORE_DEFS = ["-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0", "-DNEOFOAM_DP_SCALAR=1"]

CORE_SRC = [
    "src/core/database/database.cpp",
    "src/core/database/collection.cpp",
    "src/core/database/document.cpp",
    "src/core/dictionary.cpp",
    "src/core/demangle.cpp",
    "src/core/tokenList.cpp",
    "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp",
]

GROUPS = {
    # the part of the project that needs no Kokkos, compiled from /repo as it is
    "core": {
        "flags": ["-std=c++20", "-O1", "-g1", "-w"] + SAN + CORE_DEFS,
        "repo": CORE_SRC,
        "umbrella": [],
        "libs": ["-lpthread"],
    },
    # same, instrumented for data races
    "core-tsan": {
        "flags": ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=thread"] + CORE_DEFS,
        "repo": CORE_SRC,
        "umbrella": [],
        "libs": ["-lpthread"],
    },
}

NUM_FLAGS = ["-std=c++20", "-O1", "-g1", "-w"] + CORE_DEFS
EXEC_SRC = ["src/executor/CPUExecutor.cpp", "src/executor/serialExecutor.cpp", "src/executor/GPUExecutor.cpp",
            "src/core/primitives/vector.cpp"]
# the part that computes, against the stand-ins for Kokkos and SUNDIALS
GROUPS["num"] = {
    "flags": NUM_FLAGS + SAN,
    "repo": EXEC_SRC,
    "umbrella": [],
    "shim": ["shim/kokkos", "shim/sundials"],
    "libs": ["-lpthread"],
}
# same, with kernels on real threads, instrumented for data races
GROUPS["num-tsan"] = {
    "flags": NUM_FLAGS + ["-fsanitize=thread", "-DSTANDIN_THREADS"],
    "repo": EXEC_SRC,
    "umbrella": [],
    "shim": ["shim/kokkos", "shim/sundials"],
    "libs": ["-lpthread"],
}
MESH_SRC = EXEC_SRC + ["src/mesh/unstructured/unstructuredMesh.cpp", "src/mesh/unstructured/boundaryMesh.cpp",
                       "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"]
FVCC = "src/finiteVolume/cellCentred/"
PATTERN_SRC = MESH_SRC + [FVCC + "linearAlgebra/sparsityPattern.cpp"]


def num(*sources, **kw):
    return dict(group="num", sources=["num/" + s for s in sources], **kw)


def core(*sources, **kw):
    return dict(group="core", sources=["core/" + s for s in sources], **kw)


PROPS = {
    "C01": {
        "targets": [core("dictionary_map.cpp")],
        "rule": "Operation histories over up to five dictionaries (insert, remove, write through operator[], nested "
        "subDict paths, copy, move, self-insertion) are generated and compared with a deep value model after each step.",
    },
    "C02": {
        "targets": [core("dictionary_access.cpp")],
        "rule": "Random dictionaries with values of 15 kinds; accesses with right/wrong types and near-miss keys.",
    },
}
PROPS["C03"] = {
    "targets": [core("tokenlist.cpp")],
    "rule": "Operation histories over up to five token lists (insert, next, popFront, remove, get, copy, assign) against a "
    "model of sequence plus cursor.",
}
PROPS["C04"] = {
    "targets": [core("input.cpp")],
    "rule": "A generated record schema is stored as a dictionary and as a token list and read back through the common input type.",
}
PROPS["C05"] = {
    "targets": [core("document.cpp"), core("document_threads.cpp", name="threads+asan"),
                dict(group="core-tsan", sources=["core/document_threads.cpp"], name="threads+tsan")],
    "rule": "Histories of creating, copying, editing and validating documents with generated content, ids and validators; "
    "tens of thousands of documents in a row; threads creating documents concurrently (also under ThreadSanitizer).",
}
PROPS["C06"] = {
    "targets": [core("database.cpp", flags=["-DPROP_DATABASE"])],
    "rule": "Histories of registering, removing and looking up collections of two types under clashing names, against a model.",
}
PROPS["C07"] = {
    "targets": [core("database.cpp", flags=["-DPROP_COLLECTION"])],
    "rule": "Histories of inserting, editing, removing and querying documents through the typed and the erased interface.",
}
PROPS["C10"] = {
    "targets": [core("stencildb.cpp")],
    "rule": "Histories of storing and looking up values of 14 types, with near-miss keys and wrong types, against a model.",
}
PROPS["C08"] = {
    "targets": [core("factory.cpp", repo=[])],
    "rule": "Registration histories over four hierarchies with different constructor parameters; the names, documentation and "
    "schemas are generated, including names that are prefixes of or equal to each other.",
}
PROPS["C09"] = {
    "targets": [core("failure.cpp", repo=[], name="released"),
                core("failure.cpp", repo=[], name="NF_DEBUG", flags=["-DNF_DEBUG"], shim=["shim/cpptrace"]),
                core("failure.cpp", repo=[], name="released, equality of strings", flags=["-DEQUAL_STRINGS"], optional=True),
                core("lengths.cpp", repo=[], name="lengths", optional=True)],
    "rule": "Every failure macro with generated conditions, values and messages, in a child process where it is fatal.",
}
PROPS["C11"] = {
    "targets": [core("view.cpp", repo=[], name="released"),
                core("view.cpp", repo=[], name="NF_DEBUG", flags=["-DNF_DEBUG"])],
    "rule": "Access histories over views of parts of generated buffers.",
}
PROPS["C12"] = {
    "targets": [num("parallel.cpp")],
    "rule": "Ranges, data, executors and schedules (the order of the iterations, the partition of reductions and scans) are "
    "generated; the result is compared with a sequential loop.",
}
PROPS["C13"] = {
    "targets": [num("field.cpp")],
    "rule": "Operation histories over up to six fields of scalars or vectors on the three executors, compared after each step with "
    "vectors of values; allocations are counted.",
}
PROPS["C14"] = {
    "targets": [num("vector.cpp")],
    "rule": "Generated vectors, scalars and labels; every operation is compared with the same operation on the components.",
}
PROPS["C15"] = {
    "targets": [num("segments.cpp")],
    "rule": "Generated segment lengths (many of them zero), values, executors and schedules of the scan.",
}
PROPS["C16"] = {
    "targets": [num("domain.cpp", repo=MESH_SRC)],
    "rule": "Generated boundary layouts (empty boundaries included) and contents; copies, transfers, assignments and moves.",
}
PROPS["C17"] = {
    "targets": [num("mesh.cpp", repo=MESH_SRC)],
    "rule": "One-dimensional meshes of generated sizes; meshes given to the constructor: connected at random, or blocks of bricks "
    "with random spacing, numbering and patches (empty ones included).",
}
PROPS["C18"] = {
    "targets": [num("stencil.cpp", repo=PATTERN_SRC + [FVCC + "stencil/cellToFaceStencil.cpp"])],
    "rule": "Meshes connected at random (also several faces between two cells, cells without faces, a cell with up to 199 "
    "neighbours), blocks of bricks numbered at random; executors and schedules.",
}
PROPS["C19"] = {
    "targets": [num("linsys.cpp", repo=PATTERN_SRC)],
    "rule": "Generated sparse matrices (rows of any length, columns ascending or in any order), right-hand sides, executors; systems "
    "on the patterns of generated meshes.",
}

GEOM_SRC = PATTERN_SRC + [FVCC + "boundary/boundary.cpp", FVCC + "stencil/geometryScheme.cpp", FVCC + "stencil/basicGeometryScheme.cpp"]
INTERP_SRC = GEOM_SRC + [FVCC + "interpolation/linear.cpp", FVCC + "interpolation/upwind.cpp"]
GEOM_SRC += CORE_SRC[:5]
INTERP_SRC += CORE_SRC[:5] + ["src/core/tokenList.cpp"]
PROPS["C20"] = {
    "targets": [num("interpolation.cpp", repo=INTERP_SRC)],
    "rule": "Generated meshes (one-dimensional, bricks, connected at random; face centres also beyond a cell centre), cell and boundary values, "
    "fluxes (zero and negative zero included), scheme input forms, executors.",
}
PROPS["C21"] = {
    "targets": [num("boundary.cpp", repo=INTERP_SRC)],
    "rule": "Generated meshes (empty patches included), a condition of any kind per patch with a generated value, generated previous contents "
    "of all boundary data, repeated correction after changes, copies.",
}

FV_SRC = INTERP_SRC + [FVCC + "operators/" + x + ".cpp" for x in ("gaussGreenDiv", "gaussGreenGrad", "gaussGreenLaplacian", "surfaceIntegrate", "sourceTerm", "ddtOperator")]
FV_SRC += [FVCC + "faceNormalGradient/uncorrected.cpp", "src/dsl/coeff.cpp", "src/dsl/spatialOperator.cpp", "src/dsl/temporalOperator.cpp", "src/dsl/explicit.cpp",
           "src/core/database/fieldCollection.cpp", "src/core/database/oldTimeCollection.cpp"]
PROPS["C22"] = {
    "targets": [num("div.cpp", repo=FV_SRC)],
    "rule": "Generated meshes, cell and boundary values of all kinds of patches, fluxes (zero and negative zero included), coefficients (number, field, "
    "both), schemes named in every way, previous contents of the output, executors and schedules.",
}

PROPS["C23"] = {
    "targets": [num("laplacian.cpp", repo=FV_SRC)],
    "rule": "Generated meshes, cell and boundary values of all kinds of patches, diffusion coefficients, operator coefficients (number, field, both), schemes "
    "named in every way, previous contents of the output, executors and schedules.",
}
PROPS["C24"] = {
    "targets": [num("implicit.cpp", repo=FV_SRC)],
    "rule": "Generated meshes with every kind of patch and mixed conditions, fluxes and diffusion coefficients, operator coefficients, systems that hold "
    "something already; the assembled system is applied to several generated fields.",
}
PROPS["C25"] = {
    "targets": [num("expression.cpp", repo=FV_SRC)],
    "rule": "Products of numbers and fields; expression trees over generated spatial and temporal operators (sums, differences, scalings, copies) against a "
    "list of scaled terms; equations of the project's own operators with generated factors.",
}
PROPS["C26"] = {
    "targets": [num("time.cpp", repo=FV_SRC + ["src/timeIntegration/timeIntegration.cpp", "src/timeIntegration/rungeKutta.cpp"])],
    "rule": "Generated equations (terms, factors, boundary conditions, meshes) solved over several steps with changing step sizes and changes from outside between "
    "them; linear systems are taken by a recording solver and applied to generated values.",
}
PROPS["C27"] = {
    "targets": [num("registration.cpp", repo=FV_SRC)],
    "rule": "Histories of registering fields (new, like another one, incomplete), asking for old fields of any level, changing contents, documents and indices, and "
    "looking things up, over three collections, against a model of all entries after every few steps.",
}
PROPS["C28"] = {
    "targets": [num("courant.cpp", repo=FV_SRC + [FVCC + "auxiliary/coNum.cpp"])],
    "rule": "Generated meshes, fluxes (single faces, zeros, very large and small), time steps, executors and schedules.",
}

# communication between ranks, against a stand-in for MPI
GROUPS["mpi"] = {
    "flags": NUM_FLAGS + SAN + ["-DNF_WITH_MPI_SUPPORT"],
    "repo": EXEC_SRC,
    "umbrella": [],
    "shim": ["shim/mpi", "shim/kokkos", "shim/sundials"],
    "libs": ["-lpthread"],
}
MPI_SRC = EXEC_SRC + ["src/core/mpi/halfDuplexCommBuffer.cpp"]
PROPS["C29"] = {
    "targets": [dict(group="mpi", sources=["num/duplex.cpp"], repo=MPI_SRC)],
    "rule": "Histories of exchanges over up to three buffers and four ranks (all of the world or some), with generated numbers of elements, types and names, an order "
    "of its own for each rank, and generated interleavings of ranks and deliveries.",
}
PROPS["C30"] = {
    "targets": [dict(group="mpi", sources=["num/communicator.cpp"], repo=MPI_SRC + ["src/mesh/unstructured/communicator.cpp"])],
    "rule": "Histories of exchanges of fields of four types under up to five names at a time, over up to four ranks (all of the world or some), with generated maps, "
    "an order of its own for each rank, and generated interleavings of ranks and deliveries.",
}
PROPS["C31"] = {
    "targets": [dict(group="mpi", sources=["num/allreduce.cpp"], repo=MPI_SRC)],
    "rule": "Generated numbers of ranks (all of the world or some), reductions of sixteen types with every operation they have, values up to the ends of their ranges, "
    "messages of seventeen types posted and awaited in generated orders, and generated interleavings of ranks and deliveries.",
}


def races(source, scale, **kw):
    return dict(group="num-tsan", sources=["num/" + source], name=source + " on threads", scale=scale, again=True, **kw)


PROPS["C32"] = {
    "targets": [
        races("laplacian.cpp", 0.1, repo=FV_SRC),
        races("div.cpp", 0.1, repo=FV_SRC),
        races("implicit.cpp", 0.1, repo=FV_SRC),
        races("interpolation.cpp", 0.1, repo=INTERP_SRC),
        races("boundary.cpp", 0.1, repo=INTERP_SRC),
        races("courant.cpp", 0.1, repo=FV_SRC + [FVCC + "auxiliary/coNum.cpp"]),
        races("stencil.cpp", 0.1, repo=PATTERN_SRC + [FVCC + "stencil/cellToFaceStencil.cpp"]),
        races("linsys.cpp", 0.1, repo=PATTERN_SRC),
        races("mesh.cpp", 0.1, repo=MESH_SRC),
        races("segments.cpp", 0.1),
        races("field.cpp", 0.1),
        races("domain.cpp", 0.1, repo=MESH_SRC),
        races("parallel.cpp", 0.1),
    ],
    "rule": "The harnesses of C12, C13, C15 to C24 and C28 with every kernel on three real threads, neighbouring iterations on different ones, under ThreadSanitizer: generated meshes, "
    "fields, systems and histories.",
}
PROPS["C33"] = {
    "targets": [num("assembly.cpp", repo=FV_SRC + ["src/timeIntegration/timeIntegration.cpp", "src/timeIntegration/rungeKutta.cpp"])],
    "rule": "Generated equations (terms, time derivatives, factors, boundary conditions, meshes) and histories of assembling, fixing references, residuals, copies, "
    "solving and changes of the field; the system held is compared entry by entry with what was done to it and applied to generated values.",
}

BACKEND_DEFS = ["-DNEOFOAM_DP_SCALAR=1"]
GROUPS["ginkgo"] = {
    "flags": ["-std=c++20", "-O1", "-g1", "-w", "-DNF_WITH_GINKGO=1", "-DNF_WITH_PETSC=0"] + BACKEND_DEFS + SAN,
    "repo": EXEC_SRC,
    "umbrella": [],
    "shim": ["shim/ginkgo", "shim/kokkos", "shim/sundials"],
    "libs": ["-lpthread"],
}
GROUPS["petsc"] = {
    "flags": ["-std=c++20", "-O1", "-g1", "-w", "-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=1"] + BACKEND_DEFS + SAN,
    "repo": EXEC_SRC,
    "umbrella": [],
    "shim": ["shim/petsc", "shim/kokkos", "shim/sundials"],
    "libs": ["-lpthread"],
}
BACKEND_SRC = EXEC_SRC + ["src/core/dictionary.cpp", "src/core/demangle.cpp", "src/core/tokenList.cpp", "src/linearAlgebra/utilities.cpp"]
PROPS["C34"] = {
    "targets": [dict(group="ginkgo", sources=["num/ginkgo.cpp"], repo=BACKEND_SRC + ["src/linearAlgebra/ginkgo.cpp"])],
    "rule": "Generated dictionaries (six types of entry at the ends of their ranges, sub-dictionaries, entries the configuration cannot hold) and histories of making, copying and "
    "using solvers with generated systems, all of it taken by a recording stand-in.",
}
PROPS["C35"] = {
    "targets": [dict(group="petsc", sources=["num/petsc.cpp"], repo=BACKEND_SRC)],
    "rule": "Generated systems (sparse, dense, rows without entries or in any order, up to nearly a million rows) given to solvers and copies of them, taken by a recording stand-in.",
}


def spaces(source, scale=0.2, **kw):
    # the same with memory of the device's own
    return dict(dict(group="num", flags=["-DSTANDIN_SPACES"]), sources=["num/" + source], name=source + " with the device's own memory", scale=scale, again=True, **kw)


TIME_SRC = ["src/timeIntegration/timeIntegration.cpp", "src/timeIntegration/rungeKutta.cpp"]
PROPS["C36"] = {
    "targets": [
        spaces("laplacian.cpp", repo=FV_SRC),
        spaces("div.cpp", repo=FV_SRC),
        spaces("implicit.cpp", repo=FV_SRC),
        spaces("expression.cpp", repo=FV_SRC),
        spaces("time.cpp", repo=FV_SRC + TIME_SRC),
        spaces("assembly.cpp", repo=FV_SRC + TIME_SRC),
        spaces("registration.cpp", repo=FV_SRC),
        spaces("interpolation.cpp", repo=INTERP_SRC),
        spaces("boundary.cpp", repo=INTERP_SRC),
        spaces("courant.cpp", repo=FV_SRC + [FVCC + "auxiliary/coNum.cpp"]),
        spaces("transport.cpp", scale=0.1, repo=FV_SRC + TIME_SRC + [FVCC + "auxiliary/coNum.cpp"]),
        spaces("stencil.cpp", repo=PATTERN_SRC + [FVCC + "stencil/cellToFaceStencil.cpp"]),
        spaces("linsys.cpp", repo=PATTERN_SRC),
        spaces("mesh.cpp", repo=MESH_SRC),
        spaces("segments.cpp"),
        spaces("field.cpp"),
        spaces("domain.cpp", repo=MESH_SRC),
        spaces("parallel.cpp"),
        spaces("communicator.cpp", group="mpi", repo=MPI_SRC + ["src/mesh/unstructured/communicator.cpp"]),
    ],
    "rule": "The harnesses of C12, C13, C15 to C28, C30 and C33 with a device that has memory of its own: generated meshes, fields, systems, equations and histories on "
    "the three executors.",
}


def option(source, flag, what, group="num", scale=0.15, **kw):
    shim = ["shim/cpptrace"] if flag == "-DNF_DEBUG" else []
    # the harness again, the project built with one of its options
    return dict(group=group, flags=[flag], option=flag, shim=shim, sources=["num/" + source], name=source + what, scale=scale, again=True, **kw)


OPTION_SOURCES = [
    ("laplacian.cpp", FV_SRC),
    ("div.cpp", FV_SRC),
    ("implicit.cpp", FV_SRC),
    ("expression.cpp", FV_SRC),
    ("time.cpp", FV_SRC + TIME_SRC),
    ("assembly.cpp", FV_SRC + TIME_SRC),
    ("registration.cpp", FV_SRC),
    ("interpolation.cpp", INTERP_SRC),
    ("boundary.cpp", INTERP_SRC),
    ("courant.cpp", FV_SRC + [FVCC + "auxiliary/coNum.cpp"]),
    ("stencil.cpp", PATTERN_SRC + [FVCC + "stencil/cellToFaceStencil.cpp"]),
    ("linsys.cpp", PATTERN_SRC),
    ("mesh.cpp", MESH_SRC),
    ("segments.cpp", EXEC_SRC),
    ("field.cpp", EXEC_SRC),
    ("domain.cpp", MESH_SRC),
    ("parallel.cpp", EXEC_SRC),
    ("vector.cpp", EXEC_SRC),
    ("transport.cpp", FV_SRC + TIME_SRC + [FVCC + "auxiliary/coNum.cpp"]),
]
PROPS["C37"] = {
    "targets": [option(s, "-DNEOFOAM_DP_LABEL=1", ", 64-bit labels", repo=r) for s, r in OPTION_SOURCES]
    + [option("communicator.cpp", "-DNEOFOAM_DP_LABEL=1", ", 64-bit labels", group="mpi", repo=MPI_SRC + ["src/mesh/unstructured/communicator.cpp"])],
    "rule": "The harnesses of C12 to C28, C30 and C33, built with 64-bit labels.",
}
PROPS["C38"] = {
    "targets": [option(s, "-DNF_DEBUG", ", NF_DEBUG", repo=r) for s, r in OPTION_SOURCES]
    + [option("communicator.cpp", "-DNF_DEBUG", ", NF_DEBUG", group="mpi", repo=MPI_SRC + ["src/mesh/unstructured/communicator.cpp"]),
       option("duplex.cpp", "-DNF_DEBUG", ", NF_DEBUG", group="mpi", repo=MPI_SRC),
       option("allreduce.cpp", "-DNF_DEBUG", ", NF_DEBUG", group="mpi", repo=MPI_SRC)],
    "rule": "The harnesses of C12 to C28, C30 and C33, with the checks of the debug build.",
}
PROPS["C39"] = {
    "targets": [num("transport.cpp", repo=FV_SRC + TIME_SRC + [FVCC + "auxiliary/coNum.cpp"])],
    "rule": "Generated simulations of convection and diffusion (meshes, fluxes with and without divergence, diffusion coefficients, sources, boundary conditions, "
    "time schemes, steps) and their variants: renumbered, superposed, in other units, stopped and continued, on other executors.",
}
PROPS["C40"] = {
    "targets": [num("sunvector.cpp", repo=FV_SRC)],
    "rule": "Histories of making, writing, copying, moving, restarting and dropping vectors of generated sizes on the three executors, all of them read after each step.",
}
PROPS["C41"] = {
    "targets": [option(s, "-UNEOFOAM_DP_SCALAR", ", single precision", repo=r) for s, r in OPTION_SOURCES if s != "transport.cpp"]
    + [option("communicator.cpp", "-UNEOFOAM_DP_SCALAR", ", single precision", group="mpi", repo=MPI_SRC + ["src/mesh/unstructured/communicator.cpp"]),
       option("allreduce.cpp", "-UNEOFOAM_DP_SCALAR", ", single precision", group="mpi", repo=MPI_SRC)],
    "rule": "The harnesses of C12 to C28, C30, C31 and C33, built with scalars of single precision.",
}
