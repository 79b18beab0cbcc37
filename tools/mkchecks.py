import json
G="grids: an in-memory grid written for the simulator (arbitrary element numbering, vertex numbering, orientation, element types, remeshing), plus the real YaspGrid and OneDGrid"
S=["grid (simulated, in memory; also the real YaspGrid and OneDGrid)","coefficient vectors, masks and callables supplied by the simulated user","operator new/delete (seam for allocation failures and garbage)"]
R=["all of dune/functions reached by the operations (compiled from /repo)","dune-common, dune-geometry, dune-localfunctions, dune-typetree, dune-istl as installed"]
def c(features, engine, rule, **k):
    d=dict(features=features, engine=engine, rule=rule, real=R, stubs=S); d.update(k); return d
A=["user callbacks, grid queries, vector accesses and allocations fail only by throwing","the simulated grid satisfies the dune-grid interface it claims","a failure is injected at most once per operation"]
P={
"P01":c(["FUNC","VIEWS"],["histories.cc"],"Random histories of creating, binding, unbinding, rebinding and copying local views and local functions on a random grid, with faults; after every step each bound object is compared with a fresh object bound once (partly in a pristine process).",assumptions=A),
"P02":c(["FUNC","VIEWS"],["histories.cc"],"Random histories dominated by copy/move construction and copy/move/self assignment of bases, functions, local views and local functions in bound and unbound states, with faults; after every step every live object is compared with a fresh object in the same state.",assumptions=A),
"P03":c(["FUNC","VIEWS","INTERP"],["threads.cc"],"Two or three simulated threads, each with a random program of making, copying, assigning, binding and deriving its own local views and functions, evaluating, interpolating and querying sizes, on shared constant bases, functions and prototypes; the scheduler switches threads at random memory accesses (the library is compiled with instrumented accesses), every access is checked for data races by vector clocks, and everything seen is compared with a sequential run.",san="threads",assumptions=["threads are switched only at memory accesses and synchronisation of instrumented code (the library, its header-only dependencies and the harness; not the binary libraries)","sequentially consistent memory; races are found by happens-before, not by their effect"]),
"P04":c(["FUNC","VIEWS"],["histories.cc"],"Random histories of changing the grid and updating bases (and functions on them), with updates that fail midway and are retried; after every step bases and everything bound is compared with newly built ones.",assumptions=A),
"P05":c(["NUM"],["histories.cc"],"Random histories of building, copying and updating a basis on random grids; the numbering is checked completely after every change.",assumptions=A),
"P06":c(["INTERP"],["interp.cc"],"Random sequences of full, masked, component-wise, failing, retried and repeated interpolations into one vector on a changing grid.",assumptions=A),
"P07":c([],["erasure.cc"],"Random sequences of constructing, copying, moving, assigning, self-assigning, swapping, binding and deriving type-erased wrappers and their storage, around contents of any size and alignment that know their address and may throw when copied; every value is compared with a model after every step and each history is run three times, the last two of which have to leave the heap balanced.",cases=[],real=["dune/functions/common/{typeerasure,polymorphicsmallobject,differentiablefunction,differentiablefunctionfromcallables,localfunction}.hh and dune/functions/gridfunctions/gridfunction.hh (compiled from /repo)"],stubs=["the wrapped callables and the entity set","operator new/delete (seam for allocation failures and garbage)"],assumptions=["contents do not throw when moved","a failure is injected at most once per operation"]),
"P08":c(["FUNC","VIEWS"],["histories.cc"],"Random histories in which every second operation fails at a random allocation, grid query, callback or vector access; each history is run three times within a process and the last two have to leave the heap balanced.",assumptions=A),
"P09":c(["FUNC","VIEWS"],["histories.cc"],"Random histories that destroy and move bases, functions and temporaries while copies, local views and local functions made from them stay in use.",assumptions=A),
"P10":c(["CONT"],["interp.cc"],"Random sequences of creating, resizing, filling, copying and assigning vector containers while the grid and the basis change, with failing allocations.",assumptions=A),
"P11":c(["FUNC","EXPECT"],["histories.cc"],"Random histories of functions built from a basis and coefficients, whose values and derivatives are recomputed from shape functions, coefficients and geometry.",assumptions=A),
"P12":c(["CONF"],["histories.cc"],"Random histories of building, copying and updating a basis; on every interior face the traces of a random function of the space are compared.",assumptions=A),
"P13":c(["FUNC","VIEWS"],["histories.cc"],"Random histories run twice with different contents of fresh and released heap memory and of the unused stack; the complete logs have to agree.",options=["--env-pairs"],san="plain",assumptions=A[1:2]),
"P17":c(["SHAPE"],["histories.cc"],"Random histories of building, copying and updating a basis; on random elements the derivatives of all shape functions at random points are compared with difference quotients, and the span of the shape functions with the promised polynomials.",assumptions=A),
"P91":c([],["sequences.cc"],"Random sequences of operations on several fixed-capacity containers with trivial and with heap-owning, throwing entries, created in memory with random previous contents; all are compared with std::deque after every step; each history is run three times, the last two of which have to leave the heap balanced.",cases=[],real=["dune/functions/common/{reserveddeque,overflowarray,multiindex}.hh (compiled from /repo)"],stubs=["the entry type (knows its address, owns memory, may throw when copied)","operator new/delete (seam for allocation failures and garbage)"],assumptions=["operations stay within the capacity","entries of a grown container are unspecified until written"]),
"P92":c([],[],"Random histories of one interpreter using the bindings (grids, bases, sub-spaces, updates, local views, trees, finite elements, functions, interpolation with failing callbacks), dropping and collecting any object at any time; every result is compared with tables computed by separately compiled C++ code, accesses to released memory are reported, and after dropping everything no wrapper, callback or element may be left.",python=True,technique="deterministic simulation: seeded search over histories of a simulated Python user with injected faults, against tables computed in C++",real=["dune/python/functions and python/dune/functions of /repo, compiled with the address sanitizer into the modules the package generates","CPython 3.12, pybind11, dune-grid's Python modules (YaspGrid) as installed"],stubs=["the compilation driver of dune.generator (same generated sources, other compiler call)","the user program"],assumptions=["garbage collection happens when the history says so (automatic collection stays on)","one interpreter thread"]),
"P18":c([],["refusals.cc"],"Random histories of building spaces on, and updating them to, grids whose element types change, with faults, and random supported and unsupported requests to elements, functions, vectors and sub-domains; whether a request has to be refused follows from the documented restrictions, and everything alive is compared before and after.",assumptions=A),
"P15":c(["TRAV"],["histories.cc"],"Random histories of building, copying and updating a basis; after every change the boundary and subentity traversals are compared with an enumeration by local keys.",assumptions=A),
"P14":c(["FUNC"],["histories.cc"],"Random histories of functions carried to coarser or finer views of adaptively refined hierarchic grids (simulated mixed-type forests, OneDGrid, YaspGrid); values and derivatives are recomputed by locating the point in the other view.",cases=["transfer*"],assumptions=A),
"P16":c(["FUNC"],["histories.cc"],"Random histories of analytic, composed, type-erased and face-normal grid functions, their derivatives and local functions; every value is recomputed from the formula behind the function.",cases=["functions*"],assumptions=A),
}
P["P92"].pop("features"); P["P92"].pop("engine")
for p in P.values(): p.setdefault("quick",25); p.setdefault("thorough",900)
json.dump(P,open(__import__("os").path.join(__import__("os").path.dirname(__file__),"..","checks.json"),"w"),indent=1)
