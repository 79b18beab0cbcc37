ALLB="every kind of basis the library offers (leaf, product, restricted, periodic, transformed), over grids of any element type, numbering and orientation"
P("P01","Binding forgets the past",
 "After a local view or local function has been bound to an element, everything it shows (sizes, indices, shape functions, values, derivatives) is determined by the basis or function and that element alone. What it was bound to before, how often, what other objects are bound to, and binds that failed in between make no difference. It reports to be bound exactly between a successful bind and the next unbind.",
 ["histories","inputs","fault_sequences"],"all histories of bind, unbind, rebind, failing bind on any number of objects; "+ALLB,
 "Tests bind element after element in grid order once, mostly on uniform grids; stale state after an arbitrary order of element types, interleaved objects or failed binds is not visited.",
 [B+"defaultlocalview.hh",B+"nodes.hh",B+"subspacelocalview.hh",B+"transformedfiniteelementmixin.hh",GF+"discreteglobalbasisfunction.hh",C+"localfunction.hh"],
 [("tree and index cache are rebuilt by bind",B+"defaultlocalview.hh: bind"),("finite elements are re-bound per element",B+"cubichermitebasis.hh, argyrisbasis.hh, morleybasis.hh, globalvaluedlocalfiniteelement.hh: bind"),("coefficients are loaded per bind",GF+"discreteglobalbasisfunction.hh: LocalFunctionBase::bind")],
 ["local view: size, indices, node sizes, shape function values","local function: bound(), value, localContext()"])
P("P02","Copies are independent of their originals",
 "A copy of a basis, function, local view or local function shows exactly what the original showed when it was copied, whether made by construction or by assignment and whether bound or not. From then on binding, unbinding, assigning or destroying either of them leaves the other unchanged. Moving hands over the state, and self-assignment changes nothing.",
 ["histories","inputs","fault_sequences"],"all histories of copy, move, assignment, bind, unbind and destruction over any number of objects; "+ALLB,
 "One test copies a local function in one state; aliasing between trees, cached finite elements and back pointers shows only after particular later operations on the other object.",
 [B+"defaultlocalview.hh",B+"subspacelocalview.hh",B+"transformedfiniteelementmixin.hh",GF+"discreteglobalbasisfunction.hh",C+"typeerasure.hh"],
 [("deep copy of the tree, whose nodes point into it",B+"defaultlocalview.hh: copy constructor and assignment"),("shared immutable data, per-object mutable data",GF+"discreteglobalbasisfunction.hh: Data / LocalFunctionBase")],
 ["every observation of P01 on both objects after every step"])
P("P04","Updating a basis equals rebuilding it",
 "After the grid has changed and a basis has been updated with the grid view, the basis, and local views and functions made from it, show exactly what a basis newly built on that view shows. This holds for any sequence of grid changes, for updates of copies, for repeated updates, and for an update that is retried after it failed.",
 ["histories","inputs","fault_sequences"],"all sequences of grid changes and updates (to the changed or to another view); every updatable basis",
 "Existing tests never change a grid under a basis, or do so once; tables that are not refreshed show only for particular changes (types appearing, counts shrinking).",
 [B+"defaultglobalbasis.hh",B+"leafprebasismappermixin.hh",B+"lagrangebasis.hh",B+"lagrangedgbasis.hh",B+"taylorhoodbasis.hh",B+"powerbasis.hh",B+"compositebasis.hh",B+"morleybasis.hh",B+"raviartthomasbasis.hh",B+"nedelecbasis.hh",B+"restrictedbasis.hh"],
 [("update forwards the view to every pre-basis and re-initialises index offsets",B+"defaultglobalbasis.hh: update"),("orientation tables are recomputed",B+"raviartthomasbasis.hh, nedelecbasis.hh, argyrisbasis.hh, morleybasis.hh: update")],
 ["all sizes, indices and shape functions after update"])
P("P05","Global numbering is complete, consistent and collision-free",
 "On every grid, the local degrees of freedom of an element are numbered 0..n-1 without gaps, and each has a global multi-index that lies within the sizes the basis reports and is a proper leaf of the index tree. Two elements give a degree of freedom on a shared grid entity the same index, different degrees of freedom have different indices, every index in the range is used, and total and maximal sizes and the container description agree with that.",
 ["inputs","configurations","histories"],"all grids (mixed types, any numbering and orientation), index merging strategies, nestings and element kinds, before and after updates",
 "Tests run the basis check on a few structured grids per basis and most of them are not run here; index collisions and unused indices depend on element type mixes, orientations and nesting.",
 [B+"lagrangebasis.hh",B+"leafprebasismappermixin.hh",B+"powerbasis.hh",B+"compositebasis.hh",B+"dynamicpowerbasis.hh",B+"taylorhoodbasis.hh",B+"brezzidouglasmarinibasis.hh",B+"containerdescriptors.hh",B+"transformedindexbasis.hh",C+"multiindex.hh"],
 [("per-geometry-type offsets and orientation of edge DOFs",B+"lagrangebasis.hh: initializeIndices, indices"),("merging of child indices",B+"powerbasis.hh, compositebasis.hh, dynamicpowerbasis.hh"),("DOF layout per geometry type",B+"leafprebasismappermixin.hh and the layouts of its users")],
 ["size(prefix), dimension, local indices, containerDescriptor"])
P("P06","Interpolation writes exactly the selected coefficients, correctly",
 "Interpolating a function sets every coefficient that belongs to the (sub)space and is selected by the mask to the value determined by the function, and leaves all others untouched, regardless of the previous contents of the vector. A function that lies in the space gets back exactly its own coefficients. A failing interpolation leaves each coefficient either old or correct, and retrying or repeating it gives the same result as a single undisturbed run.",
 ["inputs","histories","fault_sequences"],"all functions, masks, previous contents, failure points, repetitions and grids; every basis that supports interpolation, whole or by component",
 "Tests interpolate a few polynomials into a zero vector once; masks, failures in user callbacks, and leftovers in the target are not explored.",
 [B+"interpolate.hh",B+"hierarchicnodetorangemap.hh",B+"subspacebasis.hh",B+"functionaldescriptor.hh",B+"globalvaluedlocalfiniteelement.hh",B+"transformedfiniteelementmixin.hh"],
 [("per-element local interpolation into a masked vector",B+"interpolate.hh: interpolate"),("node to range component map",B+"hierarchicnodetorangemap.hh")],
 ["the coefficient vector after each call"])
P("P07","Type-erased wrappers are values",
 "A type-erased function, local function or grid function, and the storage beneath it, behaves like the object it was made from, whatever this object's type, size and alignment: it returns the same values, derivatives, contexts and bound states. Copies are equal and independent, moving and swapping hand over the content, assigning replaces it and releases the old one, self-assignment and self-swap change nothing, and an empty wrapper stays empty. Every content is destroyed exactly once, at an address where it was constructed and to which it is aligned. When copying a content fails, the wrapper keeps the value it had.",
 ["histories","inputs","fault_sequences"],"all histories of construction, copy, move, assignment, swap, bind, derivation and destruction over any number of wrappers; all sizes and alignments of contents around the small-buffer limit; every point of failure",
 "A few tests copy one small and one large object without failures; lifetimes of contents across mixed sequences, self-assignment, over-alignment and throwing copies are not visited.",
 [C+"polymorphicsmallobject.hh",C+"typeerasure.hh",C+"differentiablefunction.hh",C+"differentiablefunction_imp.hh",C+"differentiablefunctionfromcallables.hh",C+"localfunction.hh",C+"localfunction_imp.hh",C+"interfaces.hh",GF+"gridfunction.hh",GF+"gridfunction_imp.hh"],
 [("buffer or heap, chosen by size and alignment",C+"polymorphicsmallobject.hh: constructor"),("clone and move into a buffer",C+"typeerasure.hh: TypeErasureWrapperImplementation"),("destroy, then take over",C+"polymorphicsmallobject.hh: operator=")],
 ["operator(), derivative, bind, bound, localContext, operator bool of wrappers; construction and destruction of contents; heap balance"])
P("P08","Failures are contained and can be retried",
 "If an allocation, a grid query, a user callback or a vector access fails by throwing inside any operation, the exception reaches the caller unchanged, nothing crashes, no memory is lost, and objects not taking part are unchanged. The operation can simply be repeated and then gives the same result as if nothing had failed. Objects that took part can be destroyed, re-assigned or bound again.",
 ["fault_sequences","histories","crash_points"],"every failure point within every operation on bases, functions, local views and local functions, any sequence of failing operations",
 "No test injects failures.",
 [B+"defaultlocalview.hh",B+"defaultglobalbasis.hh",GF+"discreteglobalbasisfunction.hh",C+"polymorphicsmallobject.hh",C+"typeerasure.hh"],
 [("RAII throughout; bind may leave a partially bound object that is fixed by the next bind",B+"defaultlocalview.hh: bind"),("copies are built before the old object is released",C+"polymorphicsmallobject.hh")],
 ["exceptions at the call, heap balance, all observations after the failure"])
P("P09","Objects own what they need to stay usable",
 "An object stays fully usable after the objects it was created from are destroyed or moved, wherever the interface takes or hands out values: bases keep their pre-basis, functions keep bases and coefficients passed as values, local functions of discrete functions keep their data, and type-erased wrappers keep their content. Moving or replacing a basis does not disturb copies made before.",
 ["histories","inputs"],"all orders of destruction, move and reuse of bases, functions, wrappers and the objects made from them",
 "Tests keep everything alive until the end of the scope; dangling references show only when the source is gone and its memory is reused.",
 [B+"defaultglobalbasis.hh",GF+"discreteglobalbasisfunction.hh",GF+"gridviewfunction.hh",C+"typeerasure.hh",B+"subspacebasis.hh",B+"bsplinebasis.hh"],
 [("bases hold the pre-basis by value, functions hold bases and vectors in shared data",GF+"discreteglobalbasisfunction.hh: Data"),("factories capture by value",B+"*basis.hh: BasisFactory")],
 ["all observations after the sources are gone, memory checker"])
P("P10","Vector containers fit their basis",
 "A vector created for a basis, or resized to it, has for every index prefix exactly the size the basis reports, so that each global index addresses its own distinct entry. This holds for every nesting of containers, whatever size the vector had before, after every change of the basis, and when resizing is retried after it failed. Values written through indices are read back unchanged, and assigning a number reaches every entry.",
 ["inputs","histories","configurations","fault_sequences"],"all bases with nested and flat indices, container types, previous sizes, grid changes and failing allocations",
 "Tests resize one empty vector once for a few bases.",
 [K+"istlvectorbackend.hh",K+"istlvectorfactory.hh",K+"containerfactory.hh",C+"indexaccess.hh",B+"containerdescriptors.hh"],
 [("recursive resize following size(prefix)",K+"istlvectorbackend.hh: resize"),("container types derived from the container description",K+"istlvectorfactory.hh, containerfactory.hh"),("multi-index access",C+"indexaccess.hh")],
 ["sizes of the container at all levels, entries by multi-index"])
P("P11","Discrete functions take the values of their coefficients",
 "On every element, the value of a discrete function is the sum of its coefficients times the shape functions of that element, each component taken from the matching part of the space, and its derivative is the corresponding sum of shape function gradients in world coordinates. Evaluating at a world coordinate gives the value from the element containing it. Current coefficients are used after each bind, also for vector-valued coefficients, sub-spaces, type-erased wrappers and compositions.",
 ["inputs","histories","configurations"],"all bases, coefficient vectors, elements, points, bind histories and coefficient changes",
 "Tests compare a few smooth functions up to a tolerance on uniform affine grids.",
 [GF+"discreteglobalbasisfunction.hh",GF+"composedgridfunction.hh",GF+"gridviewfunction.hh",B+"hierarchicnodetorangemap.hh",B+"flatvectorview.hh",GF+"localderivativetraits.hh"],
 [("tree traversal summing shape functions",GF+"discreteglobalbasisfunction.hh: LocalFunction::operator()"),("element search for world coordinates",GF+"discreteglobalbasisfunction.hh: operator()")],
 ["f(x), localFunction(f)(x), derivative(...)"])
P("P12","Functions of a space are as continuous as the space promises",
 "Across every interior face, functions of continuous Lagrange-type spaces are continuous, functions of H(div) spaces have continuous normal and functions of H(curl) spaces continuous tangential components, C1 and Hermite elements match values and derivatives where they promise to, and nonconforming elements match in their face functionals. For Raviart-Thomas spaces of order one and higher and Brezzi-Douglas-Marini spaces this is promised on consistently oriented grids; for all others on grids of any numbering and orientation, also after updates.",
 ["inputs","configurations","histories"],"all grids (mixed types, numbering, orientation, jittered vertices), coefficient vectors, updates",
 "Continuity checks in the tests run on structured or few grids with one numbering; sign and permutation errors depend on how neighbours number a shared face.",
 [B+"lagrangebasis.hh",B+"raviartthomasbasis.hh",B+"brezzidouglasmarinibasis.hh",B+"nedelecbasis.hh",B+"argyrisbasis.hh",B+"cubichermitebasis.hh",B+"morleybasis.hh",B+"rannacherturekbasis.hh",B+"globalvaluedlocalfiniteelement.hh"],
 [("orientation bits per element",B+"raviartthomasbasis.hh, nedelecbasis.hh: update"),("edge and face DOF permutation by global vertex order",B+"lagrangebasis.hh: indices"),("Piola and derivative transformations",B+"globalvaluedlocalfiniteelement.hh, transformedfiniteelementmixin.hh")],
 ["traces of discrete functions on both sides of interior faces"])
P("P13","Results do not depend on memory contents",
 "Any sequence of operations gives bit-identical observations whatever the contents of uninitialised, released or unrelated memory are. No operation lets a value it has not written before influence a size, an index, a shape function or a value.",
 ["configurations","histories"],"all histories of operations; all contents of fresh heap memory, released memory and unused stack",
 "A test run has one memory image, in which fresh memory is mostly zero.",
 [B+"defaultlocalview.hh",B+"nodes.hh",B+"lagrangebasis.hh",B+"dynamicpowerbasis.hh",GF+"discreteglobalbasisfunction.hh",B+"transformedfiniteelementmixin.hh",C+"polymorphicsmallobject.hh"],
 [("members are initialised by constructors or by bind before use","all of the above")],
 ["complete observation logs of two runs with different memory contents"])
P("P03","Threads with their own local objects may share bases and functions",
 "Threads that each work with local views, local functions, copies, vectors and interpolations of their own may share the basis, the grid functions and the prototypes these are made from, as long as nobody changes them: constant operations on a shared object write nothing another thread can see, two objects made or copied from the same source share no mutable state, and every thread obtains what it would obtain alone.",
 ["schedules","inputs","histories"],"all interleavings of threads using distinct local objects made from shared constant bases, functions and prototypes, on all grids and bases",
 "No test starts a thread; a lazily filled cache, a static scratch object or a buffer shared by copies passes every sequential test.",
 [B+"defaultglobalbasis.hh",B+"defaultlocalview.hh",B+"interpolate.hh",GF+"discreteglobalbasisfunction.hh",C+"polymorphicsmallobject.hh",C+"functionconcepts.hh"],
 [("const size(), dimension(), localView(), preBasis(); nodes owned by each local view",B+"defaultglobalbasis.hh, "+B+"defaultlocalview.hh"),("evaluation buffers owned by each local function, shared data constant",GF+"discreteglobalbasisfunction.hh")],
 ["memory accesses of the threads (ordered by happens-before)","values, indices, sizes and coefficients each thread obtains"])
P("P17","Shape functions are those the space promises, with their true derivatives",
 "On every element a bound leaf offers as many shape functions as it has degrees of freedom, and they are linearly independent. The Jacobians, Hessians and partial derivatives reported for them are the derivatives of their values (for vector-valued elements on affine geometries). Together they span all polynomials of the order the space is built for. This holds on every grid and element, for run-time orders, for every orientation, and after updates.",
 ["inputs","configurations","histories"],"all bases, orders, grids, elements, orientations and evaluation points; any history of building, copying and updating",
 "Tests evaluate the shape functions of some bases at a few points and check derivatives only for some of them on one or two grids.",
 [B+"lagrangebasis.hh",B+"lagrangedgbasis.hh",B+"bsplinebasis.hh",B+"cubichermitebasis.hh",B+"argyrisbasis.hh",B+"morleybasis.hh",B+"globalvaluedlocalfiniteelement.hh",B+"transformedfiniteelementmixin.hh",B+"raviartthomasbasis.hh",B+"brezzidouglasmarinibasis.hh",B+"nedelecbasis.hh",B+"hierarchicallagrangewithelementbubblebasis.hh",B+"refinedlagrangebasis.hh",B+"rannacherturekbasis.hh"],
 [("values, Jacobians, Hessians and partial derivatives of a local basis",B+"bsplinebasis.hh, cubichermitebasis.hh, argyrisbasis.hh, morleybasis.hh, globalvaluedlocalfiniteelement.hh, transformedfiniteelementmixin.hh"),("choice of the finite element by geometry type, order and orientation",B+"lagrangebasis.hh, raviartthomasbasis.hh, nedelecbasis.hh")],
 ["finiteElement().localBasis(): evaluateFunction, evaluateJacobian, evaluateHessian, partial, evaluate, size, order"])
P("P15","Boundary and subentity traversals visit exactly the right degrees of freedom",
 "Looping over the boundary degrees of freedom visits exactly those attached to boundary faces or to entities contained in them, in each of its forms. The degrees of freedom reported for an element's subentity or intersection are exactly those attached to it or to a part of it, each once, independently of what was queried before.",
 ["inputs","histories"],"all grids, bases, sub-spaces, elements and subentities, any order of queries with one object",
 "Tests compare with boundary values on one or two uniform grids.",
 [B+"boundarydofs.hh",B+"subentitydofs.hh"],
 [("containment bits per subentity",B+"subentitydofs.hh: bind"),("loop over intersections without neighbour",B+"boundarydofs.hh")],
 ["the sequence of visited indices"])
P("P14","Functions keep their values on coarser and finer grid views",
 "A function given on one view of a hierarchic grid and wrapped for a coarser or finer view of the same grid has on every element, at every point, the value and the derivative that the original has on the element of its own view containing this point. This holds for any refinement, for any order of binding, for copies, and for functions held by value, by reference or type-erased. The embedding of an element into its ancestor maps coordinates there and back, names the right ancestor, and keeps doing so when copied or bound to temporaries.",
 ["inputs","histories","configurations","fault_sequences"],"all refinement hierarchies (mixed element types, any depth), pairs of views, points, bind and copy histories, failing grid queries",
 "Two tests use uniformly refined grids with one function bound element after element; other hierarchies, element types, copies and derivatives are not visited.",
 [GF+"coarsefunctiononfinegridview.hh",GF+"finefunctiononcoarsegridview.hh",C+"geometryinancestor.hh"],
 [("chain of geometryInFather to the first element contained in the coarse view",C+"geometryinancestor.hh: bind, global, local"),("descent into the child containing (or closest to) the point",GF+"finefunctiononcoarsegridview.hh: evaluateInDescendent")],
 ["local functions and derivatives on the target view, f(x), GeometryInAncestor::coarseElement(), global(), local()"])
P("P16","Grid functions compute what they are composed of",
 "A function made from a callable has on every element the callable's value at the world coordinate, and its derivatives are those of the callable. A composed function has the outer function's value at the values of the inner ones. The face normal function gives the outer unit normal of the closest face. Wrapping any of these in a type-erased function or local function changes no value, derivative, local context or bound state, whatever history of binding, copying and re-assigning came before.",
 ["inputs","histories","fault_sequences"],"all callables, compositions, grids, elements, points, histories of bind, copy, assignment and derivation, failing callables",
 "Tests integrate a few smooth functions on one or two uniform grids with every local function bound in grid order.",
 [GF+"analyticgridviewfunction.hh",GF+"composedgridfunction.hh",GF+"facenormalgridfunction.hh",GF+"gridfunction.hh",GF+"gridviewfunction.hh",GF+"gridfunction_imp.hh",C+"localfunction.hh",C+"localfunction_imp.hh",C+"differentiablefunction.hh"],
 [("local function evaluates the callable at geometry.global(x)",GF+"analyticgridviewfunction.hh: LocalAnalyticGridViewFunction"),("virtual wrappers forward bind, bound, derivative and localContext",C+"localfunction_imp.hh")],
 ["f(x), localFunction(f)(x), derivative(f), localContext(), bound()"])
P("P18","What is not supported is refused, and refusing changes nothing",
 "A request a space, function or vector does not support is refused with an exception instead of being answered wrongly: building a basis on, or updating it to, a grid with element types the space is not implemented for, run-time orders beyond the supported ones, partial derivatives of too high an order, derivatives of functions that have none, resizing a vector that cannot fit the basis, and indices of entities outside of a sub-domain. A request that is supported is never refused. A refused request leaves the objects as they were, and they can be used on.",
 ["inputs","histories","fault_sequences"],"all spaces with restrictions, grids that gain and lose element types between updates, orders, multi-indices of partial derivatives, vectors of other shapes, failures injected into the same calls",
 "Tests exercise supported requests only.",
 [B+"lagrangebasis.hh",B+"raviartthomasbasis.hh",B+"brezzidouglasmarinibasis.hh",B+"nedelecbasis.hh",B+"rannacherturekbasis.hh",B+"hierarchicallagrangebasis.hh",B+"hierarchicallagrangewithelementbubblebasis.hh",B+"refinedlagrangebasis.hh",B+"cubichermitebasis.hh",B+"morleybasis.hh",B+"argyrisbasis.hh","dune/functions/backends/istlvectorbackend.hh",C+"subdomain.hh",C+"differentiablefunction_imp.hh",GF+"discreteglobalbasisfunction.hh",GF+"composedgridfunction.hh",GF+"facenormalgridfunction.hh"],
 [("pre-bases check the element types when built and updated",B+"raviartthomasbasis.hh: checkGridView"),("backend refuses entries it cannot resize","dune/functions/backends/istlvectorbackend.hh: resize"),("entities that are not part of a sub-domain have no index",C+"subdomain.hh: SubDomainIndexSet::index")],
 ["exceptions of makeBasis(), update(), partial(), derivative(), resize(), index()"])
P("P90","Polynomials, monomials and trigonometric functions follow their formulas",
 "Analytic functions return the values, and their derivatives the exact derivatives, of the formula they stand for, at every argument.",
 ["inputs"],"all coefficients and arguments","Tests sample a few arguments.",
 ["dune/functions/analyticfunctions/polynomial.hh","dune/functions/analyticfunctions/monomialset.hh","dune/functions/analyticfunctions/trigonometricfunction.hh"],[("closed formulas","the same files")],["f(x)"],
 na="Pure functions of their arguments: no state, schedule, time, I/O, callback or allocation for a simulator to vary; sampling arguments would be plain random testing.")
P("P91","Fixed-capacity sequences and multi-indices hold what was put into them",
 "Within its capacity a fixed-capacity deque or overflow array holds exactly the entries pushed, in order: after every sequence of pushing and popping at either end, clearing, shrinking, writing, copying, moving and assigning, its size, entries, first and last entry, iteration, equality, hash value, base array and output are those of a sequence with the same history, in whatever memory it was created. An entry whose assignment fails leaves a container that can be cleared and used on. Static multi-indices behave like arrays of their digits.",
 ["histories","fault_sequences","configurations"],"all operation sequences within capacity, trivial and non-trivial entries, failing entry copies, arbitrary previous memory contents",
 "No test exercises these containers; errors show only when operations at both ends are mixed or memory is not zero.",
 ["dune/functions/common/reserveddeque.hh","dune/functions/common/overflowarray.hh","dune/functions/common/multiindex.hh"],[("ring buffer with first position and size","dune/functions/common/reserveddeque.hh"),("base array continued by an overflow buffer","dune/functions/common/overflowarray.hh")],["size, entries, iteration, comparison, hash, output"])
P("P92","The Python bindings are a faithful and memory-safe view of the C++ objects",
 "Bases, sub-spaces, local views, trees, finite elements, functions and local functions used from Python give the sizes, indices, shape functions and values of the C++ objects they stand for, after any history of binding, unbinding, updating and refining; interpolation fills exactly the coefficients of the (sub-)space in arrays of any memory layout, or refuses the array and leaves it untouched, and passes exceptions of the user's function on. Whatever is handed out stays usable for as long as it is referenced, in whatever order the objects it came from are dropped, and nothing stays alive after the last reference is gone.",
 ["histories","fault_sequences","configurations"],"all function spaces of the Python package, grids, sequences of operations, dropped references and garbage collections, failing or re-entrant callbacks, unsuitable arrays and arguments",
 "Python tests run one straight script per class in which every object stays referenced to the end, so that dangling references and leaks cannot show.",
 ["python/dune/functions/__init__.py","python/dune/functions/globalbasis.py","python/dune/functions/subspacebasis.py","python/dune/functions/tree.py","dune/python/functions/globalbasis.hh","dune/python/functions/subspacebasis.hh","dune/python/functions/discretefunction.hh","dune/python/functions/tree.hh","dune/python/functions/interpolate.hh","dune/python/functions/hierarchicvectorwrapper.hh"],
 [("keep_alive and return value policies of the registered methods","dune/python/functions"),("local view keeps the bound element","dune/python/functions/globalbasis.hh: LocalViewWrapper"),("type names of pre-bases built from the tree description","python/dune/functions/globalbasis.py")],
 ["attributes and calls of the Python objects, weak references, the address sanitizer"])
