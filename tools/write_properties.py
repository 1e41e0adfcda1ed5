"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, **kw):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if "state" in kw:
        kw["state"] = [{"name": x, "where": files[0]} for x in kw["state"]]
    if "observe_at" in kw:
        kw["observe_at"] = [kw["observe_at"]]
    a.update(kw)
    over = [{"input": "inputs", "history": "histories", "schedule": "schedules"}[x] for x in over]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


G = ["include/gals/utilities/grid.h", "src/cpu/grid.cc"]
A = ["include/gals/utilities/array.h", "src/cpu/array.cc"]
p("C01", "Every grid node has its own storage slot, and every accessor agrees",
  "On a grid of any dimension, shape and ghost-layer count, numbering the nodes (interior and ghost) is a one-to-one map onto the storage slots 0..size-1. Asking by three indices or by a node triple gives the same slot, and all ways of asking for a node's position give the same position. The grid reports exactly the dimension, cell counts, total cell count, ghost-layer count, axis mask and size it was made with.",
  ["input"], "every dimension 1-3, every cell count per axis, every padding, every node",
  "The tests probe a few nodes of one grid per dimension with the default padding; a wrong stride only shows on grids whose extents differ per axis, or with another padding.",
  G, "index arithmetic over masked, padded extents", observe_at="index(), operator(), x(), size(), numCells(), totalCells()")
p("C02", "Grid geometry: nodes are the cell centres of the requested box",
  "After generating a grid over any box, the interior nodes are the centres of the equal cells that tile the box and the ghost nodes continue that lattice outward with the same spacing, for every ghost-layer count and for every regeneration. The reported spacing and its reciprocal are those of the box, and coordinates of inactive axes are zero.",
  ["input", "history"], "every box, shape and padding; every sequence of changing the padding and generating again",
  "The tests use one box and padding 1 and check a handful of nodes; regenerating with another box or padding is not tried.",
  G, "generate(), setPadding()", observe_at="node positions, dX(), oneOverDX()")
p("C03", "A point is located in the cell that encloses it",
  "For every point inside the ghosted domain the reported base node is the node at or directly below the point on every active axis, in ghost regions (negative indices) as well as in the interior. Points further than rounding from a node are never attributed to a neighbouring cell.",
  ["input"], "every grid, every point in the ghosted domain",
  "The tests locate a few points inside the interior; truncation instead of flooring, or a wrong origin, shows only left of the first node or on asymmetric boxes.",
  G, "baseNodeId()", observe_at="baseNodeId() and every interpolation built on it")
p("C04", "Arrays are independent values, zero when created, every element separate",
  "A new array over a grid holds zeros at every node, ghosts included. Writing one component of one node through any access path changes exactly that component, is seen through every other path, and changes no other node, array or copy; assignment and copying, also between arrays of different grids of one shape, give equal and thereafter independent contents.",
  ["history", "input"], "every history of creations, writes, copies, assignments and destructions of arrays of every element type over every grid",
  "The tests write a few elements of one array; aliasing between copies or between nodes needs a longer history and a full read-back to be seen.",
  A + ["include/gals/utilities/vec_n.h"], "indexing, storage ownership, assignment", observe_at="contents of all live arrays after each operation")
p("C05", "Second-order gradient of a scalar field, everywhere in the interior",
  "The central-difference gradient of a scalar field is, at every interior node and along every active axis, the difference of the two axis neighbours over twice the spacing; it uses ghost values next to the boundary. Ghost nodes and inactive components of the result, the input field and all other fields are left as they were.",
  ["input"], "every field, every grid of every dimension with at least one ghost layer",
  "The tests differentiate one smooth function on square boxes and compare within discretisation error, so swapped spacings, wrong neighbours or missed boundary nodes hide.",
  ["src/cpu/gradient/second-order-central.cc", "src/cpu/gradient.cc"], "stencil loop", observe_at="gradient field after the call")
p("C06", "Third-order gradient of a scalar field, everywhere in the interior",
  "The third-order gradient of a scalar field is, at every interior node and along every active axis, the upwind-biased difference (2 f[+1] + 3 f[0] - 6 f[-1] + f[-2]) / (6 spacing), hence exact for cubics, reading ghost values near the boundary. Ghost nodes and inactive components of the result, the input field and all other fields are left as they were.",
  ["input"], "every field, every grid of every dimension with at least two ghost layers",
  "The tests compare one smooth function within discretisation error on isotropic grids.",
  ["src/cpu/gradient/third-order.cc", "src/cpu/gradient.cc"], "stencil loop", observe_at="gradient field after the call")
p("C07", "Gradient of a vector field: each component along each axis",
  "For either difference scheme the gradient of a vector field holds in row i, column j the scheme's derivative of component i along axis j, for all pairs of active axes and at every interior node. Everything else is left as it was.",
  ["input"], "every vector field, grid and scheme",
  "The tests use a field whose off-diagonal derivatives cannot be told apart, and square cells.",
  ["src/cpu/gradient/second-order-central.cc", "src/cpu/gradient/third-order.cc", "src/cpu/gradient.cc"], "vector overload of the stencil loop",
  observe_at="velocity gradient field after the call")
p("C08", "Hermite interpolation reproduces the cubic defined by the nodal data",
  "At every point of the ghosted domain the interpolated value and gradient are those of the tensor-product cubic Hermite polynomial given by the previous level's values, gradients and mixed derivatives at the corners of the enclosing cell, in 1, 2 and 3 dimensions. In particular nodal data are reproduced, tensor cubics are interpolated exactly, and the interpolant is continuous with its gradient across cells; interpolating a whole set of points writes only the interpolation results.",
  ["input"], "every field of values, gradients and mixed derivatives, every grid and every point",
  "The tests interpolate one analytic function at a few points within a loose error; a wrong control point that multiplies a mixed derivative, or cells next to ghosts, stay within that error.",
  ["src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc", "include/gals/cpu/interpolation/hermite.h", "src/cpu/interpolate.cc"], "control points, Bernstein basis", observe_at="interpolated value and gradient")
p("C09", "Gradient limiting bends the cubic exactly when the data demand it",
  "With limiting on, every line of Hermite data keeps its cubic when the nodal gradients are consistent with the data and otherwise is replaced by the documented limited cubic (first rule that applies: left slope, right slope, both), the end values always being kept. With limiting off the result equals the plain interpolant.",
  ["input"], "every combination of end values and slopes, including ties and sign changes, in every dimension",
  "The tests run only a few combinations with limiting; branches depend on signs and order of five differences.",
  ["src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc", "include/gals/cpu/interpolation/hermite.h"], "limiter branches when computing control points", observe_at="interpolated value and gradient with limiting")
p("C10", "Linear interpolation in one dimension",
  "Linear interpolation of a one-dimensional field gives at each point the weighted mean of the two enclosing nodes' values, hence is exact for linear data, never leaves the range of those two values and reproduces nodes. It writes only the points' results.",
  ["input"], "every 1D field, grid and list of points in the ghosted domain",
  "The tests interpolate linear functions at two points.",
  ["src/cpu/interpolation/linear-1d.cc", "include/gals/cpu/interpolation/linear.h"], "weights from the enclosing cell", observe_at="interpolated array")
p("C11", "A semi-Lagrangian step carries value and gradient along the characteristic",
  "After one semi-Lagrangian step every interior node holds the previous level's Hermite interpolant at the point the node's velocity came from one time step earlier, and the gradient there multiplied by the Jacobian of that back-tracing map (from the velocity gradient). It depends only on the previous level, the velocity, its gradient and the time step; ghost nodes, velocity and previous level are left as they were.",
  ["input"], "every previous level, velocity, velocity gradient, time step and grid, as long as the back-traced points stay inside the ghosted domain",
  "The tests do one step with one velocity field; a transposed Jacobian, a wrong sign or stale data are invisible for such symmetric data.",
  ["src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/temporal.cc"], "root tracing, interpolation, gradient transport", observe_at="values and gradients after the step")
p("C12", "Step by step, a simulation stays a correct simulation",
  "Over any sequence of steps - new velocity, gradient computation, snapshot of the current level into the previous level, semi-Lagrangian step - each state follows from the one before by exactly those operations, with no memory of older states. With zero velocity and velocity gradient the level set stays as it is for ever, and a uniform velocity of whole cells per step moves it by whole cells.",
  ["history", "input"], "every sequence of the documented calls on one simulation",
  "The tests make single calls on fresh objects; state left over between calls needs sequences.",
  ["src/cpu/levelset.cc", "src/cpu/levelset-velocity.cc", "src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/gradient.cc", "src/cpu/array.cc"],
  "fields of a simulation and the calls that update them", observe_at="all fields after every call")
p("C13", "An explicit Euler step subtracts time step times velocity",
  "After one explicit Euler step every interior node holds the previous value minus the time step times the first velocity component of that node. Ghost nodes and all other fields are left as they were.",
  ["input"], "every field, velocity, time step and grid of every dimension",
  "The test makes one step with constant data, so reading the wrong node or the wrong level is invisible.",
  ["src/cpu/temporal-schemes/euler.cc", "src/cpu/temporal.cc"], "update loop", observe_at="values after the step")
p("C14", "The analytical circle is the signed distance to it",
  "Initialising a level set as a circle (sphere) gives at every interior node the distance of the given position from the given centre minus the radius: negative inside, zero on it, positive outside. An unknown shape name changes nothing, and nothing but the level-set values is ever written.",
  ["input"], "every centre, radius, set of positions and grid of every dimension",
  "The tests check a couple of nodes for one centred circle, where the coordinates are interchangeable.",
  ["src/cpu/analytical-fields/levelset.cc", "include/gals/analytical-fields/levelset.h"], "distance formula per node", observe_at="level-set values after the call")
p("C15", "The analytical rotation is a rigid rotation about its centre, gradient included",
  "The circular velocity field is, at every interior node, the rigid rotation about the given centre with angular velocity pi/3.15, counter-clockwise, with no third component and independent of time. When the analytical gradient is requested the velocity gradient is the constant matrix of that rotation at every interior node; with another scheme, or another name, it is left as it was.",
  ["input"], "every centre, set of positions, time and grid of dimension 2 and 3",
  "The tests use the origin as centre and look at one node.",
  ["src/cpu/analytical-fields/velocity.cc", "include/gals/analytical-fields/velocity.h"], "formula per node", observe_at="velocity and velocity gradient after the call")
p("C16", "Input files are read completely, each value into its own field",
  "Parsing an input file puts every value given in its general, grid, time, velocity and level-set sections into the corresponding input, whatever the order of the sections. Sections that are missing leave the inputs they would set unchanged, and parsing into one set of inputs does not affect another.",
  ["input", "history"], "every file of well-formed sections in any order, and every sequence of files parsed into several input sets",
  "The test parses one file in which many values coincide.",
  ["src/cpu/input-parser.cc", "src/cpu/input-parser", "include/gals/input-parser", "src/cpu/input-fields"], "section parsers", observe_at="input fields after parsing")
p("C17", "Vector and matrix arithmetic follows its algebraic definition",
  "Operations on 3-vectors, 3x3 matrices and n-vectors - construction, component access, comparison (within 1e-10 per component), subtraction, componentwise and scalar products, quotients, magnitude, smallest component, product of a vector with a matrix, assignment - give the mathematically defined result in every component and leave their operands unchanged. This includes ties, zeros, negative and mixed-sign operands and integer vectors; a real quotient by zero is no finite number.",
  ["input"], "every pair of operands, real and integer",
  "The tests use a few operands; errors that depend on the order or equality of components are missed.",
  ["src/cpu/vec3.cc", "src/cpu/mat3.cc", "src/cpu/vec_n.cc", "include/gals/utilities/vec3.h", "include/gals/utilities/mat3.h", "include/gals/utilities/vec_n.h"],
  "operators", observe_at="results of the operators")
p("C18", "Written output is complete, ordered and placed where asked",
  "Writing a field produces one line per interior node - first index outermost, last innermost - with the node's position followed by all components of its value, to six significant digits, no ghost nodes and nothing missing. The file helper answers truthfully which files and directories exist, creates and removes exactly the directories asked for, and remembers the output root it was given.",
  ["input", "history"], "every field type over every grid; every sequence of file-helper calls",
  "The tests look at no output contents and create one directory.",
  A + ["src/cpu/file-utils.cc", "include/gals/utilities/file-utils.h"], "stream output, file helper", observe_at="bytes written, directory tree")
p("C19", "An advection run steps from start to end time and writes its velocity",
  "A run of the advection program starts at the requested start time from the requested circle, advances by the given time step (or half the smaller of the two cell sizes when told to choose) and ends with the first step that reaches the end time. Every step is: velocity at the new time, third-order gradient, snapshot, semi-Lagrangian step, all inside allocated storage. At the end the velocity field, each node's position with it, is in the output directory that the input file names, and no other file has changed.",
  ["input", "history"], "every input file whose back-traced points stay inside the ghosted grid",
  "No test runs the application at all.",
  ["applications/advection/main.cc"], "time loop", state=["simulation time", "all fields"], observe_at="guarded hook before the loop and after each step; output file", hook_needed="state of the run before the loop and after each step")
p("C20", "Simulations and arrays that live side by side do not disturb each other",
  "Whatever calls are made on one grid, simulation or array, in any interleaving with others of the same or another shape and dimension, no other one changes in any element. Each of them behaves as if it were alone.",
  ["history", "schedule"], "every interleaving of calls on several simulations in one process",
  "The tests hold one simulation at a time; hidden shared state needs two of them interleaved.",
  ["src/cpu/levelset.cc", "src/cpu/levelset-velocity.cc", "src/cpu/array.cc", "src/cpu/grid.cc", "src/cpu/interpolation", "src/cpu/temporal-schemes"],
  "absence of shared mutable state", observe_at="all fields of all simulations after every call")

R = "src/reference/"
STEP = [R + "SerialCode/AdvectionPointCalcs.h", R + "AdvectionPointCalcs.h", R + "CUDA/AdvectionPointCalcsCUDA.cu", R + "Hermite.h", R + "SerialCode/Hermite.h",
        R + "CUDA/HermiteCUDA.cu", R + "TimeSteppingMethods.h", R + "SerialCode/TimeSteppingMethods.h", R + "CUDA/TimeSteppingMethodsCUDA.cu"]
p("C21", "Reference solvers carry value and gradient along characteristics",
  "In every step of every reference program (serial, OpenMP, MPI, MPI+OpenMP, CUDA), each node's new value and gradient follow from the previous frame by the gradient-augmented method: the root is traced back with RK3 or Euler in the prescribed velocity, value and gradient are the bicubic Hermite interpolant there, and the gradient is carried by the Jacobian of the same trace (super-consistent) or by Heun's method. A root that leaves the domain along one or both axes is replaced along those axes by the update with the node's own gradient. Every node, the edges and corners included, is updated.",
  ["input", "history"], "every grid of 2x2 nodes or more, domain, time step, period, scheme combination and program; every step of a run",
  "src/reference has no tests; wrong cells, wrong stage times or a wrong boundary class change values only slightly and only at some nodes.",
  STEP, "back-trace, cell search, Hermite interpolation, boundary classes", observe_at="frames in phi.txt, psix.txt, psiy.txt")
p("C22", "Reference solvers derive the mixed derivative from the new gradients",
  "After every step of every reference program the mixed derivative printed at a node is that of the gradients printed with it: the mean of the two central differences inside, the one central difference along the edge on the edges, and the extrapolated one-sided differences of the corner cell at the four corners. It is exact for gradients of quadratic fields.",
  ["input", "history"], "every grid, domain and program; every node of every frame after the first",
  "src/reference has no tests; the four edges and four corners are separate code in three copies.",
  [R + "AdvectionPointCalcs.h", R + "SerialCode/AdvectionPointCalcs.h", R + "CUDA/AdvectionPointCalcsCUDA.cu"], "update_mixed_derivatives", observe_at="psixy.txt against psix.txt and psiy.txt")
p("C23", "Reference solvers start from the stated bump in the stated vortex",
  "The first frame of every reference program is the Gaussian bump about the configured centre and radius, with its exact gradient and mixed derivative, and every frame shows the velocity of the time-periodic single vortex at its own time and at its own node.",
  ["input"], "every domain, node count, centre, radius, period, time step and printing interval",
  "src/reference has no tests.",
  [R + "InitializeLevelSet.h", R + "VortexVelocity.h", R + "Allocation.h", R + "Constants.h", R + "SerialCode/InitializeLevelSet.h", R + "SerialCode/VortexVelocity.h",
   R + "SerialCode/Allocation.h", R + "CUDA/InitializeLevelSet.h", R + "CUDA/Allocation.h", R + "CUDA/VortexVelocityCUDA.cu"],
  "initial level set, velocity field, node positions", observe_at="first frame of all files, Velocity_x.txt and Velocity_y.txt of every frame")
p("C24", "A reference run leaves exactly its own complete output",
  "A run of a reference program makes as many steps as whole time steps fit into the final time. When it ends, the six field files hold the initial frame and one frame for every step that is a multiple of the printing interval (only the last step unless animation is asked for), in order, each with one row per grid row and one number per node. details.txt holds the eleven numbers of this run's settings. Nothing is left of what was in the directory before, whether by a longer run, by a run that was stopped, or by someone else. Printing less often does not change what is printed.",
  ["input", "history"], "every number of steps, printing option and interval, program, and previous contents of the directory, runs stopped at any point included",
  "src/reference has no tests; stale or missing frames need a particular history of the directory or an interval that does not divide the number of steps.",
  [R + "Allocation.h", R + "GALS_Advection_OpenMP.cpp", R + "GALS_Advection_MPI.cpp", R + "GALS_Advection_MPI_OpenMP.cpp", R + "SerialCode/GALS_Advection.cpp", R + "CUDA/GALS_Advection.cu"],
  "file removal, fileprint, details.txt, printing condition", observe_at="files in the working directory")
p("C25", "OpenMP and MPI reference runs equal the serial run under every schedule",
  "For the same settings the OpenMP, MPI and MPI+OpenMP programs print what the serial program prints, for every number of threads, every order in which threads run, every delay of either rank and whether or not messages are buffered. They always end, and no two threads access one datum, at least one writing it, without a barrier in between.",
  ["input", "schedule"], "every thread count and interleaving, every relative timing of the two ranks, buffered or synchronous messages, every even column count",
  "src/reference has no tests; a data race or a mismatched message shows only under some schedules.",
  [R + "AdvectionPointCalcs.h", R + "GALS_Advection_OpenMP.cpp", R + "GALS_Advection_MPI.cpp", R + "GALS_Advection_MPI_OpenMP.cpp", R + "defineMPI.h", R + "Allocation.h"],
  "OpenMP loops, message exchange between two ranks", observe_at="output files; accesses of the threads of a team; messages")
p("C26", "CUDA reference runs equal the serial run for every thread order",
  "For the same settings the CUDA program prints what the serial super-consistent RK3 program prints, for every tile size that divides the grid, in whatever order the threads of a kernel run and whatever device memory held before. No thread reads or writes outside its arrays, and no two threads of one kernel touch one datum, at least one writing it.",
  ["input", "schedule"], "every grid and tile size, every order of the threads of each kernel, every initial content of device memory",
  "There is no GPU in continuous integration and src/reference has no tests.",
  [R + "CUDA/GALS_Advection.cu", R + "CUDA/AdvectionPointCalcsCUDA.cu", R + "CUDA/Allocation.h", R + "CUDA/HermiteCUDA.cu", R + "CUDA/TimeSteppingMethodsCUDA.cu"],
  "kernels and copies between host and device", observe_at="output files; accesses of the threads of a kernel")

p("C27", "Threads with simulations of their own get what each would get alone",
  "When several threads of one process use the library at the same time, each on grids, arrays, simulations, inputs and file helpers of its own - sharing at most a generated grid that none of them changes - every thread gets, call by call, exactly what it would get alone, whatever the interleaving of their accesses. No two of them touch one datum, at least one writing it, without something that orders the two accesses: the library keeps no hidden shared state.",
  ["schedule", "history"], "every number of threads, every combination of calls, same or different shapes, one grid or several, every interleaving of single accesses",
  "The tests have one thread; a static temporary or a memo in a const method is right in every sequential history.",
  ["src/cpu", "include/gals/utilities", "include/gals/cpu", "include/gals/analytical-fields"], "absence of shared mutable state between threads", observe_at="results of every call of every thread; every access the library makes")

p("C28", "What cannot be done is refused, and everything else is done",
  "Built for use (without BUILD_TESTS), the library and its application refuse what they cannot do and do everything else. Refused are: a 3-vector from a list that has not exactly three numbers; an input file that does not exist, is no YAML, or has a section in which a value is missing, is not of its type, or lists too few numbers (cells: three, centre of the level set: exactly three); the CIRCULAR velocity on a 1D grid or about a centre of fewer than two coordinates; an overload without implementation; a run of the application without argument or with such a file. A refusal is an exception, or a message and the end of the process; no field and no file changes, and input values are the old ones or those of the file, never guesses or whatever lay in memory. All other requests are carried out in this build as in the tests' build.",
  ["input"], "every length of list, every form of every value of an input file alone and combined, every dimension, every way to start the application",
  "The tests are built with BUILD_TESTS, where a refusal is only a message and nothing ends, so they never run the code as it is delivered.",
  ["include/gals/utilities/utilities.h", "src/cpu/vec3.cc", "src/cpu/input-parser", "src/cpu/input-parser.cc", "src/cpu/analytical-fields/velocity.cc", "src/cpu/interpolation/linear-1d.cc", "include/gals/cpu/interpolation/hermite.h", "applications/advection/main.cc"],
  "refusals: GALS_ABORT, GALS_FUNCTION_NOT_IMPLEMENTED, conversions of input values", observe_at="end of the process that made the request, its message, files, input values and fields after an exception")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
