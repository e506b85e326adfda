"""Writes /verif/properties.jsonl (the property list in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Rows of the parallel-map operators and leg weights sum to one",
 "For any field-line maps, every row of the forward and of the backward destination operator sums to one: a boundary leg is a single unit entry, and an interior leg is the quadrature-weighted, renormalised sum of the tensor-product cubic stencils of exactly those sub-samples which do not hit a boundary. Stencil weight that would fall on radial boundary cells is moved onto the nearest evolving cell, so none is lost and none stays there. For every evolving cell the weights of its legs in one direction sum to one and are the summed quadrature weights of the sub-samples in each leg.",
 ["inputs"], "every map array, grid size, guard width and set of quadrature weights",
 "The weights module has no test at all; sums to one must hold for every mapped position and every boundary pattern.",
 ["zoidberg/weights.py"],
 [("cubic interpolation weights", "weights.py catmull_rom_weights"), ("moving weight out of guard cells", "weights.py shift_weights_out_of_x_boundaries"), ("normalisation by interior fraction", "weights.py accumulate_interior_stencil"), ("leg fractions", "weights.py classify_leg_contributions, build_leg_weight_vector")],
 ["calculate_parallel_map_operators(maps)"])
prop("C02", "Cell and leg numbers are unique, gap-free and ordered",
 "For any maps, cell numbers start at zero and are assigned exactly once without gaps, in the order: all evolving cells, then the inner radial boundary, then the outer radial boundary, then parallel boundary cells; the reported total equals the number assigned and entries without a number are -1. A parallel boundary cell is numbered for a direction exactly when one of the cell's sub-samples in that direction hits a boundary. Leg numbers of each direction likewise count from zero without gaps, one for the interior part if there is one and one for the boundary part if there is one, and the reported number of legs is their count.",
 ["inputs"], "every grid shape, guard width and map content", "No test calls this code; uniqueness must hold for every boundary pattern.",
 ["zoidberg/weights.py"],
 [("cell numbering", "weights.py assign_cell_space_numbers"), ("leg numbering", "weights.py build_leg_space_metadata")],
 ["assign_cell_space_numbers", "build_leg_space_metadata"],
 [("next_cell / next_leg", "running number", "weights.py")])
prop("C03", "One rule decides which mapped points hit a radial boundary",
 "A mapped x index hits a radial boundary exactly when it is below the guard width MXG or above nx - MXG - 1, and this same rule is applied wherever it is decided: numbering, leg classification and both modes of adjusting maps. With partial boundaries allowed, every cell with any sub-sample in a boundary gets -1 as its central map and other cells are unchanged; otherwise, in cells which only partially hit, either all sub-samples (if the centre hits) or just those that hit take the centre's x and z, and all other cells are unchanged.",
 ["inputs", "configurations"], "every mapped index, grid size, guard width and both modes", "No test exercises boundary classification or map adjustment.",
 ["zoidberg/weights.py"],
 [("predicate", "weights.py hits_radial_boundary"), ("map adjustment", "weights.py modify_maps")], ["modify_maps", "calculate_parallel_map_operators"])
prop("C04", "Parallel-map operators read the right direction, plane and cells",
 "The forward operator is built only from forward maps and evaluates on the y plane j+1, the backward one only from backward maps on plane j-1, both wrapped periodically in y. The stencil of a sub-sample covers the cells at offsets -1,0,1,2 from the floor of its mapped x and z indices, with z wrapped periodically, and a boundary leg refers to the boundary cell of the same source cell and direction. The exported arrays are valid CSR: each matrix row holds exactly its accumulated entries, duplicates summed, and results are stored under the names of their own direction.",
 ["inputs"], "every map, including negative and wrapped indices", "No test builds an operator.",
 ["zoidberg/weights.py"],
 [("stencil", "weights.py accumulate_interior_stencil"), ("sparse rows", "weights.py SparseRowMatrixBuilder"), ("direction tables", "weights.py FORWARD_DIRECTION, BACKWARD_DIRECTION"), ("export", "weights.py calculate_parallel_map_operators")],
 ["calculate_parallel_map_operators(maps)"])
prop("C05", "Looking up a poloidal plane by y index is periodic and monotonic",
 "For an index in range the grid returns that plane and its y coordinate. Out of range, a y-periodic grid returns the plane at the index modulo the number of planes with its coordinate shifted by the matching whole number of periods, so y increases with the index; a non-periodic grid returns no plane, at y = 0 below and y = Ly above. A fractional index returns no plane and the linear interpolation between the neighbouring planes' y coordinates.",
 ["inputs", "configurations"], "every integer or fractional index, positive or negative, and both kinds of grid", "Tests sample a few whole indices of one grid.",
 ["zoidberg/grid.py"], [("plane lookup", "grid.py Grid.getPoloidalGrid"), ("construction", "grid.py Grid.__init__, rectangular_grid")], ["Grid.getPoloidalGrid"])
prop("C06", "Rectangular poloidal grids: index and position are exact inverses",
 "On a rectangular poloidal grid position is linear in the index, the middle index lies at the given centre, the spacing is the domain size divided by the number of non-guard points in x and by all points in z, and finding the index of a position inverts getting the position of an index. Derivatives of position with respect to the indices agree with that map to every order (all second and mixed ones vanish), and the stored coordinate arrays, spacing and identity metric agree with it. rectangular_grid stacks such planes at y = j*Ly/ny if periodic and at y = (j + 1/2)*Ly/ny otherwise.",
 ["inputs"], "every size, centre, index, position and derivative order", "Tests check isolated values of one grid and no derivative beyond first order.",
 ["zoidberg/poloidal_grid.py", "zoidberg/grid.py"],
 [("position and inverse", "poloidal_grid.py RectangularPoloidalGrid"), ("stack of planes", "grid.py rectangular_grid")], ["RectangularPoloidalGrid.getCoordinate", "RectangularPoloidalGrid.findIndex"])
prop("C07", "Finite-difference stencils have their stated order at every point",
 "For every axis and array rank, the second-order derivative is the half difference of the two neighbours and the fourth-order one the five-point central formula at each interior point, with wrap-around when periodic. At the ends of non-periodic axes the fourth-order operator uses one-sided formulas which are exact for polynomials up to degree four, every element of the result is assigned, and the input is not modified. The length of a field line is the sum of distances between neighbouring points of its refined Cartesian path.",
 ["inputs"], "every array, axis and length", "Tests check convergence on smooth functions along few axes; a wrong coefficient at one end point can hide in the norm.",
 ["zoidberg/diff.py"], [("stencils", "diff.py c2, c4"), ("line length", "diff.py field_line_length")], ["c2", "c4", "field_line_length"])
prop("C08", "Field-line direction is R*Bx/By, R*Bz/By and |B| is the Euclidean norm",
 "For every magnetic field the direction handed to the tracers is (R*Bx/By, R*Bz/By) with R the major radius, or one if the field is Cartesian, in the order x then z, whether points are passed separately or interleaved; a field with By smaller than 1e-8 in magnitude anywhere is refused with an error instead. The magnitude is the square root of Bx^2+By^2+Bz^2 for every field that does not supply its own, and fields which supply all components at once agree with their single-component functions.",
 ["inputs"], "every field and position", "Tests compare a handful of points of the slab field.",
 ["zoidberg/field.py"], [("direction", "field.py MagneticField.field_direction"), ("magnitude", "field.py MagneticField.Bmag"), ("combined evaluation", "field.py Bxyzfunc of W7X_vacuum_on_demand, FusionSCField")], ["MagneticField.field_direction", "Bmag", "Bxyzfunc"])
prop("C09", "Built-in fields evaluate their documented formula in their coordinates",
 "Each analytic field (slab, curved slab, straight stellarator, rotating ellipse, screw pinch) returns its documented component formulas as functions of (x, z, phi), and Dommaschk fields return the gradient of their potential scaled to B_0 on the axis. Each tabulated field samples the table of that component with every coordinate in the axis it was tabulated on, with the toroidal angle reduced modulo 2 pi so that phi and phi + 2 pi give the same field; a g-file field is (-dpsi/dZ, f, dpsi/dR)/R. Fields in cylindrical coordinates report x as the major radius.",
 ["inputs"], "every position and toroidal angle, every field class", "Tests check the slab only; most classes need files or network services the tests do not have.",
 ["zoidberg/field.py"], [("component functions", "field.py Bxfunc, Byfunc, Bzfunc, Rfunc of every class"), ("tables", "field.py __init__ of VMEC, W7X_vacuum, W7X_VMEC, GEQDSK")], ["Bxfunc", "Byfunc", "Bzfunc", "Rfunc"])
prop("C10", "Queries do not modify the caller's data or cached state",
 "Tracing field lines, making Poincare data, evaluating fields, boundaries and derivatives, looking up indices and positions, building lines and grids and computing metrics leave the arrays and objects passed to them unchanged. Asking for the same metric, map or trace twice gives the same answer: no call alters values cached in a grid, a field, a line or a module for later calls.",
 ["inputs", "histories"], "every argument and every sequence of calls", "Tests call each function once with fresh arguments and do not compare arguments before and after.",
 ["zoidberg/fieldtracer.py", "zoidberg/zoidberg.py", "zoidberg/field.py", "zoidberg/boundary.py", "zoidberg/diff.py", "zoidberg/grid.py", "zoidberg/poloidal_grid.py", "zoidberg/rzline.py", "zoidberg/stencil_dagp_fv.py", "zoidberg/smooth.py"],
 [("copies before in-place updates", "fieldtracer.py FieldTracerReversible.follow_field_lines, trace_poincare; zoidberg.py get_metric")], ["all public functions which take arrays"])
prop("C11", "Instances do not share mutable state",
 "Creating or using one magnetic field, grid, tracer, boundary, line, map writer or matrix builder never changes another: no method writes to a container stored on a class, in a default argument or in a module, and objects created from the same constructor arguments do not share containers that either of them modifies.",
 ["histories"], "every sequence of constructions and calls on several instances", "Tests use one instance at a time.",
 ["zoidberg/field.py", "zoidberg/grid.py", "zoidberg/weights.py", "zoidberg/zoidberg.py", "zoidberg/fieldtracer.py", "zoidberg/poloidal_grid.py", "zoidberg/rzline.py"],
 [("instance attributes", "field.py GEQDSK.__init__; __init__ of every class")], ["class attributes", "default arguments"])
prop("C12", "Tracers return every start point, in order, on every requested plane",
 "For any shapes of x and z (equal, or one of them scalar) and any list of at least two y values, a tracer returns an array indexed by y value, then the shape of the start points, then (x, z), where the entry for the first y value holds the start points themselves and every line keeps its own position however the points are split into pieces. Incompatible shapes and fewer than two y values are rejected with an error, and a given tolerance reaches the integrator, the default applying otherwise.",
 ["inputs", "configurations"], "every shape, number of points (below and above the splitting limit) and tolerance", "Tests use a few small inputs and never reach the chunked path.",
 ["zoidberg/fieldtracer.py"], [("integration in pieces", "fieldtracer.py FieldTracer.follow_field_lines"), ("trapezoidal steps", "fieldtracer.py FieldTracerReversible.follow_field_lines"), ("external tracers", "fieldtracer.py FusionSCTracer, FieldTracerWeb")], ["follow_field_lines"])
prop("C13", "A cached trace is returned only for the identical request",
 "The caching tracer returns stored results only if start points, y values and tracing options all equal those of the stored request; otherwise it traces, stores under the new request's own key and returns exactly what the wrapped tracer returned.",
 ["inputs", "histories"], "every pair of requests in every order", "No test uses the cache; a collision needs two particular requests.",
 ["zoidberg/fieldtracer.py"], [("key", "fieldtracer.py CachingFieldTracer._myhash"), ("lookup", "fieldtracer.py CachingFieldTracer.follow_field_lines")], ["CachingFieldTracer.follow_field_lines"])
prop("C14", "Each field-line map entry belongs to its own plane, offset and sample",
 "For every plane j and offset d, the stored positions are those traced from plane j's points at its y to the y of plane j + d; the stored indices are those positions located on the grid of plane j + d, and both the x and the z index are -1 exactly where there is no such plane or the field's boundary, evaluated at those positions and that y, says they are outside. Sub-sampled maps obey the same for every offset, starting from the cell's quadrature points, whose weights are stored in the same order and sum to one.",
 ["inputs", "configurations"], "every grid, number of slices, samples per cell and field", "Tests use one slice, one sample and fields without boundaries.",
 ["zoidberg/zoidberg.py"], [("map loop", "zoidberg.py make_maps")], ["make_maps"])
prop("C15", "Output names identify offset and metric component without collisions",
 "The name of a field at a parallel offset is distinct for every combination of field and offset: forward_/backward_ prefixes for positive and negative whole offsets, with the magnitude appended beyond one, and _cell_yhigh/_cell_ylow for half offsets. Metric components are renamed by mapping x, y, z to 1, 2, 3 while keeping the covariant underscore, in all three y locations, and every other name is unchanged.",
 ["inputs"], "every field name, offset and metric dictionary", "Tests check a few names.",
 ["zoidberg/zoidberg.py"], [("slice names", "zoidberg.py parallel_slice_field_name"), ("metric names", "zoidberg.py update_metric_names")], ["parallel_slice_field_name", "update_metric_names"])
prop("C16", "Only finite arrays reach the grid file, under their own names and sizes",
 "Every array written from maps, metrics and field attributes is checked to be finite before it is written and is written under its own name; writing to a writer which is not open is refused, and leaving the writer's context closes the file whether or not an error occurred, and does not hide the error. The file's nx, ny, nz are the grid's sizes in that order, both separatrix indices lie beyond nx, its identifier is freshly generated and stored under both identifier attributes (updating a file keeps the earlier attribute values under other names), and each written coordinate, attribute or parallel metric belongs to its own plane and offset.",
 ["inputs", "fault_sequences"], "every grid, field and map content, including non-finite values and failures while writing", "Tests write one valid file.",
 ["zoidberg/zoidberg.py"], [("checked write", "zoidberg.py MapWriter.write_dict"), ("sizes and identifiers", "zoidberg.py MapWriter._final"), ("context", "zoidberg.py MapWriter.__enter__, __exit__")], ["MapWriter", "write_maps"])
prop("C17", "Interrupted DAGP generation resumes without skipping or losing planes",
 "Wherever the generation of the perpendicular-diffusion coefficients is interrupted, the recorded progress counts only planes all of whose coefficients have been written, and a rerun on the same file continues with the first plane not counted and ends with every plane written in its own slot. All coefficient arrays are fully initialised.",
 ["crash_points", "histories"], "every crash point between two file operations", "No test interrupts or resumes a generation.",
 ["zoidberg/zoidberg.py", "zoidberg/stencil_dagp_fv.py"], [("progress counter", "zoidberg.py MapWriter.add_dagp"), ("initialisation", "stencil_dagp_fv.py doit, fixup")], ["MapWriter.add_dagp"],
 [("_dagp_generation_progress", "number of completed planes", "grid file")])
prop("C18", "Iterative solvers never return an unconverged answer",
 "Finding an index on a structured grid, generating an elliptic grid and each implicit tracing step return only after the residual or change, over all points that are still being solved for, has fallen below the tolerance; otherwise they raise an error or keep iterating. The converged quantities are the ones returned, and points outside the grid are reported as -1 or nx in x.",
 ["inputs"], "every input for which the iteration does or does not converge", "Tests only use cases which converge.",
 ["zoidberg/poloidal_grid.py", "zoidberg/fieldtracer.py"], [("Newton iteration", "poloidal_grid.py StructuredPoloidalGrid.findIndex"), ("Jacobi iteration", "poloidal_grid.py grid_elliptic"), ("implicit step", "fieldtracer.py FieldTracerReversible")], ["findIndex", "grid_elliptic", "follow_field_lines"])
prop("C19", "Implicit tracing solves the trapezoidal rule, in both directions alike",
 "Every step of the reversible tracer solves pos_next = pos + dy/2*(f(pos, y) + f(pos_next, y + dy)) for x and z together, using the direction field at the start of the step for the explicit half and at the end of the step for the implicit half, with the requested number of equal sub-steps between consecutive y values. Therefore tracing forth and back retraces the same points.",
 ["inputs"], "every field, start point, step size and direction", "Tests trace one field and compare end points to a tolerance which a lower order rule still meets.",
 ["zoidberg/fieldtracer.py"], [("half-step values and Newton update", "fieldtracer.py FieldTracerReversible.follow_field_lines")], ["FieldTracerReversible.follow_field_lines"])
prop("C20", "Metric tensors are inverse to each other and assembled plane by plane",
 "On every poloidal grid the covariant components are the scalar products of the coordinate tangent vectors scaled by dx and dz, and the contravariant components are the inverse of that matrix. A grid's three-dimensional metric holds in each plane that plane's own components, dy is the spacing of the periodically extended y coordinates, and for a magnetic field g_yy = R^2*(B/By)^2 with gyy its reciprocal (R = 1 if Cartesian), together with the field's B and pressure on each plane.",
 ["inputs"], "every grid and field", "Tests check shapes and one slab.",
 ["zoidberg/poloidal_grid.py", "zoidberg/grid.py", "zoidberg/zoidberg.py"], [("poloidal metric", "poloidal_grid.py metric of both grids"), ("assembly", "grid.py Grid.metric"), ("parallel components", "zoidberg.py get_metric")], ["metric", "get_metric"])
prop("C21", "No code path reads an unbound name",
 "Every name read in a function or at module level is bound on every path on which it can be read: as a parameter, by an assignment or import in scope that precedes the use, or as a builtin; optional dependencies are used only where they are known to be present. Names imported from the package's modules exist there, and every attribute an object reads from itself is set by some class of its hierarchy.",
 ["inputs", "configurations"], "every branch, including error handling and missing optional dependencies", "Tests reach few error and plotting branches and run with one set of installed packages.",
 ["zoidberg/*.py"], [("imports and definitions", "all modules")], ["every function"])
prop("C22", "Periodic lines wrap, keep their points and interpolate between neighbours",
 "A line keeps exactly the given points, reversed if needed so that it runs anticlockwise, places them at equally spaced angles starting at zero, and repeats with period 2 pi in every evaluation of R, Z and their derivatives. The polygon position interpolates linearly between the two points next to the angle, wrapping around; the distance along the line starts at zero, ends at the total length and increases; re-spaced lines sample this line at equal distances. Circles and shaped lines lie on their documented curves.",
 ["inputs"], "every set of points, angle (negative and beyond 2 pi) and number of points", "Tests use circles and a few angles.",
 ["zoidberg/rzline.py"], [("line", "rzline.py RZline"), ("shapes", "rzline.py circle, shaped_line")], ["RZline", "circle", "shaped_line"])
prop("C23", "Boundaries classify every point correctly",
 "No boundary reports no point as outside; a rectangular boundary reports a point outside exactly if x or z lies beyond its limits; a polygonal boundary reports a point outside exactly if a vertical ray from it crosses the closed polygon an even number of times, where each vertex counts for only one of its two edges, for any orientation and starting vertex. The answer has one entry per point and does not depend on y.",
 ["inputs"], "every polygon and point, including points in line with vertices", "No test covers boundaries.",
 ["zoidberg/boundary.py"], [("inside tests", "boundary.py outside of each class")], ["outside"])
prop("C24", "Generated poloidal grids start on the inner and end on the outer line",
 "Grids generated between two lines have the requested numbers of points, put the first row (before any extra inner rows) on the inner line and the last row (before any extra outer rows) on the outer line, treat R and Z alike and wrap periodically in z. The elliptic generator solves a*X_xx - 2*b*X_xz + c*X_zz = 0 for X = R and Z with a, b, c formed from the same differences (those in z multiplied by dz_relax), and extra rows continue the last spacing linearly outwards.",
 ["inputs", "configurations"], "every pair of lines, size and option", "Tests generate few grids and check shapes.",
 ["zoidberg/poloidal_grid.py"], [("generators", "poloidal_grid.py grid_annulus, grid_elliptic"), ("structured grid", "poloidal_grid.py StructuredPoloidalGrid")], ["grid_annulus", "grid_elliptic"])
prop("C25", "Poincare data are ordered by revolution and slice",
 "Poincare data hold, at revolution i and slice k, the position of each start point at y = y_k + i*period, for sorted slices that were checked to lie within one period and are returned with the data; oversampling adds only intermediate points between consecutive positions and removes all of them again.",
 ["inputs", "configurations"], "every set of slices, number of revolutions and oversampling factor", "Tests check shapes for one setting.",
 ["zoidberg/fieldtracer.py"], [("planes and reshaping", "fieldtracer.py trace_poincare")], ["trace_poincare"])
prop("C26", "Cell volumes, parallel lengths and toroidal fields use their own samples",
 "The Jacobian of a cell is the perpendicular Jacobian of its plane times the trapezoidal average of R*B0/B over the points traced from half a plane backwards to half a plane forwards, each with the field evaluated at its own position and y and B0 at the cell itself; the parallel lengths and toroidal fields stored for the lower face, centre and upper face belong to the windows and points centred there. Results do not depend on how the plane is split into chunks.",
 ["inputs", "configurations"], "every grid, field, refinement and number of chunks", "One test compares total volumes to a tolerance.",
 ["zoidberg/zoidberg.py"], [("second tracing loop", "zoidberg.py make_maps")], ["make_maps"])
prop("C27", "DAGP coefficients use matching faces, cells and normals",
 "The finite-volume coefficients are built from each plane's own coordinates: volumes from a closed path around each cell, x-face terms from the face between i and i+1, z-face terms from the face between k and k+1 (periodic), each with the area-weighted normal of that face and the coordinate differences across it, with R as area weight unless the field is a slab. They are stored under names giving the face and derivative direction, padded with zeros where undefined.",
 ["inputs"], "every poloidal grid", "Tests check convergence of the total operator on two geometries.",
 ["zoidberg/stencil_dagp_fv.py"], [("coefficients", "stencil_dagp_fv.py doit, fixup, write")], ["doit"])
# ---- properties this technique cannot decide ----
prop("C40", "Traced field lines are accurate",
 "For every field the traced positions differ from the true field line by no more than the requested tolerance implies.",
 ["inputs"], "every field, start point and distance", "Accuracy is sampled at a few points.",
 ["zoidberg/fieldtracer.py"], [("ODE integration", "fieldtracer.py")], ["follow_field_lines"])
prop("C41", "Structured grids: found indices reproduce the position",
 "On a structured grid, evaluating the position at the index found for a point inside the grid returns that point within the tolerance.",
 ["inputs"], "every structured grid and point", "Only a few grids and points are tried.",
 ["zoidberg/poloidal_grid.py"], [("Newton iteration on splines", "poloidal_grid.py findIndex")], ["findIndex"])
prop("C42", "Generated grids are non-degenerate",
 "Grid generation between nested lines yields cells of positive area with no crossing grid lines.",
 ["inputs"], "every pair of nested lines", "Only few shapes are tried.",
 ["zoidberg/poloidal_grid.py"], [("elliptic smoothing", "poloidal_grid.py grid_elliptic")], ["grid_elliptic"])
prop("C43", "Ordering of scattered points finds the enclosing curve",
 "A line built from unordered points of a closed curve visits them in their order along the curve.",
 ["inputs"], "every point cloud", "Only few clouds are tried.",
 ["zoidberg/rzline.py"], [("nearest neighbour, two-opt and convex hull ordering", "rzline.py line_from_points*")], ["line_from_points"])
prop("C44", "Smoothing removes all sharp corners and keeps the rest of the line",
 "After smoothing a line no three points at the given distance form a sharper angle than the cutoff, and points away from corners are unchanged.",
 ["inputs"], "every line", "Two lines are tried.",
 ["zoidberg/smooth.py"], [("least-squares replacement", "smooth.py")], ["smooth"])
prop("C45", "Flux and volume errors converge with resolution",
 "Flux conservation of the maps and the total volume converge to the exact value at the order of the method as the resolution increases.",
 ["inputs"], "every field and grid", "Two geometries are tried at a few resolutions.",
 ["zoidberg/zoidberg.py", "zoidberg/stencil_dagp_fv.py"], [("numerical integration", "zoidberg.py make_maps")], ["make_maps"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
