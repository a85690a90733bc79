#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program only so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("P01", "Coordinate transforms are exact rigid maps with exact inverses",
 "Transforming a point (or a ray's position and velocity) from one coordinate system to another maps it to the coordinates of the same physical point/direction there, so lengths and angles are preserved, the reverse transform undoes the forward one, and going A to B to C equals going A to C. Times, wavelengths, fluxes and flags of rays are untouched, array and scalar inputs and single/many threads agree, and the caller's own input arrays are not modified by the array-returning transforms.",
 ["inputs", "configurations"], "all orthonormal rotations, all origins, all points/rays, arrays of every length including 0",
 "Tests sample a few random systems with a tolerance; they cannot quantify over all rotations, origins and array lengths, and not over index mix-ups that vanish for symmetric rotations.",
 ["batoid/coordTransform.py", "batoid/coordSys.py", "batoid/rayVector.py", "batoid/trace.py", "src/batoid.cpp", "pysrc/batoid.cpp"],
 [("forward/reverse per-point kernels", "src/batoid.cpp apply*Transform*"), ("relative dr/drot of two systems", "batoid/coordTransform.py")],
 ["CoordTransform.applyForward/applyReverse*", "RayVector.toCoordSys", "applyForwardTransform*"])

prop("P02", "Shifting and rotating a coordinate system does exactly the rigid motion asked",
 "Shifting a coordinate system by a global (local) vector moves its origin by that vector (by that vector expressed in its own axes) and leaves its axes alone; rotating it globally (locally) about a centre turns its axes by the given rotation in global (its own) axes and moves its origin on the circle about that centre, which stays fixed. The result always has orthonormal right-handed axes, elementary rotations turn the stated axis right-handedly, and the system operated on is never modified.",
 ["inputs", "histories"], "all systems with rotation-matrix axes, all shift vectors, all rotations, all centres and centre systems, all sequences of such operations",
 "Tests compare a handful of random rotations; orthonormality after arbitrary histories and the fixed centre under arbitrary composition need an algebraic argument.",
 ["batoid/coordSys.py"], [("shift/rotate constructors", "batoid/coordSys.py CoordSys"), ("elementary rotations", "batoid/coordSys.py RotX/RotY/RotZ")],
 ["CoordSys.shiftGlobal/shiftLocal/rotateGlobal/rotateLocal", "RotX/RotY/RotZ"])

prop("P03", "A successful intersection lies on the ray's own line and on the surface",
 "When intersecting (or reflecting, refracting, splitting, phase-screening) rays with a surface succeeds, the new position is the old one advanced along the ray's old velocity by the same interval as its time is advanced, and satisfies the surface's equation; for surfaces solved by iteration it does so to the stated 1e-12 tolerance. Whenever either crossing of a quadratic surface lies on the sheet given by its sag the result lies on that sheet, and when both do it is the one nearer in height to the vertex; a ray that never crosses the surface is reported failed instead of receiving a position.",
 ["inputs", "configurations"], "all surfaces and parameters, all placements, all finite rays including axis-parallel ones and ones starting on the surface, any iteration limit",
 "Tests use random rays aimed down at moderately curved surfaces; special geometries (start on the surface, axis-parallel, far sheet, degenerate quadratics) are a measure-zero set no sampling hits.",
 ["src/surface.cpp", "src/plane.cpp", "src/tilted.cpp", "src/paraboloid.cpp", "src/sphere.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/sum.cpp", "src/batoid.cpp", "batoid/trace.py", "batoid/surface.py"],
 [("closed-form root selection", "src/{plane,tilted,paraboloid,sphere,quadric}.cpp timeToIntersect"), ("Newton iteration with acceptance test", "src/surface.cpp timeToIntersect"), ("per-ray advance", "src/batoid.cpp intersect")],
 ["intersect / Surface.intersect"])

prop("P04", "Surface normals are upward unit vectors perpendicular to the surface",
 "For every kind of surface the reported normal at (x, y) has length one, points to positive z and is perpendicular to the surface there, i.e. its x and y components are minus the sag's x and y derivatives times its z component. Where a surface reports no sag (outside a NaN-policy table) its normal is not a number either.",
 ["inputs", "configurations"], "all surface kinds and parameters, all points of their domain including the vertex and cell boundaries",
 "Tests compare the normal with a finite difference, or with a copy of the same formula, at random points.",
 ["src/plane.cpp", "src/tilted.cpp", "src/paraboloid.cpp", "src/sphere.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/polynomialSurface.cpp", "src/bicubic.cpp", "src/table.cpp", "src/sum.cpp", "src/surface.cpp", "batoid/surface.py", "pysrc/surface.cpp"],
 [("normal per surface", "src/*.cpp normal"), ("derived gradients", "src/surface.cpp grad; src/table.cpp grad; batoid/surface.py Zernike gradients")],
 ["Surface.normal"])

prop("P05", "Surface height equals the documented formula of its parameters",
 "The height of every surface at (x, y) is the documented function of its parameters: zero plane, tilted plane, paraboloid, sphere cap, conic of revolution, conic plus even powers starting at the fourth, two-variable polynomial, sum of its parts; a bicubic surface reproduces the heights and slopes given at its grid nodes, is once continuously differentiable inside its grid, and outside follows its stated out-of-grid policy. Scalar and array evaluation agree whatever the input's shape, memory layout or number type.",
 ["inputs", "configurations"], "all parameters, any number of coefficients or summands, all points, all array shapes and strides",
 "Tests repeat the formula for a few sizes at random points; any-length coefficient lists and cell boundaries need induction or case analysis.",
 ["src/plane.cpp", "src/tilted.cpp", "src/paraboloid.cpp", "src/sphere.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/polynomialSurface.cpp", "src/bicubic.cpp", "src/table.cpp", "src/sum.cpp", "batoid/surface.py", "pysrc/surface.cpp"],
 [("sag per surface", "src/*.cpp sag"), ("Horner evaluation", "src/polynomialSurface.cpp horner, horner2d"), ("bicubic interpolation", "src/table.cpp eval")],
 ["Surface.sag"])

prop("P06", "Reflection obeys the law of reflection and preserves speed",
 "A ray reflected by a surface leaves from the intersection point with its velocity component along the surface normal reversed and its tangential velocity unchanged, so its speed is preserved, whatever side it arrives from and wherever the surface is placed and oriented. Its wavelength is unchanged and its flux is unchanged without a coating.",
 ["inputs", "configurations"], "all surfaces, all placements, all finite velocities and incidence sides",
 "Tests check random downward rays on a few surfaces to tolerance; the law is for every geometry.",
 ["src/batoid.cpp", "batoid/trace.py", "batoid/surface.py", "batoid/optic.py"],
 [("vector reflection", "src/batoid.cpp reflect")], ["reflect / Surface.reflect / Mirror.trace"])

prop("P07", "Refraction obeys Snell's law and the new medium's speed",
 "A ray refracted into a medium leaves from the intersection point with speed one over that medium's index at the ray's wavelength, in the plane of incidence, on the far side of the surface, with index times sine of the angle to the normal conserved, whatever side it arrives from. If that sine would exceed one the ray is marked failed and vignetted, gets no valid direction and never a wrong one.",
 ["inputs", "configurations"], "all surfaces, placements, index pairs, incidence angles and sides, wavelengths",
 "Tests sample incidence in a benign range and cannot cover all index pairs and angles up to and beyond the critical angle.",
 ["src/batoid.cpp", "batoid/trace.py", "batoid/surface.py", "batoid/optic.py"],
 [("vector Snell law", "src/batoid.cpp refract")], ["refract / Surface.refract / RefractiveInterface.trace"])

prop("P08", "Failed rays stay frozen and rays never influence each other",
 "Once a ray is marked failed no later surface interaction changes its position, velocity, time or flux, and no operation ever clears a failed or vignetted mark; a ray an interaction cannot complete becomes both failed and vignetted. What happens to a ray depends on that ray alone: processing it within a batch of any size, in any order and with any number of threads gives what processing it alone gives.",
 ["inputs", "schedules", "configurations"], "all batches of any length, all positions of failed rays in them, all thread counts and interleavings of the parallel loops, all surface interactions",
 "Tests run one or two thread counts and cannot show independence of every index from every other, nor quantify over thread interleavings.",
 ["src/batoid.cpp", "batoid/trace.py"],
 [("per-ray guard on the failed flag", "src/batoid.cpp kernels"), ("parallel loops with loop-local temporaries", "src/batoid.cpp omp parallel for")],
 ["intersect, reflect, refract, rSplit, refractScreen, obscure"])

prop("P09", "Beam splitting yields exactly the reflected and the refracted ray",
 "Splitting a batch at a coated interface returns two batches of the same length: the transmitted rays are what refraction at that interface gives and the reflected rays are what reflection there gives (same point, time and wavelength), each with the incoming flux times the coating's coefficient for that branch in the direction of travel. A ray that misses the surface is marked failed and vignetted in both, and rays that arrive already failed carry no unset data.",
 ["inputs", "configurations"], "all surfaces, coatings, media and batches, both directions of travel",
 "Tests compare against separate refract/reflect calls for random rays that all hit; failed and missing rays and every field of both outputs are not all compared.",
 ["src/batoid.cpp", "batoid/trace.py", "batoid/surface.py", "batoid/optic.py"],
 [("joint reflect/refract kernel", "src/batoid.cpp rSplit"), ("choice of coating by direction", "batoid/optic.py Interface.rSplit")],
 ["rSplit / RefractiveInterface.rSplit"])

prop("P10", "An optical-path-difference screen bends rays by its gradient and delays them",
 "Passing a phase screen keeps a ray's speed and side of travel, adds the screen's gradient along the reference surface to its direction cosines there (whichever way it travels), and adds the screen's height at the crossing point to the ray's time, so rays stay normal to the delayed wavefront. A flat zero screen leaves every ray as a plain intersection does, and a ray left with no real direction, or crossing outside the screen, becomes failed and vignetted.",
 ["inputs", "configurations"], "all reference surfaces, screens and rays, both directions of travel",
 "Tests use a few screens on planes with near-normal rays.",
 ["src/batoid.cpp", "batoid/trace.py", "batoid/surface.py", "batoid/optic.py"],
 [("tangent-frame direction cosine update", "src/batoid.cpp refractScreen")], ["refractScreen / OPDScreen.trace"])

prop("P11", "Coatings scale flux exactly once, by the coefficient of the branch taken",
 "At a coated surface the flux of a ray that reaches it is multiplied exactly once by the coating's reflectance when reflecting and by its transmittance when intersecting or refracting; a ray that misses keeps its flux, and without a coating flux never changes. A coating that is constant returns its two coefficients whatever the wavelength and angle, and reports the cosine-dependent branch values consistently whether asked together or one at a time.",
 ["inputs", "configurations"], "all coatings, all rays, all interactions, both directions of travel",
 "Tests check a few constant coatings on hitting rays.",
 ["src/coating.cpp", "src/batoid.cpp", "batoid/coating.py", "batoid/surface.py", "batoid/optic.py", "batoid/trace.py", "pysrc/coating.cpp"],
 [("flux update", "src/batoid.cpp kernels"), ("coefficients", "src/coating.cpp"), ("forward/reverse coating choice", "batoid/optic.py Interface.interact")],
 ["SimpleCoating.getCoefs/getReflect/getTransmit", "reflect/refract/intersect with coating"])

prop("P12", "Obscurations denote the documented regions and combine as sets",
 "Circle, annulus, rectangle, ray and polygon obscurations contain exactly the points of the documented region (polygon: even-odd rule over all its edges, including the closing one); negation, union and intersection contain exactly the complement, union and intersection of what their members contain, for any number of members. Answering for a rectangular grid of points gives, cell by cell, the answer for each point, and never writes outside the result.",
 ["inputs", "configurations"], "all shapes and parameters, any number of polygon vertices or members, all points, all grid sizes",
 "Tests sample random points for a few shapes and only square grids; arbitrary member counts, polygons and grid shapes are unbounded.",
 ["src/obscuration.cpp", "batoid/obscuration.py", "pysrc/obscuration.cpp"],
 [("contains per shape", "src/obscuration.cpp"), ("grid scan", "src/obscuration.cpp containsGrid")], ["Obscuration.contains", "ObscPolygon.containsGrid"])

prop("P13", "Obscuring only ever adds vignetting, to exactly the rays inside",
 "Obscuring a batch marks as vignetted exactly those rays that already were or whose position in the obscuration's coordinate system lies inside it, and changes no other property of any ray beyond re-expressing it in that coordinate system. Tracing through an element with an obscuration applies it at that element's surface intersection, once.",
 ["inputs", "configurations"], "all obscurations, placements and batches",
 "Tests compare a few sampled batches; that nothing else changes and marks are never cleared must hold for every input.",
 ["src/batoid.cpp", "batoid/trace.py", "batoid/obscuration.py", "batoid/optic.py"],
 [("monotone flag update", "src/batoid.cpp obscure"), ("obscure before interacting", "batoid/optic.py Interface.trace")], ["obscure / Obscuration.obscure / Interface.trace"])

prop("P14", "Media return the documented refractive index at every wavelength",
 "Constant, Sellmeier, Sumita and air media return the documented formula of their parameters; a tabulated medium returns the given value at every tabulated wavelength including the first and last, interpolates linearly in between and returns not-a-number outside, never reading beyond its table. Scalar and array wavelengths agree, and number types of the inputs do not matter.",
 ["inputs", "configurations"], "all parameters, all table lengths of two or more, all wavelengths including the nodes",
 "Tests sample a few wavelengths strictly inside tables; table lengths and the boundary wavelengths are not covered and out-of-range reads are invisible.",
 ["src/medium.cpp", "batoid/medium.py", "pysrc/medium.cpp"],
 [("index formulas and table search", "src/medium.cpp getN")], ["Medium.getN"])

prop("P15", "Free propagation, phase and amplitude follow the plane-wave definition",
 "The position of a ray at time T is its position plus velocity times T minus its time, and propagating to T moves it there, sets its time to T and changes nothing else; phase at a point and time is k.(r-r0) - omega (T-t) with k = 2 pi v / (wavelength v^2) and omega = 2 pi / wavelength, and amplitude is exp(i phase). The summed amplitude is the flux-weighted sum of the amplitudes of exactly the rays that are not failed and, when vignetting is honoured, not vignetted.",
 ["inputs", "configurations", "schedules"], "all batches of any length, all flags, all points and times, all thread counts",
 "Tests sample batches; sums over any length and flag pattern, and parallel reduction, are unbounded.",
 ["src/rayVector.cpp", "batoid/rayVector.py", "pysrc/rayVector.cpp"],
 [("per-ray formulas", "src/rayVector.cpp"), ("reduction", "src/rayVector.cpp sumAmplitude")], ["RayVector.positionAtTime/propagate/phase/amplitude/sumAmplitude/k/omega"])

prop("P16", "Generated ray bundles pierce the pupil where asked, in phase, at medium speed",
 "Rays generated on a grid, polar pattern, fan or spokes, or from chosen pupil points, all cross the stop surface at the requested points, travel with speed one over the medium's index, in the requested direction (or away from the requested source point), and, except for a bundle of many field angles, share one wavefront: their phases agree with a single plane (or spherical) wave, starting the requested distance before the stop. Flux and wavelength are those requested and no ray starts failed or vignetted.",
 ["inputs", "configurations"], "all field angles or direction cosines, projections, stop surfaces, media, pattern sizes and set-back distances",
 "Tests sample a few fields with a flat stop; the wavefront condition is an identity over all directions and pupil points.",
 ["batoid/rayVector.py", "src/batoid.cpp"],
 [("set-back along the wave vector", "batoid/rayVector.py _finish / src/batoid.cpp finishParallel"), ("pattern layout", "batoid/rayVector.py asGrid, asPolar, asFan, asSpokes, fromStop, fromFieldAngles")],
 ["RayVector.asGrid/asPolar/asFan/asSpokes/fromStop/fromFieldAngles"])

prop("P17", "Field-angle projections give unit directions and are mutually inverse",
 "Every field projection turns field angles into a direction-cosine triple of length one, and converting back recovers the field angles over the projection's stated domain (and conversely) to the precision of the inverse trigonometric functions used, with the on-axis field mapping to the straight direction with no undefined values. Scalar and array inputs agree and the generic entry points dispatch to the projection named.",
 ["inputs"], "all field angles in each projection's domain, scalars and arrays of any shape",
 "Tests sample random angles near the axis with a round trip only; an error common to both directions or at special points goes unseen.",
 ["batoid/utils.py"], [("projection pairs", "batoid/utils.py *ToDirCos / dirCosTo*")], ["fieldToDirCos/dirCosToField and the named projections"])

prop("P18", "Ray batches behave as values: indexing, joining, copying and comparing",
 "Indexing, slicing and iterating a ray batch follow sequence rules (negative indices, bounds, any stride or mask) and keep every ray's data and the coordinate system; joining batches lists all rays in order in the first one's coordinate system; copies share no storage. Two batches free of NaN are equal exactly when they have the same length, coordinate system and data (all eleven per-ray quantities), and a pickled batch comes back equal.",
 ["inputs", "histories"], "all batch lengths, indices and slices, all histories of copying, slicing and mutating",
 "Tests index a few positions and compare equal-length batches only; comparing different lengths reads out of bounds without failing a test.",
 ["batoid/rayVector.py", "src/rayVector.cpp", "src/dualView.cpp", "pysrc/rayVector.cpp"],
 [("indexing", "batoid/rayVector.py __getitem__"), ("equality", "src/rayVector.cpp operator==, src/dualView.cpp operator==")], ["RayVector.__getitem__/__eq__/copy/__reduce__", "concatenateRayVectors"])

prop("P19", "Tracing a system is the composition of tracing its elements",
 "Tracing a compound element applies its parts in order, and in reverse order when traced backwards, each exactly once unless it is marked to be skipped, so it equals tracing the flattened list of elementary parts; the step-by-step record has one entry per visited part (parts with distinct names) whose output is the next one's input and whose last output is the plain trace's result. Each refracting element sends rays from its incoming medium to its outgoing medium (swapped backwards), and backward tracing along the reversed output rays returns to the input rays.",
 ["inputs", "programs", "configurations"], "all trees of elements of any depth and width, all named paths, both directions, all ray batches",
 "Tests trace a few shipped telescopes; element trees and paths are unbounded.",
 ["batoid/optic.py"], [("recursive trace", "batoid/optic.py CompoundOptic.trace/traceFull/traceSplit, Interface.trace")], ["Optic.trace/traceFull/traceSplit"])

prop("P20", "Perturbing an element moves just that element, rigidly, and copies the rest",
 "Shifting or rotating an optic or a named part of it returns a new system in which exactly the parts in that subtree moved, all by the same rigid motion, so distances and relative orientations inside the subtree are preserved; every other part, and the original system, is unchanged. Replacing or perturbing the surface of a named element changes that surface only, and inserting before or removing a named element changes only the sequence. Names resolve to exactly the part named, whatever the names of its siblings, and moving there and back restores an equal system.",
 ["inputs", "programs", "histories"], "all element trees and names, all shifts and rotations about any centre, all sequences of perturbations",
 "Tests perturb a few parts of shipped telescopes; sibling names that share prefixes, nested parts and operation sequences are unbounded.",
 ["batoid/optic.py", "batoid/coordSys.py"],
 [("recursive rebuild", "batoid/optic.py CompoundOptic.withGloballyShiftedOptic, withLocallyShiftedOptic, withLocallyRotatedOptic, withSurface, withInsertedOptic, withRemovedOptic"), ("rigid motion", "batoid/coordSys.py")],
 ["Optic.with*Shift*/with*Rotat*"])

prop("P21", "Objects are values: equal iff same definition, hash and pickle agree",
 "Two surfaces, media, coatings, obscurations, coordinate systems or lattices compare equal exactly when they are of the same kind with the same defining parameters (optical elements: the same surface, obscuration, name, media, position and parts), equal ones have equal hashes, and copying through pickle gives an equal object that behaves identically; evaluating their printed form (numbers printed in full) does the same for the parameter-defined kinds. Different kinds never compare equal.",
 ["inputs", "programs"], "all kinds and all parameter values, including parameters that differ in only one field",
 "Tests list a few unequal pairs; equality must separate every single field.",
 ["batoid/surface.py", "batoid/medium.py", "batoid/coating.py", "batoid/obscuration.py", "batoid/coordSys.py", "batoid/lattice.py", "batoid/coordTransform.py"],
 [("__eq__/__hash__/__repr__/__getstate__", "batoid/*.py")], ["==, hash, repr, pickle"])

prop("P22", "A configuration file builds exactly the system it describes",
 "Building objects from a configuration yields the surface, medium, obscuration and element types named with every given parameter in its place, each positioned at its parent's origin plus its own offset and rotated by its own angles about its own axes in the stated order; unspecified fields take the documented defaults and media propagate between neighbouring elements as documented. Unknown types and missing required fields are errors, and building from a configuration leaves that configuration unaltered.",
 ["inputs", "configurations"], "all well-formed configuration trees and parameter values",
 "Tests build the shipped files only, with no independent expectation per field.",
 ["batoid/parse.py", "batoid/optic.py"],
 [("recursive builders", "batoid/parse.py")], ["parse_optic/parse_surface/parse_coordSys/parse_medium/parse_obscuration/Optic.fromYaml"])

prop("P23", "Lattice coordinates and reciprocal vectors match the primitive vectors",
 "The position of each lattice cell is its offset from the lattice centre times the primitive vectors, in any dimension, and the reciprocal vectors used for pupil and image sampling are dual to the primitive vectors: their dot products are one for the same axis and zero for different axes, scaled as documented, for any non-degenerate primitive vectors. A diffraction image therefore lies on the lattice its coordinates report.",
 ["inputs"], "all primitive vectors including skewed and rotated ones, all array shapes odd and even",
 "Tests only use orthogonal square lattices, for which sign and transpose errors cancel.",
 ["batoid/lattice.py", "batoid/analysis.py"],
 [("lattice coordinates", "batoid/lattice.py coords"), ("reciprocal vectors", "batoid/analysis.py")], ["Lattice.coords", "fftPSF/huygensPSF primitiveVectors"])

prop("P24", "Index arithmetic never leaves the arrays it was given",
 "No evaluation of any surface, medium, obscuration, table or ray-batch operation on validly constructed objects reads or writes outside the coefficient, table, vertex, grid or ray arrays involved, for any documented array length and any finite query point. Every such loop terminates.",
 ["inputs", "configurations"], "all documented array lengths (including the smallest) and all finite query points",
 "Out-of-range heap reads usually return plausible numbers, so passing tests say nothing; lengths are unbounded.",
 ["src/asphere.cpp", "src/polynomialSurface.cpp", "src/table.cpp", "src/bicubic.cpp", "src/sum.cpp", "src/medium.cpp", "src/obscuration.cpp", "src/batoid.cpp", "src/rayVector.cpp", "src/dualView.cpp"],
 [("index guards", "src/table.cpp eval/grad; src/medium.cpp TableMedium::getN; src/obscuration.cpp"), ("loop bounds", "all loops over size")], ["every pointer access in src/*.cpp"])

prop("P25", "Spot, wavefront and derived image quantities mean what they document",
 "A spot diagram lists the positions, relative to the requested reference, of exactly the unvignetted rays; a wavefront map is the time lag of each pupil ray behind the reference sphere, in wavelengths, with vignetted samples masked; a point-spread function is nonnegative with its samples on the stated lattice; and the plate-scale, focal-length and distortion derivatives are the partial derivatives of the image position with respect to field they claim to be, row for output and column for input. Zernike coefficients are the least-squares (or, for the quadrature form, Gaussian-quadrature) coefficients of the wavefront or transverse aberration over the points where the rays meet the stop.",
 ["inputs", "configurations"], "all systems, fields, wavelengths and references",
 "Tests check symmetric on-axis cases, where axis swaps and sign errors cancel.",
 ["batoid/analysis.py"], [("analysis functions", "batoid/analysis.py")], ["spot, wavefront, huygensPSF, fftPSF, drdth, dthdr, dkdu, exitPupilPos, focalLength, zernike, zernikeGQ, zernikeTA, zernikeXYAberrations, doubleZernike"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
