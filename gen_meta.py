#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = "src/coordinax/_src/vectors/"
O = "src/coordinax/_src/operators/"
SF = "src/coordinax/_coordinax_space_frames/"

P = []


def prop(id, title, statement, quant, why, files, mech, over=("inputs",), level="other", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, over=list(over), level=level, note=note, na=na))


SAMPLES = "The tests convert a handful of fixed vectors and compare printed or rounded numbers; they say nothing about other octants, axes, the origin, wrapped angles or other units."

prop("C01", "Converting a position between representations keeps the point",
     "Converting a position vector between any two representations of the same dimension (1D, 2D, 3D: Cartesian, polar, cylindrical, spherical, mathematical-convention spherical, longitude/latitude, prolate spheroidal with any focal length) describes the same physical point, whatever units the components carry. Converting there and back therefore returns the original point.",
     "every real position in the documented domain of each representation (all octants, axes, origin, foci), every focal length > 0",
     SAMPLES, [V + "d1/transform.py", V + "d2/transform.py", V + "d3/transform.py"],
     [("represent_as overloads", V + "d3/transform.py"), ("component converters", V + "d3/spherical.py")])
prop("C02", "Converted positions have defined components inside their documented ranges",
     "A conversion between position representations of the same dimension succeeds for every valid input, and every component of the result is a defined number inside the range documented for it: radii and distances >= 0, polar angles in [0, pi], latitudes in [-pi/2, pi/2], azimuths in [0, 2 pi), mu >= Delta^2 and |nu| <= Delta^2. This includes points on the axis and at the origin.",
     "every real position in the documented domain, including the axis, the origin and the foci",
     SAMPLES, [V + "d3/transform.py", V + "d2/transform.py", V + "converters.py", V + "checks.py"],
     [("represent_as overloads", V + "d3/transform.py"), ("azimuth wrapping", V + "converters.py"), ("range checks", V + "checks.py")])
prop("C03", "Converting a velocity between representations keeps the physical velocity",
     "Converting a velocity at a given position to another representation of the same dimension gives the components of the same physical velocity: the time derivative of the Cartesian position is unchanged. This holds for every pair of representations, including the longitude-times-cos(latitude) convention, for any units, and whether the position is given as a vector in any representation or as a Cartesian quantity.",
     "every position off the coordinate singularities and every velocity",
     "Tests convert a few velocities at a few positions and compare rounded numbers.", [V + "transform/velocities.py", V + "d3/transform.py"],
     [("Jacobian of the position conversion", V + "transform/velocities.py"), ("cos(lat) conversions", V + "d3/transform.py")])
prop("C04", "Converting an acceleration between representations keeps it physically the same",
     "Converting an acceleration, with the velocity and position it belongs to, to another representation of the same dimension gives the components of the same physical acceleration. For a body at rest the result is the linear transformation by the Jacobian of the position conversion.",
     "every position off the coordinate singularities and every acceleration (body at rest; moving bodies for Cartesian and flagged pairs)",
     "Tests convert a few accelerations with fixed velocity and position.", [V + "transform/accelerations.py"],
     [("Jacobian of the position conversion", V + "transform/accelerations.py")])
prop("C05", "Building spherical positions from out-of-range values keeps the point",
     "The normalising constructors of the spherical, mathematical-convention spherical and longitude/latitude positions accept any radius (also negative) and any angles and return the in-range coordinates of the very point those values describe by the coordinate formulas.",
     "every radius in R and every pair of real angles", "Tests try a few out-of-range values.",
     [V + "d3/spherical.py", V + "d3/mathspherical.py", V + "d3/lonlatspherical.py", V + "d3/constructor.py"],
     [("from_ normalisation", V + "d3/constructor.py")])
prop("C06", "Constructors reject exactly the values outside the documented domain",
     "Building a position or parallax directly from components raises an error if and only if some component lies outside its documented closed domain: negative radius or distance of a position, negative parallax, polar angle outside [0, pi], latitude outside [-pi/2, pi/2], non-positive focal length, mu < Delta^2 or |nu| > Delta^2. The boundary values themselves are accepted, and in a batch a single offending element suffices.",
     "every real component value", "Tests probe one or two bad values per class and never the boundaries from both sides.",
     [V + "checks.py", V + "d3/spherical.py", V + "d3/spheroidal.py", V + "d2/polar.py", "src/coordinax/_src/distances/core.py"],
     [("__check_init__", V + "checks.py")])
prop("C07", "Azimuths are wrapped into [0, 360) degrees without changing the direction",
     "Whatever value and angular unit an azimuth or longitude is given with (as a plain quantity), the component stored by the position lies in [0, 360) degrees and points in the same direction; the other components are stored as given.",
     "every real angle (any number of turns), in radians or degrees", "Tests wrap two or three angles.",
     [V + "converters.py", V + "d2/polar.py", V + "d2/spherical.py", V + "d3/cylindrical.py", V + "d3/spherical.py", V + "d3/mathspherical.py", V + "d3/lonlatspherical.py", V + "d3/spheroidal.py"], [("converter_azimuth_to_range", V + "converters.py")])
prop("C08", "Vector arithmetic equals Cartesian arithmetic",
     "Adding, subtracting, negating and scaling vectors gives the vector whose Cartesian components are the sum, difference, negative or multiple of the operands' Cartesian components, in the representation of the left operand, whatever representations and units the operands use. Dividing by a number equals multiplying by its reciprocal. A right operand of another dimension enters through its Cartesian coordinates, cut off or filled with zeros. This covers positions of every kind, and Cartesian velocities and accelerations for the operations they support.",
     "every pair of positions in every pair of representations, every scalar (of either sign), mixed units; Cartesian velocities and accelerations",
     "Tests add a few vectors in matching units.", [V + "base/base_pos.py", V + "d1/cartesian.py", V + "d2/cartesian.py", V + "d3/cartesian.py", V + "d2/polar.py", V + "d3/mathspherical.py", V + "dn/cartesian.py"],
     [("registered primitives add/sub/mul/div/neg", V + "base/base_pos.py")])
prop("C09", "Equality means same components, independent of units",
     "Two vectors of the same kind compare equal exactly where all their components are equal as physical quantities, whatever units they are expressed in; comparing a position with one in another representation compares it after conversion to the left operand's representation. A batch compares element by element, also against a batch with fewer axes.",
     "every pair of vectors, equal or differing in any subset of components, same or different units", "Tests compare vectors built from the same literals.",
     [V + "base/base.py", V + "base/base_pos.py"], [("__eq__", V + "base/base.py")])
prop("C10", "Norms are the Euclidean length, independent of representation",
     "The norm of a position is its Euclidean distance from the origin in every representation, the norm of a velocity or acceleration (given the position) is the length of its Cartesian vector, and the norm is never negative and is zero only for the zero vector.",
     "every position, velocity and acceleration", "Tests compute a few norms.", [V + "base/base_pos.py", V + "base/base_vel.py", V + "d3/spherical.py", V + "d3/cylindrical.py", V + "d2/polar.py"],
     [("norm methods", V + "base/base_pos.py")])
prop("C11", "Unit conversion of a vector changes the units and nothing else",
     "Converting a vector's units (by unit system, by dimension map, or to consistent units) yields components in the requested units that denote the same quantities, leaves other components, the class and the extra attributes alone, and converting back restores the vector.",
     "every component value; the supported ways of naming units", "Tests convert one vector per class.", [V + "base/compat.py", V + "base/base.py"], [("uconvert overloads", V + "base/compat.py")])
prop("C12", "Shape operations act on the batch, identically on every component",
     "Indexing, reshaping, flattening, ravelling and transposing a batch of vectors returns exactly the vectors at the corresponding batch positions, with all components broadcast to the common batch shape first and extra attributes kept; iterating over a batch visits exactly the entries along its first axis, in order; shape, size, ndim and length describe that common batch shape, and the component names, units, shapes, sizes and the mapping form list each component's own.",
     "every component value, component shapes broadcasting to batch shapes of up to three axes, the listed operations", "Tests use vectors whose components all have one shape.", [V + "base/base.py", V + "base/mixins.py", V + "dn/base.py"],
     [("full_shaped and the shape properties", V + "base/base.py")], over=("inputs", "programs"))
prop("C13", "Every operator's inverse undoes it",
     "Applying an operator and then its inverse (or the inverse first) returns the original position and time, in any representation, for translations, spatial and temporal, rotations, Galilean boosts, full Galilean transformations, velocity boosts, the identity and pipes of them; the inverse of the inverse acts like the operator itself.",
     "every operator parameter and every event", "Tests invert one or two fixed operators.", [O + "galilean/spatial_translation.py", O + "galilean/translation.py", O + "galilean/rotation.py", O + "galilean/boost.py", O + "galilean/composite.py", O + "pipe.py", O + "boost.py", O + "identity.py"],
     [("inverse properties", O + "galilean/rotation.py")])
prop("C14", "Operators act on the physical point, whatever the representation",
     "A spatial translation adds its vector, a rotation multiplies by its matrix (preserving lengths and dot products when orthogonal; the Euler constructor gives a proper rotation), a boost adds velocity times time, and the result is the same physical event whether the argument is a vector in any representation and units, a Cartesian quantity, or a spacetime vector. Times are shifted only by the temporal part.",
     "every operator parameter, every position and time, every representation", "Tests apply one operator to one or two vectors.", [O + "galilean/spatial_translation.py", O + "galilean/translation.py", O + "galilean/rotation.py", O + "galilean/boost.py", O + "compat.py", O + "base.py"],
     [("__call__ overloads", O + "galilean/rotation.py"), ("generic call", O + "compat.py")])
prop("C15", "Composition applies operators in order and simplification preserves the action",
     "Piping operators with | applies them left to right, nesting pipes inside pipes does not matter, and a full Galilean transformation equals the pipe of its parts; simplifying any operator or pipe yields an operator with the same action on every position and time (a parameter within the documented closeness tolerance of the identity's counts as the identity).",
     "operator parameters and events (symbolic); pipes of up to three operators over all ordered pairs of kinds", "Tests simplify a few fixed pipes and compare the objects.", [O + "pipe.py", O + "composite.py", O + "register_simplify.py", O + "base.py", O + "galilean/composite.py"],
     [("Pipe.__call__", O + "pipe.py"), ("simplify_op overloads", O + "register_simplify.py")], over=("inputs", "programs"))
prop("C16", "Spacetime vectors keep time, space and light speed consistent",
     "A spacetime vector exposes exactly the time and the spatial position it was built from; its squared norm is the interval (c t)^2 - |q|^2 with its own light speed; addition, subtraction, negation and division by a number act on time and space together, in whatever units, and keep the light speed of the first operand, and operators applied to it keep the light speed too.",
     "every time, position and light speed", "Tests build a few four-vectors with the default light speed.", [V + "d4/spacetime.py", V + "d4/compat.py", O + "compat.py"], [("registered primitives and norm2", V + "d4/spacetime.py")])
prop("C17", "ICRS and Galactocentric frames are related by a rigid motion and its inverse",
     "Transforming positions between ICRS and Galactocentric frames preserves distances, maps the frame's Galactic-centre position to the origin and the Sun onto the x-z plane at height z_sun with x < 0, adds the Sun's velocity to velocities, and transforming back with the reverse transformation returns the input, for any frame parameters with |z_sun| below the distance of the centre. Transforming a frame to itself is the identity and chaining two Galactocentric frames goes through ICRS.",
     "every position and velocity; frame parameters (distance, height, roll, centre direction, solar velocity) symbolic", "Tests transform a few stars with the default frame.", [SF + "frame_transforms.py", SF + "galactocentric.py", "src/coordinax/_src/frames/base.py"], [("frame_transform_op overloads", SF + "frame_transforms.py")])
prop("C19", "Distance, parallax and distance modulus are consistent conversions",
     "Distance, parallax and distance modulus obtained from one another satisfy d = 1 au / tan(parallax) and d = 10^(1 + modulus/5) pc; converting around any cycle returns the starting value, for every positive distance and any input unit.",
     "every positive distance", "Tests convert a few values.", ["src/coordinax/_src/distances/core.py"], [("from_ constructors and properties", "src/coordinax/_src/distances/core.py")])
prop("C20", "A space converts all its vectors consistently",
     "Converting a space (a position with its velocity and acceleration) to another representation converts each member exactly as converting it alone with the companion vectors would, keeps all keys, and item access, indexing, reshaping, transposing, negation and comparison reach every member consistently, also when the members have different (broadcastable) batch shapes.",
     "every position, velocity and acceleration off the coordinate singularities", "Tests convert one space.", [V + "space/core.py", V + "transform/space.py", V + "space/compat.py"], [("represent_as for spaces", V + "transform/space.py")])
prop("C21", "Poincare polar coordinates round trip",
     "Converting a phase-space point to Poincare polar coordinates gives pp_phi = sqrt(2 rho^2 |d_phi|) cos(phi) and d_pp_phi = the same with sin(phi), the other components being the cylindrical ones, whatever representation the point was given in; converting back returns the same cylindrical position and velocity (the coordinates do not record the sense of rotation, so d_phi comes back as |d_phi|), and Poincare coordinates converted to a space and back are unchanged.",
     "every phase-space point off the axis (back: with d_phi != 0)", "Tests check one point.", [V + "transform/dn.py", V + "dn/poincare.py"], [("represent_as overloads", V + "transform/dn.py")])
prop("C22", "Changing dimension does not depend on the starting representation",
     "Lowering the dimension of a position (3D to 2D, 1D) drops the same Cartesian coordinates from every representation of a point, or, for the radial target, keeps the point's distance from the origin. Raising the dimension with given extra coordinates yields the point that has exactly the original and those extra coordinates (an extra Cartesian coordinate defaults to zero), so raising by Cartesian or cylindrical coordinates and then lowering returns the original.",
     "every position", "Tests convert a few fixed vectors.", [V + "transform/d1.py", V + "transform/d2.py", V + "transform/d3.py"], [("dimension-changing overloads", V + "transform/d3.py")])
prop("C23", "A batch is treated element by element",
     "Converting, adding, scaling, taking norms of and applying operators to a batch of vectors gives at every batch index exactly the result for that element alone, for every batch shape, for components, companions (the position of a velocity) and second operands that broadcast against each other, and for batches of times and of operators.",
     "every component value; batches of small shape", "Tests use scalar vectors or compare one element.", [V + "transform/velocities.py", V + "transform/accelerations.py", V + "base/base.py", O + "galilean/rotation.py"], [("batch reshaping around the Jacobian", V + "transform/velocities.py")])
prop("C24", "Velocity times time and acceleration times time multiply componentwise",
     "Multiplying a velocity by a time gives the displacement, an acceleration by a time the velocity change, and an acceleration by a squared time a displacement, with each component multiplied by the time of its batch element and units combined (azimuths wrapped, results outside the position's domain rejected); an acceleration may stand on either side of a scalar time.",
     "every component value and time of either sign; all velocity and acceleration classes with a matching position class; scalars and batches", "Tests multiply one vector.", [V + "base/base_vel.py", V + "base/base_acc.py", V + "dn/cartesian.py"], [("registered mul primitives", V + "base/base_acc.py")])
prop("C27", "Normalising a vector yields the unit vector along it",
     "The unit vector of a Cartesian vector (or quantity) points along it and has length one for every non-zero vector, independently of its units and scale.",
     "every non-zero vector", "Tests normalise one vector.", [V + "funcs.py"], [("normalize_vector", V + "funcs.py")])
prop("C31", "Arrays and vectors convert into each other without mixing components",
     "Building a vector from an array, quantity or mapping assigns the entries along the last axis to the components in order, converting the vector to a quantity returns them in the same order and common unit, and the two are mutually inverse for every Cartesian vector class of any dimension; an array without exactly one entry per component is refused (a plain batch of numbers is a batch of one-dimensional vectors). A position in any other representation becomes the quantity of its Cartesian coordinates.",
     "every component value, batch shapes, all Cartesian classes", "Tests build a few vectors.", [V + "base/base.py", V + "compat.py", V + "base/compat.py"], [("from_ and conversion methods", V + "base/compat.py")])
prop("C25", "Interoperation with astropy keeps the physical vector",
     "Converting a Cartesian, cylindrical, spherical or longitude/latitude position or velocity to the corresponding astropy representation or differential, and building such a vector from one, keeps every component's value and unit in its own place, for single vectors and batches, so that there and back returns the vector. An astropy frame of Galactocentric type becomes the frame with the same parameters. An astropy quantity or a mapping of them builds the same vector or distance as the equal unxt quantity, and a vector becomes the astropy quantity of its Cartesian components.",
     "every component value in the domain, the units km/m, rad/deg, s/h, batch shapes () and (2,)", "Tests convert a few values and look at rounded components.",
     ["src/coordinax/_interop/coordinax_interop_astropy/converters.py", "src/coordinax/_interop/coordinax_interop_astropy/constructors.py", "src/coordinax/_interop/coordinax_interop_astropy/distance.py"],
     [("conversion methods", "src/coordinax/_interop/coordinax_interop_astropy/converters.py"), ("from_ overloads", "src/coordinax/_interop/coordinax_interop_astropy/constructors.py")],
     note="Holds for all real inputs in the declared domain. While tracing, astropy's (numpy-backed) representation and quantity classes are replaced by recording stand-ins, subclasses which keep the components they are given; astropy's own conversions between representations are outside. Counterexamples are replayed with astropy itself.")
prop("C26", "A parallax or distance modulus serves as a radius exactly like its distance",
     "A position whose radius or distance component is given as a parallax or a distance modulus is the position with the distance it stands for: its norm, its conversion to other representations and dimensions, its sums and multiples, the velocities and operators applied at it, and the spacetime vectors built from it are those of the position with that distance, and it is accepted exactly when that position would be (a modulus of any sign, a positive parallax).",
     "every positive parallax, every distance modulus, every angle", "The tests use plain quantities or distances for radii almost everywhere.",
     ["src/coordinax/_src/distances/core.py", V + "d1/transform.py", V + "d2/transform.py", V + "d3/transform.py", V + "d3/spherical.py", V + "d3/mathspherical.py", V + "d3/lonlatspherical.py", V + "d2/polar.py", V + "checks.py"],
     [("distance property", "src/coordinax/_src/distances/core.py"), ("use of .distance in conversions", V + "d3/transform.py")])
prop("C28", "Angles and distances compute like the quantities they are",
     "Sines, cosines (of angles) and tangents (of parallaxes), powers and roots, sums, differences, products, quotients, dot products, maxima, comparisons and unit conversions of angles, distances, parallaxes and distance moduli give the same physical value as the same operation on the plain quantities they stand for, whatever units the operands are in and on whichever side a plain quantity stands. Converting them to plain quantities and back keeps value, unit and kind.",
     "every real value (positive parallaxes), the units rad/deg, km/m, mas/arcsec, mag", "Tests take a handful of values in one unit.",
     ["src/coordinax/_src/angles/register_primitives.py", "src/coordinax/_src/angles/compat.py", "src/coordinax/_src/distances/register_primitives.py", "src/coordinax/_src/distances/compat.py"],
     [("primitives of angles", "src/coordinax/_src/angles/register_primitives.py"), ("primitives of distances", "src/coordinax/_src/distances/register_primitives.py"), ("conversion and promotion", "src/coordinax/_src/angles/compat.py")])
prop("C29", "An operator built in any way acts as the operator with those parameters",
     "Building a translation, spacetime translation, boost, velocity boost, rotation, Galilean operator, pipe or identity by a class call or by from_ (array with a unit, quantity, mapping, vector, rotation object, another operator), in any units, gives the operator whose action is determined by exactly those parameters; the items, indices and slices of a Galilean operator or a pipe are the operators it is made of, in order, and compose to the corresponding part of its action.",
     "every parameter value and every event, the listed ways of building", "Tests build one operator of each kind and compare printed objects.",
     [O + "base.py", O + "composite.py", O + "pipe.py", O + "galilean/spatial_translation.py", O + "galilean/translation.py", O + "galilean/rotation.py", O + "galilean/boost.py", O + "galilean/composite.py"],
     [("from_ overloads and converters", O + "base.py"), ("items and slices", O + "composite.py")])
prop("C30", "Results are the same inside jax transformations, and can be differentiated",
     "Converting, adding, scaling, comparing and taking norms of vectors, and applying operators and their inverses, gives inside jit, vmap (over any operand, including the operator or its parameters), scan and cond exactly the result of doing it outside for each element or step. Forward and reverse derivatives of these results are those of the coordinate formulas: the derivative of a converted position along a tangent is the same physical velocity, the reverse derivative is the transpose of the forward one, and the gradient of the norm is the unit radial direction.",
     "every component value, tangent and cotangent; map and scan lengths of 2", "Tests call the library eagerly on fixed vectors, with few exceptions.",
     [V + "base/base.py", V + "base/base_pos.py", V + "transform/d3.py", V + "transform/velocities.py", V + "transform/accelerations.py", O + "base.py", O + "galilean/spatial_translation.py", O + "galilean/rotation.py", O + "galilean/boost.py", O + "galilean/composite.py"],
     [("vectors as pytrees", V + "base/base.py"), ("batched Jacobians", V + "transform/velocities.py"), ("operators as pytrees", O + "base.py")])
prop("C18", "Unrelated frames are reported, never silently transformed",
     "Asking for the transformation from or to the absence of a frame raises an error and never returns an operator.",
     "all frame kinds", "Decided by the dispatch on two constant types.", ["src/coordinax/_src/frames/null.py"], [("frame_transform_op", "src/coordinax/_src/frames/null.py")],
     na="no input value is involved: it is a finite dispatch on constant types with nothing symbolic for a solver to decide")


def main():
    root = os.path.dirname(os.path.abspath(__file__))
    have = {f[:-3].upper() for f in os.listdir(os.path.join(root, "props")) if f.startswith("c") and f.endswith(".py") and f != "common.py"}
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
            for fl in p["files"]:
                assert os.path.exists("/repo/" + fl), fl
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif p["id"] in have:
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                               technique="symbolic execution of the traced jaxpr of the real code; every claim's negation decided by z3 (nonlinear real arithmetic)",
                               level=p["level"],
                               level_note=p["note"] or "Holds for all real inputs in the declared domain and the listed harness shapes/units/kinds; IEEE rounding is outside (reals)."))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na])


main()
