L = "geomc/linalg/"
prop("V01", "Vector arithmetic is componentwise and every access path agrees",
  "For vectors of any dimension and scalar type, +, -, *, /, their compound and scalar forms, comparisons, min/max/clamp/abs/round and the elementwise math functions act on each component independently and exactly as the scalar operation does. Element access by index, by name, by iterator and by constructor always address the same component, and resizing or casting keeps the shared components and zero-fills new ones. Packed-colour construction maps each byte to its channel scaled to [0,1].",
  [L+"Vec.h", L+"vecdetail/VecBase.h", L+"vecdetail/Vec2.h", L+"vecdetail/Vec3.h", L+"vecdetail/Vec4.h", L+"vecdetail/VecStd.h"],
  [("componentwise operators", L+"vecdetail/VecBase.h VecCommon"), ("dimension specialisations", L+"vecdetail/Vec2.h, Vec3.h, Vec4.h")])
prop("V02", "Vector metric operations obey Euclidean geometry",
  "Dot products, lengths, distances, normalisation, projection, fraction-along, interpolation, reflection, bouncing and the angle between vectors equal their Euclidean definitions for every pair of vectors of every dimension. Projecting on an axis leaves a remainder perpendicular to it; operations defined at the zero vector return zero there.",
  [L+"vecdetail/VecBase.h"], [("metric members", L+"vecdetail/VecBase.h VecCommon")])
prop("V03", "Cross products, perpendiculars and rotations of vectors",
  "The 3D cross product is the right-handed one and the 2D perpendiculars are quarter turns. Rotating a vector about an axis, or about an axis through any centre, by any angle is the right-handed rotation by that whole angle, preserving lengths; aligning one direction with another takes the first exactly onto the second.",
  [L+"vecdetail/Vec2.h", L+"vecdetail/Vec3.h"], [("rotate/align/cross", L+"vecdetail/Vec3.h"), ("rotate/perpendicular", L+"vecdetail/Vec2.h")])
prop("V04", "Polar and spherical conversions are correct and round-trip",
  "Conversion of a vector to polar or spherical coordinates yields its length and its true angles (2D angles in [0, 2 pi)), and converting back returns the original vector for every nonzero vector.",
  [L+"vecdetail/Vec2.h", L+"vecdetail/Vec3.h"], [("to_polar/from_polar", L+"vecdetail/Vec2.h"), ("to_spherical/from_spherical", L+"vecdetail/Vec3.h")])
prop("Q01", "Quaternions represent rotations faithfully",
  "Quaternion multiplication is the Hamilton product and multiplying a vector by a unit quaternion rotates it. Conversions to and from axis-angle and angular velocity, direction alignment, scaling of rotations, spherical interpolation, exponential, logarithm and powers agree with the rotation they stand for, for every input including the identity rotation. Interpolation between two orientations follows the shorter arc at constant angular speed and reproduces its endpoints.",
  [L+"Quaternion.h"], [("Quat", L+"Quaternion.h Quat")])
M = L+"mtxdetail/"; T = L+"mtxtypes/"
prop("M01", "Matrix products equal the row-by-column definition for every storage",
  "Multiplying any two matrices of compatible shape - dense in either layout, statically or dynamically sized, diagonal, and matrices with vectors treated as rows or columns - yields the matrix whose entry (r,c) is the sum over k of a(r,k)*b(k,c). The destination's layout and whether it shares storage with a source make no difference to the result.",
  [L+"Matrix.h", M+"MatrixMult.h", L+"Matrix.h"], [("mul", M+"MatrixMult.h"), ("mul/operator*", L+"Matrix.h"), ("diagonal products", M+"MatrixMult.h")])
prop("M02", "Elementwise matrix operations, comparison, identity and copying",
  "Matrix addition, subtraction, scaling by a scalar, comparison, set_zero, set_identity, set, copying and conversion between matrix types act entry by entry on (row, column) positions for every combination of layout, static or dynamic size and storage type. Off-diagonal entries of diagonal matrices are zero and the identity has ones exactly on its main diagonal, square or not.",
  [L+"Matrix.h", M+"MatrixArithmetic.h", M+"MatrixCopy.h", T+"SimpleMatrix.h", T+"DiagMatrix.h", M+"MatrixBase.h"], [("add/sub/scale", M+"MatrixArithmetic.h"), ("copy", M+"MatrixCopy.h"), ("set_identity", M+"MatrixBase.h")])
prop("M03", "Transposition exchanges rows and columns, in place or not",
  "transpose(m) has entry (r,c) equal to m(c,r) for every storage type, shape and layout, whether produced as a new matrix, into a given destination, or into a destination sharing storage with the source; transposed views address the same elements.",
  [L+"Matrix.h", M+"MatrixMult.h", T+"SimpleMatrix.h"], [("transpose", L+"Matrix.h and mtxdetail"), ("as_transpose", T+"SimpleMatrix.h")])
prop("M06", "Permutation matrices behave as the permutation matrices they denote",
  "A permutation matrix built from any permutation reads as the dense 0/1 matrix it denotes; products with dense matrices, with other permutations, transposition, inversion, row and column swaps, comparison and resetting agree with the dense computation, and its sign is the parity of the permutation.",
  [T+"PermutationMatrix.h", M+"MatrixMult.h", L+"Matrix.h"], [("PermutationMatrix", T+"PermutationMatrix.h"), ("permutation_sign", L+"Matrix.h")])
prop("M07", "Matrix element access, iteration and storage agree on one layout",
  "For every matrix type and both layouts, element (r,c) read or written through subscripts, get/set, row, column and region iterators, row handles, flat data iterators and wrappers around caller-owned storage denotes the same element, iteration visits each element of its range once in order, and copies own or share their storage as their type declares.",
  [L+"Matrix.h", M+"MatrixIterator.h", T+"MatrixHandle.h", T+"SimpleMatrix.h", M+"MatrixBase.h", M+"MatrixBase.h"], [("iterators", M+"MatrixIterator.h"), ("storage", M+"MatrixGlue.h")])
prop("M08", "Dimension mismatches found at run time are reported, and nothing else is",
  "For every matrix type (dense of either layout, diagonal, permutation) and vectors, whichever of the dimensions are static: a product (new, into, accumulating, in place), sum, difference, scaling, copy, transpose or inverse whose dimensions do not agree throws DimensionMismatchException (an inverse of a non-square matrix: NonsquareMatrixException) before anything is read or written out of range; when they agree it does not throw and gives the full result. Comparing matrices of different shapes never throws: they are unequal.",
  [L+"Matrix.h", M+"MatrixCopy.h", M+"MatrixGlue.h", M+"MatrixMult.h"], [("mul, mul_acc", L+"Matrix.h mul"), ("MatrixDimensionMatch::check", M+"MatrixGlue.h"), ("mtxcopy", M+"MatrixCopy.h mtxcopy")],
  text="every element value; every agreeing shape and every single disagreement of the operands' shapes around bases up to 2 x 3 x 4, for each choice of which dimensions are static",
  tests="The tests pass almost no operands whose shapes disagree, and each check is a separate condition over which dimensions are static and which disagree.")
prop("I01", "Grid iteration visits every lattice point of its region exactly once, in order",
  "A GridIterator over any inclusive box of lattice points, in either array order and any dimension, starts at the lower corner, visits each point once in the documented order and ends after the last; incrementing, decrementing, advancing by any signed amount, subtraction and comparison of iterators agree with positions in that order.",
  ["geomc/shape/GridIterator.h"], [("GridIterator", "geomc/shape/GridIterator.h")])
prop("M04", "Determinants are correct for every matrix, layout and size",
  "det() and the raw-array determinant functions equal the Leibniz/Laplace determinant for square matrices of any size, either layout, static or dynamic, including diagonal and permutation matrices and matrices needing any sequence of row exchanges; singular matrices have determinant 0, as do non-square dynamically sized ones.",
  [M+"MatrixDet.h", L+"LUDecomp.h"], [("det", M+"MatrixDet.h"), ("decomp_plu", L+"LUDecomp.h")])
prop("M05", "Matrix inverses are correct and singularity is reported exactly",
  "inv() of a dense, diagonal or permutation matrix, and the flat-array inverses, produce the matrix whose product with the argument is the identity, whatever the layouts of source and destination and even when they are the same object; failure is reported exactly when the determinant is zero, leaving the destination unchanged.",
  [M+"MatrixInv.h", L+"LUDecomp.h", L+"Matrix.h"], [("inv", M+"MatrixInv.h"), ("invNxN", M+"MatrixInv.h")])
prop("L01", "LU decomposition and linear solving",
  "decomp_plu and decomp_lup reorder the rows (columns) of any matrix by the permutation they report, with the parity they report, and return triangular factors whose product is the reordered matrix; degenerate matrices are reported. linear_solve and the back-substitution functions return the exact solution of A X = B for any number of right-hand sides, either layout and any number of skipped unknowns, and report degenerate systems.",
  [L+"LUDecomp.h"], [("decomp_plu/decomp_lup", L+"LUDecomp.h"), ("linear_solve", L+"LUDecomp.h")])
prop("L02", "Cholesky decomposition",
  "For every symmetric positive-definite matrix, either layout, static or dynamic, cholesky() succeeds and leaves the unique lower-triangular factor with positive diagonal whose product with its transpose is the argument, with zeros above the diagonal; it reports failure for matrices that are not positive-definite or not square.",
  [L+"Cholesky.h"], [("cholesky", L+"Cholesky.h")])
prop("L03", "Orthogonal complements, null spaces, orthogonalisation and subspace projection",
  "orthogonal() and nullspace() return nonzero, linearly independent vectors perpendicular to every given vector whenever those are independent, and zero vectors when they are not. orthogonalize/orthonormalize keep the first direction and produce the Gram-Schmidt basis; projection on a subspace returns the component in that subspace.",
  [L+"Orthogonal.h", L+"LUDecomp.h"], [("orthogonal/nullspace", L+"Orthogonal.h"), ("orthogonalize", L+"Orthogonal.h")])
prop("A01", "Affine transforms apply, compose and invert consistently",
  "Applying an AffineTransform to a point, direction, normal or the inverse application equals multiplication by its homogeneous matrix (linear part only for directions, inverse transpose for normals); composition in either direction and in place, multiplication and division, inversion, conversion and resizing give the transform whose matrix is the corresponding product, and keep the stored inverse the inverse of the matrix, even when a transform is combined with itself.",
  [L+"AffineTransform.h"], [("AffineTransform", L+"AffineTransform.h AffineTransform")])
prop("A02", "Transformation builders produce the transformation they name",
  "translation, scale, rotation (about an axis, a centre, from a quaternion, in 2D), basis and direction-alignment builders, as AffineTransforms and as raw rotation matrices, produce exactly the named map - right-handed, proper rotations for rotations, with the stored inverse its exact inverse - for every argument, including parallel and opposite directions.",
  [L+"AffineTransform.h"], [("builders", L+"AffineTransform.h"), ("rotmat_*", L+"AffineTransform.h")])
prop("R01", "Rays: points along, projection and distance",
  "at_multiple, at_distance, projection of a point on a ray's line, (squared) distance from a point to the line, negation, resizing and construction of rays in every dimension equal their geometric definitions for non-zero directions of any length.",
  [L+"Ray.h"], [("Ray", L+"Ray.h")])
F = "geomc/function/"
prop("D01", "Dual numbers differentiate exactly",
  "Every arithmetic operation, comparison, in-place operator, mixed scalar form and elementary function of Dual numbers produces the ordinary value together with its exact derivative by the chain rule, wherever the function is differentiable, and the derivative chosen by the discontinuity policy at kinks; Duals nest, convert and work inside complex and generic code with the same results.",
  [F+"Dual.h", F+"functiondetail/DualImpl.h", F+"functiondetail/DualFunctions.h"], [("operators", F+"functiondetail/DualImpl.h"), ("functions", F+"functiondetail/DualFunctions.h")])
prop("U01", "Numeric helpers follow their mathematical definitions for every sign and edge of their arguments",
  "Rounding division, snapping, positive modulus, powers of two, clamping, linear and cubic interpolation in any number of dimensions, quadratic root finding, angle differences and angle unit conversion equal their mathematical definitions for every argument: negative operands, repeated roots, interval ends and degenerate coefficients included.",
  [F+"Utils.h", F+"functiondetail/UtilDetail.h"], [("helpers", F+"Utils.h"), ("UtilDetail", F+"functiondetail/UtilDetail.h")])
prop("F01", "Orthogonal polynomials and ray-knot paths evaluate to their definitions",
  "legendre(), the associated Legendre functions, their integral and both kinds of Chebyshev polynomials equal the textbook polynomials of each order at every argument. A Path passes through its knots with their directions, blends the two neighbouring tangent lines with the quintic ease between them, extrapolates linearly beyond both ends, and is zero when it has no knots.",
  [F+"Basis.h", F+"Path.h"], [("legendre/chebyshev", F+"Basis.h"), ("Path::eval", F+"Path.h Path")])
S = "geomc/shape/"
prop("S01", "Axis-aligned boxes: membership, set operations, distances and ray hits",
  "For real and integer boxes of every dimension: contains, intersects (boxes are closed: sharing a boundary point counts), intersection, hull, extension, exclusion, dimensions, centre, volume, clamping, slicing, dilation and translation equal the corresponding point-set definitions, empty boxes included. Signed distance, projection and normal refer to the truly nearest surface point, the support point attains the maximum over the box, and a ray meets a box exactly in the reported interval.",
  [S+"Rect.h"], [("Rect", S+"Rect.h Rect"), ("Rect::intersect(Ray)", S+"Rect.h Rect::intersect")])
prop("S02", "Round shapes (spheres, capsules, cylinders, dilated shapes): membership, distance, projection, support, bounds, ray hits",
  "For every sphere, capsule, cylinder and dilated shape, in any position and orientation: contains() holds exactly on the closed solid; sdf() is the exact signed distance; project() and normal() refer to the nearest surface point; convex_support() attains the maximum; bounds() is the tightest box; overlap tests between spheres, boxes and capsules agree with the distance between them, whichever side asks; and a ray meets a sphere or cylinder exactly in the reported interval, with misses and empty results distinguished.",
  [S+"Sphere.h", S+"Capsule.h", S+"Cylinder.h", S+"Dilated.h"], [("Sphere", S+"Sphere.h Sphere"), ("Capsule", S+"Capsule.h Capsule"), ("Cylinder", S+"Cylinder.h Cylinder"), ("Dilated", S+"Dilated.h Dilated")])
prop("S03", "Planes and transformed shapes: half-spaces, intersections, and shapes seen through affine transforms",
  "Distance, projection and containment of a plane agree with its unit normal and offset however it was built (normal and point, basis vectors, points); containment and intersection of spheres, boxes and point hulls agree with their extent along the normal; a transformed plane passes through the transformed points and keeps every point on its side. A transformed shape contains exactly the transformed points of the body shape, its support point, bounds and volume are those of the transformed set (reflections included), ray parameters are preserved, composition of transforms leaves the body unchanged, and the box-box overlap tests are exact.",
  [S+"Plane.h", S+"Oriented.h", S+"shapedetail/SeparatingAxis.h"], [("Plane", S+"Plane.h Plane"), ("Oriented", S+"Oriented.h Oriented"), ("RectIntersector", S+"shapedetail/SeparatingAxis.h")])
prop("F02", "Perlin noise is gradient noise, and its gradient is exact",
  "PerlinNoise in any dimension blends, with the quintic ease, the dot products of the fractional position with the gradients of the surrounding lattice points, which depend on the lattice point alone; it vanishes at lattice points, gradient() is the exact derivative of eval() in every cell including negative ones, and get() of both agrees with each separately.",
  [F+"PerlinNoise.h"], [("PerlinNoise", F+"PerlinNoise.h PerlinNoise")])
prop("F04", "Rasters return the stored samples and interpolate between them under every edge behaviour",
  "For grids of any size, channel count and dimension, stored samples are returned at their grid coordinates; coordinates outside are clamped, wrapped, mirrored or replaced by the abyss value as the edge behaviour says, chosen statically or at run time; nearest, linear and cubic sampling at any position equal the tensor-product interpolation of the surrounding samples; the ends of the domain are the first and last samples; set() changes one sample and nothing outside the grid; copy() yields the region first coordinate first.",
  [F+"Raster.h", F+"functiondetail/RasterDetail.h"], [("Raster", F+"Raster.h Raster"), ("edges", F+"functiondetail/RasterDetail.h")])
prop("F03", "Spherical and zonal harmonics: orthonormal basis, projection, rotation-free products and conversions",
  "SphericalHarmonics and ZonalHarmonics of every band count evaluate, in any direction, the sum of their coefficients times the orthonormal real spherical harmonic basis; conversions between the two, dot products (of different band counts too), sums and scalings, normalization, band projection, convolution and the Lambertian kernel agree with that definition, and nothing is read outside of the stored coefficients.",
  [F+"SphericalHarmonics.h"], [("SphericalHarmonics", F+"SphericalHarmonics.h SphericalHarmonics"), ("ZonalHarmonics", F+"SphericalHarmonics.h ZonalHarmonics")])
prop("C01", "SmallStorage is a dynamic array: contents, element lifetimes and storage are right in every state",
  "Whether its items are inside the object or on the heap, a SmallStorage holds after every operation (adding, also of its own items, removing, resizing, reserving, clearing, copy, move, self assignment, swap, comparison) exactly the sequence of items that operation describes. Every item is constructed once, used only while alive and destroyed once; no storage is accessed out of bounds, used after release, released twice or leaked; a moved-from array is empty and usable; copies are independent.",
  ["geomc/SmallStorage.h"], [("SmallStorage", "geomc/SmallStorage.h SmallStorage")])
prop("C02", "Deque is a double-ended queue: contents, element lifetimes and storage are right in every state",
  "For every static capacity (zero included), wherever its first item lies in the circular buffer, a Deque holds after every operation (pushing and popping at both ends, also of its own items, indexing with wrap-around and negative indices, reserving, clearing, copy, move, self assignment, swap, comparison) exactly the sequence that operation describes. Every item is constructed once, used only while alive and destroyed once; no storage is accessed out of bounds, used after release, released twice or leaked; a moved-from deque is empty and usable; copies are independent.",
  ["geomc/Deque.h"], [("Deque", "geomc/Deque.h Deque")])
prop("C03", "Storage arrays follow their ownership policy",
  "Copies of unique storage are independent arrays, moves transfer the array and leave nothing behind; copies of shared dynamic storage are the same array, which lives until its last owner goes; wrapped storage refers to the caller's memory and never releases it; statically sized storage lives inside the object. Sizes are those given, nothing is read out of bounds, released twice or leaked.",
  ["geomc/Storage.h"], [("UniqueStorage", "geomc/Storage.h UniqueStorage"), ("GenericStorage", "geomc/Storage.h GenericStorage"), ("SizedStorage", "geomc/Storage.h SizedStorage")])
prop("C04", "Trees keep their nodes, their items and the ranges between them through any history of edits",
  "After any sequence of insertions of child nodes and items (one or several), erasures, clearing, flattening and adoption of subtrees, at any node, a Tree has exactly the nodes, in order, with the data, and at every node exactly the range of items, that the edits describe; parents, counts, successors and the results of every edit agree. Copies and moved trees are equal to their source and independent of it. Searches bounded by predicates visit the subtree, all of it and nothing else. Erasing what does not belong to the node, or the end, is refused and changes nothing. No node or item is used after its removal, released twice or leaked.",
  ["geomc/Tree.h"], [("Tree", "geomc/Tree.h Tree"), ("Subtree", "geomc/Tree.h Subtree"), ("ConstSubtree", "geomc/Tree.h ConstSubtree")])
R = "geomc/random/"
prop("P01", "Generators produce their published bit streams, wholly determined by the seed",
  "The linear congruential generator, the Mersenne twister and the xoshiro256++ generator return, for every seed, the words their published recurrences define, of every length of draw examined; a xoshiro generator seeded from an entropy array or from a function takes it as given. Reseeding a generator, whatever was drawn from it before, makes everything drawn afterwards (booleans, integers, reals) the same as from a new generator with that seed. Consecutive booleans are the consecutive bits of consecutive words.",
  [R+"LCRand.cpp", R+"MTRand.cpp", R+"Xorshiro.h", R+"Random.cpp"], [("LCRand", R+"LCRand.cpp LCRand"), ("MTRand", R+"MTRand.cpp MTRand"), ("XoshiroRand", R+"Xorshiro.h XoshiroRand")])
prop("P02", "Random integers and reals are uniform for uniform bits",
  "From any source of uniform 32-bit words: rand<T>() of an integer type covers the type's whole range, each value once; rand(bound) gives each value from 0 up to the bound (negative bounds: down to it) for exactly equally many words, whatever the size of the bound, by rejecting the words of the incomplete last chunk; rand(lo, hi) does so for any two ends in either order, even when their distance exceeds the greatest value of the type; an empty range gives its end. Reals in [0,1] have their binade decided by coin flips (each binade half as likely as the one above), their mantissa by fresh bits, with the lower end of each binade shared evenly, so every representable number is drawn with the chance of its neighbourhood; bounds and ranges scale that linearly.",
  [R+"Random.cpp"], [("bounded integers", R+"Random.cpp Random::rand<unsigned>(unsigned)"), ("reals", R+"Random.cpp Random::rand<double>()")])
prop("P03", "Random points are uniform over the region they are drawn from; permutations are equally likely",
  "Given independent uniform numbers, every sampler of points (unit vectors, solid balls, shells, boxes, spherical caps about any axis, solid caps, oriented disks, arcs and plane sectors, simplices, rectangles and spheres) yields only points of its region and fills it with constant density: its map from the uniform numbers onto the region covers it and has a constant Jacobian, or it keeps the first candidate of a uniform sequence to fall in the region. Shuffling an array or vector yields each of the n! orders from exactly one of the n! equally likely sequences of choices, and loses or repeats no item.",
  [R+"RandomTools.h", R+"SampleGeometry.h"], [("Sampler", R+"RandomTools.h Sampler"), ("permute", R+"RandomTools.h permute"), ("SampleShape", R+"SampleGeometry.h SampleShape")])
prop("S05", "Barycentric coordinates decide what a simplex contains, measures, and is hit by",
  "A simplex holds a point exactly when the point is a convex combination of its vertices (a simplex of fewer than N + 1 vertices holds a measure-zero set and reports no point of its own, an empty one none); its volume is the magnitude of the determinant of its edges over N!, its measure that of the Gram determinant, never negative and whatever the vertex order; a ray hits it exactly when some point of the ray is a convex combination of the vertices, over exactly that range of the parameter; trace_simplex, is_facing, convex_support, bounds, insertion, equality and the standard simplex agree with those coordinates.",
  [S+"Simplex.h", S+"Intersect.h"], [("Simplex", S+"Simplex.h Simplex"), ("trace_simplex", S+"Intersect.h trace_simplex")])
prop("S06", "The nearest point of a simplex is nearest",
  "clip() of a point to a simplex (of any count of vertices) gives the point of the simplex with the least distance to it: the residual satisfies the optimality inequality against every vertex, and the result is a convex combination of the vertices. Outside, sdf() is the distance to that point and project() the point itself; inside a full simplex, sdf() is minus the distance to the nearest facet's plane and project() its foot; normal() is of unit length and is the direction in which the signed distance increases.",
  [S+"Simplex.h", S+"shapedetail/SimplexProject.h"], [("nearest face", S+"shapedetail/SimplexProject.h"), ("Simplex::clip", S+"Simplex.h Simplex::clip"), ("Simplex::normal", S+"Simplex.h Simplex::normal")])
prop("S04", "Extrusions and frustums are the shapes their base and height range define",
  "For every base shape, whatever its own answers: an extrusion holds the points whose height is in range and whose cross-section point is in the base; its signed distance, normal and projection follow from the base's and the distance to the nearer cap, inside and out; its support point, bounds and ray range follow likewise (a ray's range is exactly the parameters of the points it holds). A frustum holds the points that scale to a point of the base at height 1, within the height range clipped at the origin, on either side of it; its support point is the farthest in every direction, its bounds hold it and touch it, and a ray's range over it is exactly the parameters of the points it holds, also for rays through the tip, in the tip's plane, along the height axis, or entering behind their origin.",
  [S+"Extruded.h", S+"Frustum.h"], [("Extruded", S+"Extruded.h Extruded"), ("Frustum", S+"Frustum.h Frustum")])
prop("H01", "Hashing agrees with equality",
  "Every type the library declares hashable can be hashed, to 32 or 64 bits and by std::hash. Objects that compare equal have equal hashes, whatever representation they have: zeros of either sign, the unused vertices of a simplex and unused storage never reach the hash. Equal hashes of standard containers and tuples follow from equal elements.",
  ["geomc/Hash.h", "geomc/linalg/Vec.h", S+"Simplex.h", "geomc/linalg/Ray.h", S+"Rect.h"], [("geom::hash", "geomc/Hash.h hash"), ("Digest", "geomc/Hash.h Digest")])
prop("T01", "Every part of the interface can be used",
  "Each public header can be included on its own. Each class template of the interface compiles, with every one of its members, for the element types and dimensions it is offered for. A shape that claims a concept (Bounded, Convex, RayIntersectable, SdfEvaluable, Projectable) provides all of that concept's operations, and a shape built out of another (dilated, extruded, frustum, oriented) claims those concepts which the shape it is built from has.",
  ["geomc/", S+"Shape.h", "geomc/linalg/Matrix.h"], [("headers", "geomc/**/*.h"), ("implements_shape_concept", S+"Shape.h implements_shape_concept")],
  technique="front-end type checking of the current headers: standalone inclusion, explicit template instantiation of every class (all member bodies), and type-level claims (concept => operations) as static assertions",
  tests="Members of templates are type-checked only where a program uses them; the tests use a fraction of the members, types and dimensions.", text="every public header; every member of every class template at the listed element types and dimensions",
  note="Decided by the compiler's type checker on the current tree, at the instantiations listed in the evidence. Nothing is executed; it says nothing about the values the members compute (the other properties do).")
prop("T02", "Linear algebra accepts exactly the operands whose dimensions agree",
  "Whether all dimensions are static, some are dynamic, and whatever the matrix types (dense of either layout, diagonal, permutation, handle) or vectors: a product, sum, difference, comparison, copy, scaling, transpose, inverse, assignment, linear map of a vector or affine transformation whose operand and destination dimensions may agree is accepted by the compiler; one whose static dimensions cannot agree is rejected. Matrices of any two kinds can be multiplied, added and compared.",
  ["geomc/linalg/Matrix.h", "geomc/linalg/mtxdetail/MatrixGlue.h", "geomc/linalg/mtxdetail/MatrixMult.h", "geomc/linalg/AffineTransform.h"], [("MatrixMultipliable", "geomc/linalg/mtxdetail/MatrixGlue.h MatrixMultipliable"), ("MatrixDimensionMatch", "geomc/linalg/mtxdetail/MatrixGlue.h MatrixDimensionMatch")],
  technique="type-level encoding: each (operation, operand types) combination is a requires-expression decided by overload resolution, compared with the dimension rule; expected rejections are compile-fail witnesses",
  tests="A test cannot contain a call that must not compile, and the tests use few of the combinations that must.", text="every combination of operand types at static dimensions 2, 3 (and 4 for vectors) and dynamic ones",
  note="Decided by the compiler's overload resolution at dimensions 2, 3, 4 and dynamic; the dimension rule is uniform in the static dimensions. Dimension agreement which can only be known at run time is outside.")
