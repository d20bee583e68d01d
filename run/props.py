"""Source of properties.jsonl and MANIFEST.json (see mkmanifest.py)."""
BVH = ['source/bvh.cpp', 'include/math/bvh.hpp']
WHY_BVH = 'The repository has no BVH test at all; a test samples a handful of scenes, the guarantee is about every scene and every sequence of rebuilds.'
NOTE = ('The TLA+ machine is model-checked exhaustively for small constants; the real code is bound to it by traces: TLC decides every recorded '
        'event of TLC-generated and seeded random drivers. Beyond the recorded runs it is exploration. Trusts TLC, g++ and the harness encoding.')
P = []
def add(id, title, statement, text, why, files, mech, note=NOTE, **kw):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, note=note, **kw))

add('B01', 'A built BVH partitions the primitives',
    'After any build, every primitive belongs to exactly one leaf, the leaves own disjoint ranges of the primitive order that together are a permutation of all primitives, every inner node has exactly two children stored next to each other after it, and there are at most 2n-1 nodes. The root box is the box the caller gave, and the node stack is left empty.',
    'every primitive set (boxes or indexed triangles), every vertex stride and index size, every sequence of rebuilds of one container', WHY_BVH, BVH,
    [('recreate', 'source/bvh.cpp recreate'), ('subdivide / partition', 'source/bvh.cpp subdivide')], over=['inputs', 'histories'])
add('B02', 'Every BVH node box is the exact bound of its primitives',
    'The box of every node except the root is exactly the smallest box around all primitives stored beneath it, so it encloses each of them and contains the boxes of its children, whatever the unused fourth lanes of the inputs hold.',
    'every primitive set, index format and stride, and every rebuild history', WHY_BVH, BVH,
    [('calculateNodeAabb', 'source/bvh.cpp calculateNodeAabb')], over=['inputs', 'histories'])
add('B03', 'BVH construction is total and memory safe',
    'For every nonempty set of finite primitives, including coincident, flat, huge, tiny and denormal ones and arbitrary caller centroids, construction terminates without touching memory outside its inputs and its own storage, and the result is still a valid partition.',
    'every finite primitive set and centroid array', WHY_BVH, BVH,
    [('bin index, split axis, partition loop', 'source/bvh.cpp')], over=['inputs', 'histories'])
add('B04', 'BVH queries are complete, pruned and never repeat',
    'A traversal tests the root first, then exactly the children of accepted inner nodes, reports each accepted leaf once with its own primitive range and never anything below a refused node. A frustum query returns, once each, exactly the primitives of the leaves whose path of boxes is not behind any of the planes. Both leave the node stack empty and return nothing on an empty container. A query with a stack of the caller neither uses nor disturbs the internal one, so it can run inside a traversal and from several threads at once, and containers never disturb each other.',
    'every tree, every accept/refuse history of the callback, every plane set, caller-supplied or internal stack', WHY_BVH, BVH,
    [('traverse', 'include/math/bvh.hpp traverse'), ('collectInFrustum', 'source/bvh.cpp collectInFrustum')], over=['inputs', 'histories'])
add('B05', 'BVH splits minimise the surface area heuristic',
    'Every inner node is split at the cheapest of the equal-width bin planes over the three centroid axes by the surface area heuristic, and only when that is cheaper than keeping the node whole; a leaf with more than two primitives has no improving plane.',
    'every primitive and centroid set whose bins single precision evaluates exactly', WHY_BVH, BVH,
    [('findBestSplitPlane / cost', 'source/bvh.cpp')], over=['inputs'])
add('B06', 'BVH result depends only on the input values',
    'The tree built for a given input does not depend on what the container held before, on whether it was built by constructor or by recreate, on the stride or the width of the indices, or on precomputed centroids equal to the ones the library computes.',
    'every rebuild history and every encoding of the same triangles or boxes', WHY_BVH, BVH,
    [('recreate overloads', 'source/bvh.cpp recreate')], over=['histories', 'inputs'])
WHY_GEO = 'There are no tests of the geometric primitives; a sampled box or ray cannot settle a claim about every pair, and the edge and degenerate cases (touching, parallel, inside out) are exactly the ones samples miss.'
GEO_NOTE = ('The geometric laws are proved by TLC on the specification over small lattices (exhaustively); the real code is bound by traces over lattice inputs on '
            'which single precision is exact, or with a stated tolerance where it is not, in several instruction-set builds. Inputs off the lattice are not covered.')
def ag(id, title, statement, text, files, mech, **kw):
    add(id, title, statement, text, WHY_GEO, files, mech, note=GEO_NOTE, **kw)
ag('A01', 'Axis-aligned boxes behave as closed point sets',
   'A box stays ordered under every sequence of its mutators; a mutator that takes corners refuses nothing valid and its refusing variant rejects exactly the disordered ones and changes nothing. Extending gives the smallest box around both, shrinking the intersection, and all queries (size, centre, extent, area, volume, containment, overlap, closest point, equality) are those of the closed point set, the unused fourth lanes having no influence.',
   'every box and every sequence of operations on it', ['include/math/aabb.hpp', 'source/aabb.cpp'],
   [('mutators and queries', 'include/math/aabb.hpp Aabb'), ('closed set tests', 'include/math/aabb.hpp isInside, isIntersected')], over=['histories', 'inputs'])
ag('A02', 'Ray against box gives the exact parameter interval',
   'A ray hits a closed box exactly when some point of the ray at a parameter not below zero lies in it, and the two reported parameters are where its carrier enters and leaves the box; a miss is reported as the empty interval. Axes on which the direction is zero decide by the origin alone, and a ray that was precomputed answers as the plain one does. Through every sequence of its mutators a ray keeps naming exactly the axes it is parallel to, and rays are equal exactly when origin and direction are.',
   'every ray, box and combination of zero direction components, the origin inside, on or outside the box, and every history of the ray', ['include/math/ray.hpp', 'include/math/aabb.hpp'],
   [('raycast', 'include/math/aabb.hpp raycast2I, raycast2'), ('Ray', 'include/math/ray.hpp Ray')], over=['histories', 'inputs'])
ag('A03', 'Triangle against box decides by separation, touching included',
   'A triangle and a closed box are reported as meeting exactly when no separating axis exists, including for triangles that only touch the box or degenerate to a segment or a point.',
   'every triangle and every box', ['source/aabb.cpp', 'include/math/aabb.hpp'], [('thirteen axis test', 'source/aabb.cpp isAabbIntersected')])
ag('A04', 'Frustum culling never drops a visible box',
   'A transformed box is reported as behind a frustum exactly when some plane has all eight transformed corners strictly behind it; so a box with a point inside every plane is never culled, and a box in front of or touching a plane is not culled by that plane.',
   'every box, affine model matrix and set of planes', ['include/math/aabb.hpp'], [('isBehindFrustum', 'include/math/aabb.hpp isBehindFrustum')])
ag('G01', 'Planes measure signed distance to their points',
   'The signed distance of a point to a plane is positive on the side of the normal and zero exactly on the plane; normalising scales normal and distance together and changes no side; a plane built from a triangle, also from one without area, contains its three corners; the closest point lies on the plane along the normal; planes are equal exactly when normal and distance are equal numbers.',
   'every plane, point and triangle', ['include/math/plane.hpp'], [('distance, normalize, triangle plane', 'include/math/plane.hpp')])
ag('G02', 'Closest points and containment of lines, rays, spheres, triangles',
   'The closest point reported for a line segment (also one of zero length), a ray (also one far from the origin), a sphere (also for its center) or a triangle (also one without area) lies in that set and no other point of the set is nearer. Barycentric coordinates sum to one and reproduce the point, containment in a triangle or a sphere agrees with geometry, and the operators of a primitive move or scale every one of its points (a translation leaves the direction of a ray alone). Two primitives are equal exactly when their points are, whatever the unused lanes hold.',
   'every primitive and query point, boundary points included', ['include/math/line.hpp', 'include/math/ray.hpp', 'include/math/sphere.hpp', 'include/math/triangle.hpp', 'include/math/plane.hpp'],
   [('closestPoint', 'include/math/{line,ray,sphere,triangle}.hpp'), ('isInside, barycentric', 'include/math/triangle.hpp')])
ag('G03', 'Projections and extracted frustum planes describe one volume',
   'A perspective projection sends the near and far distance to the ends of the depth range (reversed and infinite variants accordingly) and the half angle to the edge of the screen, an orthographic one maps its box onto the clip cube; the six planes extracted from a matrix are exactly its clip inequalities, and normalising them moves no point to another side.',
   'every field of view, aspect, near, far and box, and every point', ['include/math/matrix/projection.hpp', 'include/math/plane.hpp', 'include/math/simd/matrix/float.hpp'],
   [('calc*Proj', 'include/math/matrix/projection.hpp'), ('extractFrustumPlanes', 'include/math/plane.hpp')])
WHY_V = 'The existing vector tests compare a few fixed operands; the guarantee is about every operand pair, every lane, every sequence of operators and every instruction set the library selects at compile time.'
V_NOTE = ('The arithmetic of the specification (words of limbs modulo 2^32, extended reals) is proved by TLC exhaustively at a small width; the real code is bound by traces of '
          'random, edge-value and TLC-generated operator sequences in SSE2, SSE4.1, AVX2 and portable builds. Operand values outside the recorded traces are not covered; signed overflow is wrapped (-fwrapv).')
def av(id, title, statement, text, files, mech, **kw):
    add(id, title, statement, text, WHY_V, files, mech, note=V_NOTE, **kw)
SC = ['include/math/vector/int.hpp', 'include/math/vector/uint.hpp']
SI = ['include/math/simd/vector/int.hpp', 'include/math/simd/vector/uint.hpp']
av('V01', 'Integer vectors are lanes of 32-bit words',
   'Every operator of int2..4 and uint2..4 acts on each lane independently as arithmetic modulo 2^32 (division truncating, shifts and order by signedness); vector-vector, vector-scalar, scalar-vector and compound forms agree, comparisons give all-ones or zero masks, the compound forms return the vector itself, and mask queries, selection, minimum, maximum and clamp follow the lanes.',
   'every operand, every operator form and every sequence of compound operators and lane stores on one vector', SC,
   [('operators', 'include/math/vector/int.hpp, uint.hpp'), ('min, max, clamp, select, mask queries', 'include/math/vector/int.hpp, uint.hpp')], over=['inputs', 'histories'])
av('V02', 'SIMD integer vectors equal the scalar ones on every instruction set',
   'i32x4 and u32x4 give, on SSE2, SSE4.1, AVX2 and the portable path, exactly the lanes of word arithmetic modulo 2^32: operators in every form, unsigned order and extrema over the whole range, shifts, bit clear, selection by the mask sign, mask queries and reductions over four and three lanes.',
   'every operand and operator form, on every instruction-set path the library has for x86 and on the portable one', SI,
   [('operators and comparisons', 'include/math/simd/vector/int.hpp, uint.hpp'), ('select, mask queries, reductions', 'include/math/simd/vector/int.hpp, uint.hpp')], over=['inputs', 'histories'])
av('V03', 'Float vectors are lanes of IEEE arithmetic',
   'Every operator of float2..4 acts on each lane as IEEE-754 single precision does, infinities, signed zeros and not-a-number included, all operator forms agreeing; comparisons with not-a-number are false, rounding, selection, extrema, lerp, repeat, mod and gain follow their definitions, and dot, cross, length, distance and normalisation are those of Euclidean geometry.',
   'every operand, operator form and sequence of operators', ['include/math/vector/float.hpp', 'include/math/common.hpp'],
   [('operators', 'include/math/vector/float.hpp'), ('geometric functions', 'include/math/vector/float.hpp dot, cross, normalize'), ('lerp, repeat, mod, gain', 'include/math/vector/float.hpp')], over=['inputs', 'histories'])
av('V04', 'SIMD float vectors equal the scalar ones on every instruction set',
   'f32x4 gives, on SSE2, SSE4.1, AVX2 and the portable path, the lanes of IEEE arithmetic in every operator form; the three-lane functions ignore the fourth lane; rounding modes, extrema, selection, fused multiply-add and reductions follow their definitions; and the vectorised exponent, logarithm, power, sine and cosine obey the functional equations, special values and signs of those functions.',
   'every operand, operator form and sequence, on every instruction-set path', ['include/math/simd/vector/float.hpp'],
   [('operators', 'include/math/simd/vector/float.hpp'), ('log, exp, pow, sinCos', 'include/math/simd/vector/float.hpp')], over=['inputs', 'histories'])
av('V05', 'Vectors are built, swizzled and converted lane by lane',
   'Every constructor concatenates its parts in order and repeats the last one to fill the vector, swizzles and truncations pick exactly the named lanes, named constants are what they say, the text of a vector lists its lanes, and conversions between signed, unsigned and float lanes (scalar and SIMD, up to the full 32-bit range) keep each representable value and truncate toward zero.',
   'every combination of parts, every swizzle, every lane value including the upper half of the unsigned range', SC + SI + ['include/math/vector/float.hpp', 'include/math/simd/vector/float.hpp'],
   [('constructors', 'include/math/vector/*.hpp, include/math/simd/vector/*.hpp'), ('conversions, swizzle', 'include/math/simd/vector/*.hpp')])
av('V06', 'Binary ordering is a strict total order consistent with equality',
   'isBinaryLess of vectors, boxes, SIMD matrices and colours is irreflexive, transitive, and total on values that differ in their significant components, so they can be keys of ordered containers.',
   'every set of values, including ones that differ only in the last component', SC + ['include/math/vector/float.hpp', 'include/math/aabb.hpp', 'include/math/matrix/float.hpp'],
   [('isBinaryLess', 'include/math/**/*.hpp isBinaryLess')])
WHY_M = 'The repository tests a few fixed matrices; the guarantee is about every matrix, every operand and every sequence of operators, in every instruction-set build.'
M_NOTE = ('Matrix and rotation algebra is specified over exact integers and its laws are model-checked by TLC for small entries; the real code is bound by traces of random, '
          'edge and TLC-generated operation sequences whose values single precision represents exactly, or with a stated tolerance where it cannot. Other values are not covered.')
def am(id, title, statement, text, files, mech, **kw):
    add(id, title, statement, text, WHY_M, files, mech, note=M_NOTE, **kw)
MF = ['include/math/matrix/float.hpp', 'include/math/matrix.hpp', 'include/math/simd/matrix/float.hpp']
am('M01', 'Matrix operators are those of column-major linear algebra',
   'Constructors by rows and by columns, element and column access and memory layout agree; sum, difference, product and quotient by scalars act on every element, the product of matrices and of a matrix and a vector is the algebraic one with columns stored first, transposition, equality (of the elements as numbers, so zeros of either sign are equal) and the three-by-three variants follow, an operand may be the matrix itself or one of its elements, and compound forms return the matrix itself.',
   'every matrix type, operand and sequence of operators and column stores', MF,
   [('operators', 'include/math/matrix/float.hpp'), ('SIMD operators', 'include/math/simd/matrix/float.hpp')], over=['inputs', 'histories'])
am('M02', 'Matrix inverse is the inverse on both sides',
   'For every regular matrix the inverse times the matrix and the matrix times the inverse are the identity, the determinant is the algebraic one, and the four-by-four SIMD inverse agrees with the scalar one.',
   'every regular matrix of every square type', MF,
   [('inverse, determinant', 'include/math/matrix/float.hpp'), ('inverse4x4', 'include/math/simd/matrix/float.hpp')])
am('M03', 'Matrix conversions keep the common block',
   'Converting between matrix sizes keeps the elements both share and takes the rest from the arguments or the identity, and SIMD and scalar matrices convert to each other without change.',
   'every pair of matrix types and every content', MF, [('converting constructors and casts', 'include/math/matrix/float.hpp, include/math/simd/matrix/float.hpp')])
XF = ['include/math/matrix/transform.hpp', 'include/math/quaternion.hpp']
am('T01', 'Model matrices compose and take apart consistently',
   'Translating, scaling and rotating a matrix on either side is multiplying it by the elementary transform on that side; a matrix built from position, rotation and scale applies scale, then rotation, then translation, and extracting position, rotation and scale gives back what it was built from; the inverse of a translated and rotated matrix undoes it.',
   'every position, rotation and positive scale, every sequence of compositions', XF,
   [('translate, scale, rotate, calcModel', 'include/math/matrix/transform.hpp'), ('extract*, inverseTransRot', 'include/math/matrix/transform.hpp')], over=['inputs', 'histories'])
am('T02', 'Quaternions form the rotation group',
   'The product is the Hamilton product and rotates by the right factor first, conjugate and inverse undo the rotation, a vector is turned as by the matrix of the quaternion, the angle-axis constructor turns by that angle about that axis, and slerp moves at constant speed along the shorter arc from one end to the other.',
   'every quaternion, vector, angle, axis and sequence of products', ['include/math/quaternion.hpp'],
   [('operator*, inverse, conjugate', 'include/math/quaternion.hpp'), ('slerp', 'include/math/quaternion.hpp')], over=['inputs', 'histories'])
am('T03', 'Euler angles and look-at frames describe the same rotation',
   'A quaternion from Euler angles turns about X, then Y, then Z, and the extracted angles are angles of the same rotation; look-at matrices and quaternions are right-handed orthonormal frames facing the target with the second axis on the side of up, the view matrix being their inverse with the viewer at the origin, and a look-at quaternion along up itself, once normalised, still faces there; degrees and radians convert both ways.',
   'every angle triple, viewer, target and up vector (for matrices, not parallel to the view)', XF + ['include/math/angles.hpp'],
   [('fromEulerAngles, extract*', 'include/math/quaternion.hpp'), ('lookAt, lookAtQuat, rotate', 'include/math/matrix/transform.hpp')])
WHY_V = 'The tests of these types sample single values, or there are none; the claim is about every value, width and history of operations, including the boundary values samples miss.'
V_NOTE = ('The laws of the value types are checked by TLC on the specification (exhaustively at small width); every recorded call of the real code, over edge-biased random, '
          'exhaustive (where small) and TLC-generated inputs, has to be a step of the specification. Values outside those drivers are not covered.')
def ac(id, title, statement, text, files, mech, **kw):
    add(id, title, statement, text, WHY_V, files, mech, note=V_NOTE, **kw)
ac('P01', 'Packed vectors are independent sequences of small elements',
   'A packed vector of 1, 2 or 4 bit elements behaves as a sequence: new elements are zero, a store keeps the low bits of the value in exactly that element of exactly that container, resizing keeps the common prefix and adds zeros, and copies, moves, swaps, clears, reallocations and the inherited container operations leave every container with its own contents. Elements are stored from the low bits of each byte up in the smallest number of bytes.',
   'every element width, index, value and history of operations on several containers', ['include/math/packed-vector.hpp'],
   [('set, get, resize', 'include/math/packed-vector.hpp PackedVector')], over=['histories', 'inputs'])
ac('C01', 'Hexadecimal text is the number, both ways',
   'Converting an integer of any width to hexadecimal gives upper case digits, most significant first, of the requested length: the low digits when it is short, zero padded when it is long, twice the byte count by default. Parsing text of either case gives the number it denotes, so the default text of every value reads back as that value.',
   'every integer type and value and every length (lengths beyond the type for non-negative values)', ['include/math/hex.hpp'],
   [('toHex, toInt32, toInt64', 'include/math/hex.hpp')])
ac('C02', 'Colours convert without loss and round to nearest',
   'A colour keeps its four channel bytes through every form: constructors, 32-bit word, hexadecimal with six or eight digits, decimal text, normalised floats, single channel getters and setters, and linear colour. Normalised values are clamped to zero and one and rounded to the nearest byte by every constructor and setter alike; linear light follows the sRGB curve, any linear value gives the byte nearest on that curve; comparisons hold when they hold for all four channels, and named constants have their values.',
   'every channel value and every finite normalised input', ['include/math/color.hpp', 'include/math/color-space.hpp'],
   [('constructors, conversions, setNorm', 'include/math/color.hpp Color')])
ac('C03', 'Versions are ordered lexicographically and encode losslessly',
   'A version keeps its four parts through its 32-bit encoding (major part highest), indexing and text, and all six comparisons are those of the lexicographic order from the major part down.',
   'every pair of versions', ['include/math/version.hpp'], [('encoding and comparison', 'include/math/version.hpp Version')])
ac('C04', 'Enum flag operators are bit set operations of the full width',
   'For a flag enum of any width the operators are union, intersection, symmetric difference and complement of bit sets, compound forms store the result in and return their left operand, logical not tells whether the set is empty, and the tests for any and for only the given flags are the set-theoretic ones.',
   'every enum width from 8 to 64 bits, signed or not, and every pair of values', ['include/math/flags.hpp'], [('operators', 'include/math/flags.hpp DECLARE_ENUM_CLASS_FLAG_OPERATORS')])
ac('C05', 'Scalar helper functions obey their laws',
   'Minimum and maximum of three, sign, interpolation (frame-rate independent in its delta form), repetition into the unit interval, gain symmetric about one half, and degree to radian conversions there and back have their defining values, the vector forms acting lane by lane.',
   'every argument on the lattice', ['include/math/common.hpp', 'include/math/angles.hpp'], [('scalar functions', 'include/math/common.hpp'), ('radians, degrees', 'include/math/angles.hpp')])
ac('R01', 'Mip chains halve down to one',
   'A mip chain has one more level than the floor of the binary logarithm of the largest extent, exactly, for every 32-bit size; each level is the size shifted right by the level but at least one in every dimension, also past the end of the chain, and the scalar, vector and SIMD forms agree.',
   'every nonzero size and every level', ['include/math/vector/uint.hpp', 'include/math/simd/vector/uint.hpp'], [('calcMipCount, calcSizeAtMip', 'include/math/vector/uint.hpp, include/math/simd/vector/uint.hpp')])
ac('R02', 'Cube map coordinates and sampling distributions are consistent',
   'A cube map face, texel and direction describe the same point: every texel direction is a unit vector, leads back to its own face and texel, and opposite faces mirror each other. The Hammersley sequence is the index over the count paired with the bit-reversed index. Importance sampled GGX directions are unit vectors in the upper hemisphere, exact for every roughness down to a smooth mirror, and follow the distribution whose density the matching function returns; index of refraction and reflectance convert both ways.',
   'every face, texel, size, sample index, roughness and sample', ['include/math/ibl.hpp', 'include/math/brdf.hpp'],
   [('coordsToST, stToDir, coordsToDir, hammersley', 'include/math/ibl.hpp, include/math/brdf.hpp'), ('importanceSamplingNdfDggx, ggx', 'include/math/brdf.hpp')])
ac('R03', 'Spherical harmonics are an orthonormal basis that rotates with the scene',
   'The nine basis values are the real spherical harmonics of the direction, the normalisation and cosine lobe factors have their defining values, rotating the coefficients gives the function seen from the rotated frame, the projected solid angles of the texels of a face add up to two thirds of pi, the smoothing windows are the defined ones, the found minimum is the minimum of a function symmetric about its linear band, and deringing scales every band by one common factor, no stronger than needed, that leaves such a function without negative values.',
   'every direction, rotation, coefficient vector and cutoff', ['include/math/sh.hpp'],
   [('computeShBasis, rotateShBand', 'include/math/sh.hpp'), ('shmin, deringingSH', 'include/math/sh.hpp')])
ac('R04', 'Colour spaces convert both ways',
   'The sRGB transfer functions are inverse, increasing and agree with the standard at every byte value, below zero (the linear piece) and above one, leaving alpha untouched; linear RGB to XYZ maps white to the D65 white point and is undone by its inverse; XYZ and xyY convert both ways; the fast gamma forms are square and square root.',
   'every channel value, checked at every byte and on a lattice of linear values', ['include/math/color-space.hpp'],
   [('rgbToSrgb, srgbToRgb, rgbToXyz, xyzToRgb, xyzToYxy', 'include/math/color-space.hpp')])
NA = []
