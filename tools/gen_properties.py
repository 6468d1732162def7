#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so wording and anchors stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = observe or ["public API of the library, real code, compiled from the working tree"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Dynamic vectors behave as independent value-semantic arrays over any history",
  "After any history of construction, copy, move, assignment, swap, resize, element access and destruction, every dynamically allocated vector reads exactly what a plain value array holding the same history would read, and shares no storage with another vector. Resizing preserves the common prefix; every allocation is released exactly once with the size it was requested with, and no access leaves the allocation.",
  ["histories"], "all operation histories up to a depth over up to three vectors, sizes 0..4, default and counting polymorphic allocators",
  "Tests run one short hand-written history per operation and never check aliasing, release or the state after a following operation.",
  ["cml/vector/dynamic_allocated.h", "cml/vector/dynamic_allocated.tpp"],
  [("owning copy/move/resize/destroy", "cml/vector/dynamic_allocated.tpp"), ("fast resize without copying", "cml/vector/dynamic_allocated.tpp resize_fast")],
  state=[("size and element storage", "length and contents of the owned array")])
p("C02", "Dynamic matrices behave as independent value-semantic grids over any history",
  "After any history of construction, copy, move, assignment, resize, element, row and column writes and destruction, every dynamically allocated matrix reads exactly what a plain two-dimensional grid with the same history would read, in both storage layouts and bases, and shares no storage with another matrix. The raw data array enumerates elements in the declared layout order; every allocation is released exactly once with its size and no access leaves it.",
  ["histories"], "all operation histories up to a depth over up to three matrices, shapes 0..3 x 0..3, both layouts, counting allocators",
  "Tests construct one shape and check it once; they do not follow a moved-from, resized or re-assigned matrix through further operations.",
  ["cml/matrix/dynamic_allocated.h", "cml/matrix/dynamic_allocated.tpp"],
  [("owning copy/move/resize/destroy", "cml/matrix/dynamic_allocated.tpp"), ("layout-dependent indexing", "cml/matrix/dynamic_allocated.tpp get/put")])
p("C03", "Vectors and matrices over external memory are exact views of that memory",
  "A vector or matrix wrapped around caller-supplied memory reads and writes exactly the wrapped elements, in the declared layout, at every moment: writes through the view change only those elements and later writes to the memory show through every view of it. Copying or moving a view rebinds nothing that the caller did not ask for, assigning to a view assigns elements, and neither ever allocates, frees or touches a byte outside the wrapped range.",
  ["histories", "configurations"], "all histories up to a depth of view operations over a shared guarded buffer, fixed and dynamic sizes, const and non-const views, both layouts",
  "Tests wrap one array per type and check a handful of elements; guard bytes, overlapping views and interleaved writes are never examined.",
  ["cml/vector/fixed_external.tpp", "cml/vector/dynamic_external.tpp", "cml/vector/fixed_const_external.tpp", "cml/vector/dynamic_const_external.tpp", "cml/matrix/fixed_external.tpp", "cml/matrix/dynamic_external.tpp"],
  [("pointer-and-size views", "cml/vector/dynamic_external.tpp, cml/matrix/dynamic_external.tpp")])
p("C04", "Run-time size mismatches raise the documented error and change nothing",
  "Whenever operands of an operation whose sizes are only known at run time do not agree, or a required size (2D, 3D, 4D, square, minimum) is not met, the operation throws the documented size error and every operand keeps its previous size and elements. Whenever sizes do agree, no size error is thrown.",
  ["inputs", "configurations"], "every operation x every pair of sizes 0..5 (vectors) or shapes 0..4 x 0..4 (matrices) x storage kinds",
  "Tests pick one mismatching pair per operator; they do not check that operands survive unchanged, nor the mixed fixed/dynamic/external combinations.",
  ["cml/vector/size_checking.tpp", "cml/matrix/size_checking.tpp", "cml/vector/detail/check_or_resize.h", "cml/matrix/detail/check_or_resize.h", "cml/mathlib/matrix/size_checking.tpp"],
  [("run-time size checks", "cml/vector/size_checking.tpp, cml/matrix/size_checking.tpp"), ("resize-or-check on assignment", "cml/vector/detail/check_or_resize.h")])
p("C05", "Failure of any single allocation leaks nothing and corrupts nothing",
  "If any one allocation made by an operation on dynamic vectors or matrices fails, the error propagates as an exception, no memory is leaked or released twice, and every operand other than the one being written keeps its value. The object being written can still be destroyed, resized and assigned afterwards, behaving as a fresh object would.",
  ["fault_sequences"], "every allocation index of every operation history up to a depth, singly and in pairs",
  "Tests never inject an allocation failure.",
  ["cml/vector/dynamic_allocated.tpp", "cml/matrix/dynamic_allocated.tpp"],
  [("allocate, copy, release order on resize", "cml/vector/dynamic_allocated.tpp resize"), ("same for matrices", "cml/matrix/dynamic_allocated.tpp")])
p("C06", "Every construction and assignment form of equal contents gives the same object",
  "Building or assigning a vector, matrix or quaternion from elements, arrays, nested arrays, pointers, initializer lists, a smaller vector plus trailing elements, another storage kind, another element type or another layout yields an object whose every element equals the corresponding source element, in the documented order. The source is not modified unless it was given up by a move.",
  ["inputs", "configurations"], "every documented source form x size 1..5 / shape up to 4x4 x storage x layout x element type x element permutation over a distinguishing alphabet",
  "Tests exercise each form at one size and storage kind; cross-kind combinations and partial vector-plus-elements splits are mostly untested.",
  ["cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp", "cml/quaternion/writable_quaternion.tpp", "cml/vector/fixed_compiled.h", "cml/matrix/fixed_compiled.h", "cml/matrix/dynamic_allocated.h"],
  [("assign overload family", "cml/vector/writable_vector.tpp, cml/matrix/writable_matrix.tpp")])
p("C07", "Structural matrix queries and edits address exactly the intended elements",
  "Transpose, row, column and basis-vector access, basis-element access, trace, identity, zero, fill and row/column/basis-element writes read or change exactly the elements their definition names, for every shape, layout, basis and storage kind. Transposing in place equals transposing functionally, twice is the identity, and the row view of a transpose is the column view of the original.",
  ["inputs", "configurations"], "every shape 1..4 x 1..4, layout, basis, storage kind and every index, one-hot and distinct-valued contents",
  "Tests use a few square sizes with one content per query; index mix-ups that cancel on symmetric or square data pass.",
  ["cml/matrix/transpose_node.tpp", "cml/matrix/row_node.tpp", "cml/matrix/col_node.tpp", "cml/matrix/basis_node.tpp", "cml/matrix/trace.tpp", "cml/matrix/readable_matrix.tpp", "cml/matrix/writable_matrix.tpp"],
  [("index remapping nodes", "cml/matrix/*_node.tpp"), ("in-place transpose", "cml/matrix/writable_matrix.tpp transpose")])

p("C08", "Arguments outside a documented domain are rejected and change nothing",
  "Axis and basis indices other than 0, 1, 2 (0, 1 in 2D), negative row, column and basis numbers, negative vector and matrix dimensions, Euler orders that an operation does not support, pivoted factorizations of singular matrices and cone angles outside the documented range raise std::invalid_argument and leave every argument, and all memory, as they were. Arguments inside the domain never raise it, and the operation acts on exactly the axis, index or dimension named.",
  ["inputs", "configurations"], "every operation with a documented domain x every argument value in and around it, including values that are inside only when truncated x storage kind x layout x basis x element type",
  "No test passes an argument outside a domain other than a size.",
  ["cml/mathlib/matrix/basis.tpp", "cml/mathlib/matrix/rotation.tpp", "cml/mathlib/quaternion/basis.tpp", "cml/mathlib/quaternion/rotation.tpp", "cml/mathlib/coordinate_conversion.tpp", "cml/mathlib/random_unit.tpp", "cml/matrix/dynamic_allocated.tpp", "cml/matrix/dynamic_external.tpp", "cml/vector/dynamic_allocated.tpp", "cml/matrix/row_node.tpp", "cml/matrix/lu.tpp"],
  [("cml_require checks", "cml/common/exception.h and its uses")])

p("C09", "Exactly the ill-formed uses of fixed-size objects are refused when compiled",
  "An operation on vectors, matrices or quaternions of fixed sizes whose sizes do not fit each other, or do not fit the size the operation is documented to need, does not compile: element-wise operations of different sizes, products with different inner sizes, non-square determinants, inverses and factorizations, transformation matrices too small for their basis orientation, vectors of another size than the function's, and initialization or assignment from a wrong number of elements or from a C array of another length. Neither do sums or products of quaternions of different orders or product directions, concatenation of matrices of different basis orientations, and writing through a const object. Every combination that does fit compiles, and combinations with a run-time size always compile (they are checked when run).",
  ["programs", "configurations"], "every operation x every fixed size of each operand up to 5 x storage kind (fixed, external, dynamic) x basis, layout, quaternion order and product direction",
  "A test suite consists of programs that compile; no test can show that a program is refused.",
  ["cml/vector/size_checking.tpp", "cml/matrix/size_checking.tpp", "cml/mathlib/matrix/size_checking.tpp", "cml/vector/detail/check_or_resize.h", "cml/matrix/detail/check_or_resize.h", "cml/quaternion/order_tags.h", "cml/quaternion/cross_tags.h", "cml/mathlib/matrix/concat.tpp", "cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp"],
  [("compile-time size checks", "cml/vector/size_checking.tpp, cml/matrix/size_checking.tpp, cml/mathlib/matrix/size_checking.tpp")])

p("E01", "Vector expressions equal eager element-by-element evaluation",
  "Every combination of vector addition, subtraction, negation, scalar multiplication and division, cross, elementwise product and sub-vector selection yields exactly the value obtained by evaluating each step eagerly into a plain array, whichever operands are named objects or temporaries, of whatever storage kind, and whether the result is read element by element, stored, or assigned. Operands that were not given up by a move keep their value.",
  ["programs", "inputs"], "all expression trees up to depth 3 over the operator alphabet x operand storage kinds x value categories x element alphabet",
  "Tests evaluate single operators with one operand pair; composition and mixed storage are sampled a few times.",
  ["cml/vector/binary_node.tpp", "cml/vector/scalar_node.tpp", "cml/vector/unary_node.tpp", "cml/vector/cross_node.tpp", "cml/vector/subvector_node.tpp", "cml/vector/binary_ops.h", "cml/vector/scalar_ops.h"],
  [("lazy expression nodes", "cml/vector/*_node.tpp"), ("assignment loop", "cml/vector/writable_vector.tpp assign")])
p("E02", "Matrix expressions equal eager element-by-element evaluation",
  "Every combination of matrix addition, subtraction, negation, scalar multiplication and division, transposition, elementwise product and row, column and basis selection yields exactly the value obtained by evaluating each step eagerly into a plain grid, whichever operands are named objects or temporaries and of whatever storage kind, layout or basis. Operands that were not given up by a move keep their value.",
  ["programs", "inputs"], "all expression trees up to depth 3 over the operator alphabet x shapes (incl. non-square) x storage kinds, layouts and value categories",
  "Tests evaluate single operators on one or two shapes.",
  ["cml/matrix/binary_node.tpp", "cml/matrix/scalar_node.tpp", "cml/matrix/unary_node.tpp", "cml/matrix/transpose_node.tpp", "cml/matrix/binary_ops.h", "cml/matrix/scalar_ops.h"],
  [("lazy expression nodes", "cml/matrix/*_node.tpp"), ("assignment loop", "cml/matrix/writable_matrix.tpp assign")])
p("E03", "Quaternion expressions equal eager element-by-element evaluation",
  "Every combination of quaternion addition, subtraction, negation, scalar multiplication and division, conjugation, inversion, product and imaginary-part selection yields the value obtained by evaluating each step eagerly on a plain four-tuple, for both element orders and both product conventions and whichever operands are named objects or temporaries. Operands that were not given up by a move keep their value.",
  ["programs", "inputs"], "all expression trees up to depth 3 over the operator alphabet x element orders x product conventions x value categories",
  "Tests evaluate single operators with one value.",
  ["cml/quaternion/binary_node.tpp", "cml/quaternion/scalar_node.tpp", "cml/quaternion/conjugate_node.tpp", "cml/quaternion/inverse_node.tpp", "cml/quaternion/imaginary_node.tpp", "cml/quaternion/product.tpp"],
  [("lazy expression nodes", "cml/quaternion/*_node.tpp"), ("order-aware indices", "cml/quaternion/order_tags.h")])
p("E04", "In-place operations equal their functional counterparts",
  "For vectors, matrices and quaternions, each in-place operation (compound assignment, normalize, inverse, transpose, conjugate, minimize, maximize, set-to-constant family) leaves the object equal to the value of the corresponding functional expression on its previous value, including when the argument is the object itself, and returns that same object for chaining. The in-place form on a temporary or through a view gives the same value.",
  ["histories", "inputs"], "all sequences up to depth 3 of mutators over small exact values, every storage kind, self-arguments included",
  "Tests call each mutator once on one value, never with the object as its own argument.",
  ["cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp", "cml/quaternion/writable_quaternion.tpp"],
  [("mutator loops", "cml/vector/writable_vector.tpp"), ("mutator loops", "cml/matrix/writable_matrix.tpp"), ("mutator loops", "cml/quaternion/writable_quaternion.tpp")])
p("E05", "Mixed-type expressions compute in the promoted type, size and kind",
  "When operands differ in element type, the result has their common arithmetic type (the type `true ? a : b` has, std::common_type) and the value computed in that type; when they differ in storage kind, size knowledge, layout or basis, the materialised result owns its storage and has the operands' common size. No promotion silently narrows a value, drops an element or keeps a reference to an operand.",
  ["configurations", "inputs"], "every ordered pair of {int,float,double} element types x storage kinds x size knowledge x layouts x bases x every operator that combines them, incl. values exact only in the wider type",
  "Tests check a few result types; values that differ between computing narrow and wide are not used.",
  ["cml/common/promotion.h", "cml/storage/promotion.h", "cml/scalar/promotion.h", "cml/vector/promotion.h", "cml/matrix/promotion.h", "cml/quaternion/promotion.h"],
  [("type promotion tables", "cml/*/promotion.h")])
p("E06", "Comparison and hashing are consistent with elementwise value",
  "For vectors, matrices and quaternions, equality holds exactly when all elements are equal, inequality is its negation, the ordering of vectors and quaternions (absent NaN) is the strict weak lexicographic order over elements, the size deciding between prefixes, and the six operators agree with each other, across storage kinds, layouts and element orders. Equal vectors hash equally.",
  ["inputs"], "all triples of objects with elements from a small alphabet incl. signed zero and NaN, sizes 0..3, all storage kind pairs",
  "Tests compare a couple of objects differing in one position; transitivity, agreement and special values are not covered.",
  ["cml/vector/comparison.tpp", "cml/matrix/comparison.tpp", "cml/quaternion/comparison.tpp", "cml/util/vector_hash.h", "cml/common/hash.h"],
  [("lexicographic loops", "cml/vector/comparison.tpp, cml/matrix/comparison.tpp"), ("hash combiner", "cml/common/hash.h")])
p("E07", "Expressions and views never read released or foreign memory",
  "An expression, row, column, basis or sub-vector view, including one stored in a variable or returned from a function, reads only operands that are alive: temporaries used to build it are kept inside it and named operands are referenced, not copied, so that it sees their current value. Materialising it at any later time within its operands' lifetime reads valid memory only.",
  ["programs"], "all expression trees up to depth 2 x value category of each leaf x {immediate, stored, moved, returned} use, with instrumented element storage that detects reads after release",
  "Tests mostly consume expressions immediately; dangling reads of stack temporaries go unnoticed without instrumentation.",
  ["cml/vector/subvector_node.h", "cml/matrix/row_node.h", "cml/matrix/basis_node.h", "cml/vector/binary_node.h", "cml/matrix/binary_node.h", "cml/quaternion/binary_node.h", "cml/vector/ops.h"],
  [("by-value capture of rvalues, by-reference of lvalues", "cml/*/*_node.h")])

p("E08", "Results may be stored over the objects they are computed from",
  "A function that computes a vector, matrix or quaternion, or fills or builds one passed to it, gives the same result when an argument is the object being written, a vector or imaginary part taken from it, or one of its elements, as when the argument is a copy made beforehand. This holds for matrix and quaternion products, inverses, projections, rotations, transforms, orthonormal frames, linear solves, coordinate conversions, random directions and all transform builders; lazily evaluated expressions are outside it.",
  ["inputs", "configurations"], "every such function x which object, vector or element of the destination each argument is x contents x storage, layout, basis and element type",
  "Tests always pass distinct objects; a result that is written before an argument is read shows only when the two are the same object.",
  ["cml/mathlib/matrix/transform.tpp", "cml/mathlib/matrix/translation.tpp", "cml/mathlib/matrix/scale.tpp", "cml/mathlib/matrix/rotation.tpp", "cml/mathlib/vector/orthonormal.tpp", "cml/mathlib/coordinate_conversion.tpp", "cml/mathlib/random_unit.tpp", "cml/matrix/lu.tpp"],
  [("results computed into temporaries, scalars taken by value", "cml/matrix/matrix_product.tpp, cml/mathlib/**/*.tpp")])

p("P01", "Vector products satisfy their definitions and algebraic laws",
  "Dot, cross, outer, perp-dot, triple and elementwise products equal their textbook sums for every operand size and storage kind, are (bi)linear, and satisfy their symmetry laws: cross is antisymmetric and orthogonal to both operands, the triple product is invariant under cyclic rotation, the outer product of a and b applied to c scales a by the dot product of b and c. Length, squared length and normalization agree with the dot product.",
  ["inputs"], "all operand tuples over a small integer alphabet, sizes 1..4, all storage kind pairs, temporaries included",
  "Tests use one operand pair per product.",
  ["cml/vector/dot.tpp", "cml/vector/cross_node.tpp", "cml/vector/outer_product_node.tpp", "cml/vector/perp_dot.tpp", "cml/vector/triple_product.tpp", "cml/vector/hadamard_product.h", "cml/vector/readable_vector.tpp"],
  [("product loops and nodes", "cml/vector/dot.tpp, cml/vector/cross_node.tpp")])
p("P02", "Matrix-matrix and matrix-vector products equal the textbook sums",
  "The product of any two conformable matrices, and of a matrix and a vector on either side, equals the textbook row-by-column sum for every shape, layout, basis, storage kind and element type. Products associate, distribute over addition, have the identity as unit, and transposing a product equals the reversed product of transposes; storing the product into one of its own operands gives the same value.",
  ["inputs", "configurations"], "all shapes up to 4 with one-hot and distinct-prime contents (which determine a bilinear map), all layout/basis/storage pairs",
  "Tests multiply a few fixed shapes once.",
  ["cml/matrix/matrix_product.tpp", "cml/matrix/vector_product.tpp", "cml/matrix/promotion.h"],
  [("product loops and temporaries", "cml/matrix/matrix_product.tpp, cml/matrix/vector_product.tpp")])
p("P03", "Results do not depend on memory layout or storage kind",
  "Running the same sequence of matrix operations on row-major, column-major, fixed, dynamic and external matrices yields identical element values at every step. Transform builders express the same geometric map under row and column basis conventions, one being the transpose of the other.",
  ["configurations", "histories"], "all sequences up to depth 3 over a 20-operation alphabet run in lock step on every layout x basis x storage configuration",
  "Tests instantiate most cases for one or two configurations and never compare configurations step by step.",
  ["cml/common/layout_tags.h", "cml/common/basis_tags.h", "cml/matrix/fixed_compiled.tpp", "cml/matrix/dynamic_allocated.tpp", "cml/mathlib/matrix/transform.tpp", "cml/mathlib/matrix/rotation.tpp"],
  [("layout tag dispatch", "cml/matrix/fixed_compiled.tpp"), ("basis tag dispatch", "cml/matrix/writable_matrix.tpp set_basis_element")])

p("L01", "The determinant is exact, multiplicative and zero exactly on singular matrices",
  "The determinant of a square matrix of any size equals the signed sum over permutations to rounding error, is multiplicative, equals that of the transpose, changes sign under row swaps, and is zero for singular matrices. It does not modify its argument and does not depend on layout, storage or size knowledge.",
  ["inputs"], "all matrices over {-1,0,1} up to 3x3, structured and permutation-scaled families for 4x4..6x6, fixed and dynamic, both layouts",
  "Tests check one matrix per size; pivot choices and signs are not exercised.",
  ["cml/matrix/determinant.tpp", "cml/matrix/detail/determinant.tpp", "cml/matrix/detail/lu.tpp"],
  [("closed forms 1..4", "cml/matrix/detail/determinant.tpp"), ("pivoted elimination above", "cml/matrix/detail/lu.tpp")])
p("L02", "The inverse multiplies with the original to the identity",
  "For every well-conditioned square matrix of any size, layout and storage, the inverse times the matrix and the matrix times the inverse are the identity within rounding, the inverse of the inverse is the original, and inverting in place equals inverting functionally. The argument of the functional form is unchanged.",
  ["inputs"], "all invertible matrices over {-1,0,1} up to 3x3, all scaled permutation and structured families for 4x4..6x6, fixed and dynamic, both layouts",
  "Tests invert one or two matrices per size, so pivot order paths are largely unvisited.",
  ["cml/matrix/inverse.h", "cml/matrix/detail/inverse.h"],
  [("closed forms 2..4", "cml/matrix/detail/inverse.h"), ("full-pivot elimination", "cml/matrix/detail/inverse.h inverse_pivot")])
p("L03", "LU factors reproduce the matrix and linear solves satisfy their equations",
  "For every matrix that admits the factorization, the lower and upper factors multiply back to the (row-permuted) original, and solving a linear system from a matrix or its factors returns x with Ax equal to b within rounding. Singular systems are reported by the documented error instead of a silent wrong answer, and arguments are unchanged.",
  ["inputs"], "all matrices over {-1,0,1} up to 3x3 with all right-hand sides, structured families to 6x6, pivoted and unpivoted, fixed and dynamic",
  "Tests factor one matrix and solve one system.",
  ["cml/matrix/lu.tpp", "cml/matrix/detail/lu.tpp", "cml/matrix/lu.h"],
  [("Doolittle elimination", "cml/matrix/detail/lu.tpp"), ("forward/back substitution", "cml/matrix/lu.tpp")])

p("Q01", "Quaternion algebra satisfies Hamilton's laws under every convention",
  "Quaternion products satisfy Hamilton's multiplication table for the positive convention and its reversal for the negative one, independent of element order; they are associative and bilinear, norms multiply, the conjugate reverses products, and a nonzero quaternion times its inverse is the identity. Length, norm, dot, normalize, real, imaginary and identity agree with these.",
  ["inputs"], "all pairs and triples of quaternions with components from a small integer alphabet x both orders x both conventions x value categories",
  "Tests multiply one or two pairs per convention.",
  ["cml/quaternion/product.tpp", "cml/quaternion/inverse_node.tpp", "cml/quaternion/conjugate_node.tpp", "cml/quaternion/dot.tpp", "cml/quaternion/readable_quaternion.tpp", "cml/quaternion/cross_tags.h"],
  [("real/imaginary split product", "cml/quaternion/product.tpp"), ("order/convention tags", "cml/quaternion/order_tags.h, cross_tags.h")])
p("Q02", "Quaternion exponential and logarithm are inverse and total on their domain",
  "For every nonzero quaternion the exponential of its logarithm is the quaternion, and for every quaternion with imaginary length below pi the logarithm of its exponential is the quaternion, including purely real ones; the norm of the exponential is the exponential of the real part. In-place and functional forms agree and no finite in-domain argument yields a non-finite result.",
  ["inputs"], "all quaternions over a grid of component values incl. zero, tiny and sign combinations x both orders",
  "Tests take one generic quaternion each way; degenerate axes are not covered.",
  ["cml/quaternion/writable_quaternion.tpp", "cml/quaternion/functions.tpp"],
  [("log/exp", "cml/quaternion/writable_quaternion.tpp")])
p("Q03", "Quaternion, matrix and axis-angle forms of a rotation are interchangeable",
  "Converting a rotation between quaternion, rotation matrix and axis-angle form, in any order of conversions, preserves the rotation (up to quaternion sign), including the identity and half turns about any axis; composition, inversion, and rotating a vector agree in every form, element order, product convention, basis and layout.",
  ["inputs", "histories"], "all rotations of an axis x angle grid (26 axes, angles incl. 0, 180 and near-180 degrees) and all pairs, x conversion chains up to length 3",
  "Tests convert a few generic rotations; half-turn and branch-switching inputs are sampled sparsely.",
  ["cml/mathlib/quaternion/rotation.tpp", "cml/mathlib/matrix/rotation.tpp", "cml/mathlib/vector/rotation.tpp"],
  [("largest-component branch selection", "cml/mathlib/quaternion/rotation.tpp"), ("half-turn branch", "cml/mathlib/matrix/rotation.tpp matrix_to_axis_angle")])
p("Q04", "Euler-angle rotations compose and convert back for every order",
  "For each of the twelve Euler orders, building a rotation from three angles equals composing the three single-axis rotations in the documented order, in matrix and quaternion form alike. Extracting angles from any rotation and rebuilding gives the same rotation, including at both gimbal-lock poles, and the angle-derivative forms match the derivative of the built rotation.",
  ["inputs"], "12 orders x full grid of angle triples incl. the poles of the middle angle x both bases, layouts and quaternion conventions",
  "Tests use a few triples per order and at most one pole.",
  ["cml/mathlib/euler_order.h", "cml/mathlib/matrix/rotation.tpp", "cml/mathlib/quaternion/rotation.tpp"],
  [("order decoding", "cml/mathlib/matrix/detail or rotation.tpp unpack of euler order"), ("pole branch", "cml/mathlib/matrix/rotation.tpp matrix_to_euler")])

p("G01", "Axis and plane rotation builders are right-handed rigid rotations",
  "Every builder of a rotation about a world axis, an arbitrary axis, or in the plane yields an orthonormal, determinant-one linear part that moves the reference axes by the right-hand rule through the given angle and leaves the axis fixed. Angles add under composition about one axis, zero angle is the identity, and vector rotation agrees with matrix rotation.",
  ["inputs"], "all builders x axes x angle grid (multiples of 15 degrees and tiny/large angles) x bases, layouts, 2D/3D/4D sizes",
  "Tests use one angle per builder.",
  ["cml/mathlib/matrix/rotation.tpp", "cml/mathlib/vector/rotation.tpp"],
  [("rotation builders", "cml/mathlib/matrix/rotation.tpp")])
p("G02", "Alignment builders give orthonormal right-handed frames along the given axes",
  "Orthonormal-basis, align and aim-at builders, for vectors, matrices and quaternions, always give mutually orthogonal unit axes of determinant one whose designated axis points exactly along the requested direction and whose second axis lies in the requested plane toward the reference, for each of the axis orders. Matrix, quaternion and vector forms agree.",
  ["inputs", "configurations"], "6 axis orders x all pairs of non-parallel directions from a 26-direction grid x normalization flag x bases, layouts and forms",
  "Tests cover a few directions and orders.",
  ["cml/mathlib/vector/orthonormal.tpp", "cml/mathlib/matrix/rotation.tpp", "cml/mathlib/quaternion/rotation.tpp", "cml/mathlib/axis_order.h"],
  [("Gram-Schmidt with axis permutation", "cml/mathlib/vector/orthonormal.tpp")])
p("G03", "View transforms place the eye at the origin and the target on the view axis",
  "Each look-at builder, left- or right-handed and in every argument form, yields a rigid transform that maps the eye to the origin and the target onto the positive (left-handed) or negative (right-handed) depth axis at its distance, with the up direction projecting onto the upward axis and handedness as named. All argument forms with the same content agree, in every basis and layout.",
  ["inputs", "configurations"], "both handedness x all eye/target/up triples over an integer grid without degenerate up x bases, layouts and argument forms",
  "Tests use one camera.",
  ["cml/mathlib/matrix/transform.tpp"],
  [("look-at builders", "cml/mathlib/matrix/transform.tpp")])
p("G04", "Projection matrices map the view volume onto the clip volume",
  "Every orthographic and perspective builder (bounds, width-height, horizontal and vertical field of view; both handedness; both depth conventions) maps each corner of its view volume, after homogeneous division, to the corresponding corner of the clip volume, and interior points to interior points. All parameterisations of the same volume agree, in every basis and layout.",
  ["inputs", "configurations"], "every builder x handedness x depth convention x grid of asymmetric bounds, near/far ratios and fields of view x all 8 corners plus interior lattice x bases, layouts",
  "Tests compare a few hand-computed matrices.",
  ["cml/mathlib/matrix/projection.tpp", "cml/util/fov.h or cml/util headers"],
  [("projection builders", "cml/mathlib/matrix/projection.tpp")])
p("G05", "Extracted frustum planes bound exactly the projected view volume",
  "The six planes extracted from a model-view and projection pair, or their product, satisfy that a point has non-negative signed distance to every plane exactly when its projection lies inside the clip volume, in the documented plane order and for both depth conventions. Normalized planes have unit normals and describe the same half-spaces.",
  ["inputs", "configurations"], "every projection of the grid x modelviews x depth conventions x a lattice of points straddling each plane x bases, layouts",
  "Tests check one frustum's coefficients.",
  ["cml/mathlib/frustum.tpp"],
  [("row/column combination", "cml/mathlib/frustum.tpp")])
p("G06", "Affine builders, transforms, concatenation and rigid inverse are consistent",
  "Translation, uniform and non-uniform scale and general affine builders perform exactly the map they name on every point and leave vectors untouched by translation; transforming a point or vector by a concatenation equals transforming in sequence; the rigid inverse undoes rigid transforms. Parts that a builder does not own (e.g. the linear part when only setting translation) are preserved, in 2D and 3D and every basis and layout.",
  ["inputs", "configurations", "histories"], "all builder sequences up to depth 3 over small parameter alphabets x lattice points x sizes (2x2..4x4 incl. non-square affine) x bases, layouts",
  "Tests check each builder once, mostly on one point.",
  ["cml/mathlib/matrix/transform.tpp", "cml/mathlib/matrix/translation.tpp", "cml/mathlib/matrix/scale.tpp", "cml/mathlib/matrix/concat.tpp", "cml/mathlib/matrix/invert.tpp", "cml/mathlib/vector/transform.tpp", "cml/mathlib/matrix/basis.tpp", "cml/mathlib/matrix/misc.tpp"],
  [("basis-element based builders", "cml/mathlib/matrix/*.tpp")])
p("G07", "Coordinate conversions round-trip and agree with trigonometry",
  "Polar, cylindrical and spherical conversions, for each axis choice and both angle conventions, map to the Cartesian point given by their definition, and converting any Cartesian point out and back reproduces it, including points on the axis and at the origin. Angles come back in their documented ranges and an invalid axis index is rejected by the documented error.",
  ["inputs"], "all lattice points in [-2,2]^3 and tiny offsets x 3 axes x both conventions x float/double, all angle grids, invalid axis values",
  "Tests convert a few points and one axis.",
  ["cml/mathlib/coordinate_conversion.tpp"],
  [("conversion functions", "cml/mathlib/coordinate_conversion.tpp")])
p("G08", "Vector angles and projections satisfy their geometric definitions",
  "Unsigned and signed angles between vectors, projections onto vectors and planes and other vector helpers equal their geometric definitions for every non-degenerate input, with unsigned angles in [0, pi] and symmetric, and signed angles antisymmetric and consistent with the rotation that carries one vector onto the other. Parallel, opposite and perpendicular inputs yield exact limits without NaN.",
  ["inputs"], "all pairs (and triples) of nonzero vectors from the lattice {-2..2}^2 and {-1..1}^3, plus unnormalized scales and reference axes",
  "Tests use one pair per function.",
  ["cml/mathlib/vector/angle.tpp", "cml/mathlib/vector/misc.tpp", "cml/vector/functions.tpp", "cml/mathlib/vector/orthonormal.tpp"],
  [("angle formulas", "cml/mathlib/vector/angle.tpp")])
p("G09", "Random generation stays in range for every generator answer",
  "For every answer the random source can give, random integers, reals, vectors and matrices lie within their requested bounds, random unit vectors have unit length, and a unit vector drawn in a cone lies within the requested angle of its axis, in 2D, 3D and higher dimension. Only the requested elements change, an out-of-range cone angle is rejected by the documented error, and equal generator answers give equal results.",
  ["fault_sequences", "inputs"], "all answer sequences over an adversarial answer alphabet (extremes, midpoints) for the number of draws made x dimensions x axes x cone angles",
  "Tests draw from one default seed and check nothing about extremes.",
  ["cml/mathlib/random_unit.tpp", "cml/scalar/functions.h", "cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp"],
  [("caller-supplied generator", "cml/mathlib/random_unit.tpp"), ("seeded engine", "cml/scalar/functions.h")])
p("G10", "Scalar helpers meet their contracts over the whole argument range",
  "Sign, clamp, wrap, range tests, range mapping, safe inverse trigonometry and roots, degree/radian conversion, powers, planar and spatial lengths, index cycling and field-of-view conversions return the value their definition gives for every argument, including range ends and arguments just outside the domain. Inverse pairs round-trip and all results stay in the documented range.",
  ["inputs"], "full grids of arguments incl. boundaries, values one rounding step outside domains, negative and multi-period values x int/float/double",
  "Tests evaluate few points; the boundary arguments are absent.",
  ["cml/scalar/functions.h", "cml/scalar/traits.h", "cml/scalar/constants.h", "cml/mathlib/constants.h"],
  [("scalar functions", "cml/scalar/functions.h")])
p("G11", "Named constants, builders and types are exactly the named object",
  "Every named constant vector and matrix (zero, axis, identity, in the sized and the generic forms) has exactly the documented size, element type and elements whatever memory it is built in, and repeated calls give equal independent objects. Skew-symmetric matrices and partial traces have the documented elements in every element type, layout, basis and storage; every predefined type alias has the element type, size, memory, basis and storage order its name says.",
  ["configurations", "inputs"], "every generator x every index and size x earlier memory contents; every alias; all small vectors x element type x layout x basis x storage",
  "The generators are executed in one form each and the aliases are hardly used by the tests.",
  ["cml/mathlib/vector/generators.h", "cml/mathlib/matrix/generators.h", "cml/mathlib/matrix/misc.tpp", "cml/vector/types.h", "cml/matrix/types.h", "cml/quaternion/types.h"],
  [("generator functions", "cml/mathlib/*/generators.h"), ("aliases", "cml/*/types.h")])
p("G12", "Stream output shows every element once in order and alters nothing",
  "Inserting a vector, matrix, quaternion or any expression of them into a stream writes every element exactly once in index order with the documented separators, for every size including empty, storage kind, layout and element order, so that parsing the text back recovers the elements; a quaternion shows its real part, then x, y and z, in either element order. The printed object and the format of the stream are unchanged, and a stream that fails at any character holds exactly the text up to there and reports the failure as it is set to.",
  ["inputs", "configurations", "fault_sequences"], "all sizes 0..5 / shapes up to 4x4 x storage x layout x element alphabet x stream format x expressions; failure at every character in four ways",
  "Tests never check printed text.",
  ["cml/util/vector_print.tpp", "cml/util/matrix_print.tpp", "cml/util/quaternion_print.tpp"],
  [("print loops", "cml/util/*_print.tpp")])
p("G13", "Results follow the unit of length at every magnitude",
  "Measuring the lengths in other units changes results only by the unit: when vectors, points, distances or matrix elements are all multiplied by a factor, lengths, products, projections, determinants, inverses, decompositions, solutions, transforms, coordinates and frustum planes are multiplied by the corresponding power of it, and angles, unit vectors, frames and rotations do not change. This holds for tiny and huge factors, for each argument separately where the definition allows it, and nothing that is accepted in one unit is rejected or called singular in another.",
  ["inputs", "configurations"], "small integer vectors, matrices, view volumes x every combination of scales 1, 2^+-9 and 2^+-24 (float) or 2^+-120 and more (double) of up to three arguments x storages, element types, sizes 2 to 5",
  "Tests use arguments of magnitude one throughout.",
  ["cml/vector", "cml/matrix/detail/lu.tpp", "cml/matrix/detail/determinant.tpp", "cml/matrix/detail/inverse.h", "cml/mathlib"],
  [("length and normalisation", "cml/vector/readable_vector.tpp"), ("singularity test of lu_pivot", "cml/matrix/detail/lu.tpp"), ("frames", "cml/mathlib/vector/orthonormal.tpp")])
p("G14", "An argument of any arithmetic type means its value",
  "Scalars, vectors, matrices and quaternions of any arithmetic element type are accepted where their elements convert, and mean their values: angles, bounds, sizes, factors, coordinates, axes and rotations given as integers of any width, float or long double (signed and unsigned for scalars, and mixed freely where the parameters have their own types) give the result that the same values give as double, up to the precision of the types involved, whenever the result itself is in floating point.",
  ["inputs", "configurations"], "every function with scalar, vector, matrix or quaternion arguments x float, double, long double results x up to 11 argument types (all pairs and triples of representative types) x all tuples of small values",
  "Tests pass double or float constants of the destination's own type.",
  ["cml/mathlib", "cml/scalar/promotion.h"],
  [("angle builders", "cml/mathlib/matrix/rotation.tpp"), ("projections", "cml/mathlib/matrix/projection.tpp"), ("coordinates", "cml/mathlib/coordinate_conversion.tpp"), ("quaternion builders", "cml/mathlib/quaternion/rotation.tpp")])
p("S01", "Independent objects and shared read-only objects are safe across threads",
  "Threads operating on their own vectors, matrices and quaternions, and threads concurrently reading the same object that no thread writes, obtain exactly the results of a single-threaded run under every interleaving, and no hidden shared state is written without synchronisation.",
  ["schedules"], "all interleavings of two/three threads' shared-memory accesses, 1-2 library calls each, over every public operation group",
  "Tests are single-threaded.",
  ["cml/vector/vector.h", "cml/matrix/matrix.h", "cml/quaternion/quaternion.h", "cml/mathlib/mathlib.h", "cml/storage/allocated_selector.h"],
  [("no mutable global or static state in const operations", "whole library")])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
