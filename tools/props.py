#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the list of claimed checks and of what is not applicable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, na=na, note=note, technique=technique))


I, H, C, S = 'inputs', 'histories', 'configurations', 'schedules'

prop('C01', 'Multi-dimensional indexing is a stride-correct bijection',
     'For every shape and every dimension permutation, the strides of an array are the ones of a dense layout in which the last entry of the permutation varies fastest, and distinct in-range multi-indices reach distinct elements that together fill exactly the positions 0..size-1. Indexing one dimension at a time through slices, indexing with all indices at once, asking for the linear index and reading through data() all name the same element.',
     [I, C], 'all extents (including 0 and 1) and all in-range index tuples, for every permutation of 1 to 5 dimensions',
     'The unit tests index a few fixed shapes with a few permutations; the mapping is quantified over all shapes, index tuples and permutations.',
     ['src/indexing.hpp', 'src/ArrayView.hpp', 'src/ArraySlice.hpp', 'src/typeManipulation.hpp'],
     [('calculateStrides', 'src/indexing.hpp'), ('getLinearIndex', 'src/indexing.hpp'), ('operator[] / operator()', 'src/ArraySlice.hpp'), ('operator() / linearIndex', 'src/ArrayView.hpp')],
     observe=['ArrayView::operator()', 'ArraySlice::operator[]', 'ArrayView::strides', 'ArrayView::data'])

prop('C02', 'With bounds checking on, out-of-range accesses are rejected and others served',
     'In a build with bounds checking enabled, an access with any index outside the container (array element or linear index, slice, stack array, sub-array or element of an array of arrays, set or sparsity-pattern or matrix row or column, insertion or erasure position, a view insertion beyond the capacity of a row) reaches the error handler before memory outside the container is touched, whatever the index value, and a fixed-size tensor operation rejects operands of other extents than its own. An access whose indices are all in range is never rejected and yields the addressed element.',
     [I, C], 'all index values of the index type (negative, huge and wrapping ones included) against all small shapes of every container',
     'The tests try one or two bad indices per container with death tests; the guarantee is for every index value and shape, and most tests are compiled without the checks.',
     ['src/indexing.hpp', 'src/ArraySlice.hpp', 'src/ArrayView.hpp', 'src/ArrayOfArraysView.hpp', 'src/ArrayOfSetsView.hpp', 'src/SparsityPatternView.hpp', 'src/CRSMatrixView.hpp', 'src/SortedArrayView.hpp', 'src/bufferManipulation.hpp'],
     [('checkIndices', 'src/indexing.hpp'), ('ARRAY_SLICE_CHECK_BOUNDS', 'src/ArraySlice.hpp'), ('ARRAYOFARRAYS_CHECK_BOUNDS', 'src/ArrayOfArraysView.hpp'), ('check / checkIndex', 'src/bufferManipulation.hpp')])

prop('C03', 'A one-dimensional array behaves as a growable sequence',
     'After any history of appending, inserting (one value or a range), erasing, popping, resizing, reserving and clearing, a one-dimensional array holds exactly the values a sequence would hold after the same operations, in order, with size() and capacity() consistent (capacity never below size and never lowered). Values that the operations do not name are neither changed, lost nor duplicated, and every element object is constructed and destroyed exactly once.',
     [H, I], 'all operation sequences, positions and values, for trivially copyable and for resource-owning element types, across every growth boundary',
     'The tests replay fixed pseudo-random histories on a few element types; the guarantee covers every history, position and growth boundary.',
     ['src/Array.hpp', 'src/arrayManipulation.hpp', 'src/bufferManipulation.hpp', 'src/MallocBuffer.hpp', 'src/StackBuffer.hpp'],
     [('emplace / insert / erase / emplaceBack / popBack', 'src/bufferManipulation.hpp'), ('shiftUp / shiftDown / emplace / insert / erase / resize', 'src/arrayManipulation.hpp'), ('resizeDefaultDimension', 'src/Array.hpp')])

prop('C04', 'Resizing an array sets the extents, keeps values and initialises new ones',
     'Every form of resizing leaves the array with exactly the requested extents, strides matching them and size() equal to their product, and invalid extents (negative, or not representable in the index type) are rejected, as long as the product of the extents fits the index type. Resizing the single resize dimension keeps the element at every multi-index that exists before and after; new elements are value-initialised, or equal the supplied default where one is given; and the resize forms that promise not to initialise do not disturb surviving elements of one-dimensional arrays.',
     [I, H, C], 'all old and new extents, all permutations and resize dimensions, all element values',
     'The tests resize a handful of shapes; preservation depends on the relation of old and new extents, the resize dimension and the permutation.',
     ['src/Array.hpp', 'src/bufferManipulation.hpp', 'src/arrayManipulation.hpp', 'src/indexing.hpp', 'src/ArrayView.hpp'],
     [('resize / resizeDimension / resizeDefault / resizeDefaultDimension / setSingleParameterResizeIndex', 'src/Array.hpp')])

prop('C05', 'Copies are deep, moves transfer, and nothing leaks or is destroyed twice',
     'Copying any owning container (array, sorted array, array of arrays, array of sets, sparsity pattern, matrix) gives an equal and independent container; moving gives the destination the old contents and leaves the source empty, to be resized, assigned to or destroyed; assigning replaces the previous contents. Over the life of any set of containers every element is constructed and destroyed exactly once and all memory is released, also for copy self-assignment and for empty or moved-from operands.',
     [H, I], 'all contents and sizes of source and destination, all sequences of copy, move, assignment and reuse',
     'Tests check values after a few copies and moves, and cannot see a missing release or a second destruction without instrumented elements and all shapes of operands.',
     ['src/Array.hpp', 'src/SortedArray.hpp', 'src/ArrayOfArrays.hpp', 'src/ArrayOfSets.hpp', 'src/SparsityPattern.hpp', 'src/CRSMatrix.hpp', 'src/ArrayOfArraysView.hpp', 'src/MallocBuffer.hpp', 'src/StackBuffer.hpp', 'src/bufferManipulation.hpp'],
     [('copyInto', 'src/bufferManipulation.hpp'), ('copy and move constructors and assignments', 'src/Array.hpp'), ('setEqualTo / free', 'src/ArrayOfArraysView.hpp')])

prop('C06', 'Views and slices alias their parent and describe it faithfully',
     'A view or slice obtained from an array, or from another view, reads and writes exactly the elements of its parent, with the extents and strides of the remaining dimensions, and copying or const-converting it copies nothing. Contiguity is never reported unless the elements lie consecutively, and is reported for every whole array, every empty one and every slice that fixes the slowest dimensions; iteration visits every element of a one-dimensional slice once, in index order; size, emptiness and first/last element agree with the extents.',
     [I, C], 'all shapes, permutations, slicing depths and element values',
     'Aliasing and contiguity depend on the combination of permutation and extents (extents of 0 and 1 included) that samples do not cover.',
     ['src/ArrayView.hpp', 'src/ArraySlice.hpp', 'src/Array.hpp', 'src/indexing.hpp'],
     [('toSlice / toView / toViewConst', 'src/ArrayView.hpp'), ('isContiguous / dataIfContiguous / begin / end', 'src/ArraySlice.hpp')])

prop('C07', 'Reinterpreting a view with another element type keeps every element in place',
     'Converting a view of elements that are themselves fixed-size groups into a view of the smaller unit (or back), for heap-like buffers, yields a view over the same memory whose fastest dimension is scaled by the ratio of the element sizes and whose other strides are rescaled accordingly, so element k of group (i, j, ...) is found at the corresponding multi-index. Conversions whose extents or strides do not divide evenly are rejected.',
     [I, C], 'all shapes, permutations and size ratios, in both directions',
     'The tests convert a few shapes between two or three types.',
     ['src/ArrayView.hpp', 'src/MallocBuffer.hpp', 'src/StackBuffer.hpp', 'src/typeManipulation.hpp'],
     [('converting constructor', 'src/ArrayView.hpp'), ('typeConversion / convertSize', 'src/typeManipulation.hpp')])

prop('C08', 'Sorted arrays behave as mathematical sets',
     'A sorted array stays strictly increasing and holds exactly the members of a set under the same history of insertions and removals of single values and of sorted ranges (also overlapping, repeated, empty or interleaved ones). Every operation reports truthfully whether it changed the set or how many members it added or removed, and find, contains and count answer as the set would.',
     [H, I], 'all contents, all inserted and removed values and sorted ranges, up to the stated sizes',
     'The tests use random sets; corner cases of range merging (prefix, suffix, duplicates, interleaving) are a combinatorial space.',
     ['src/sortedArrayManipulation.hpp', 'src/SortedArray.hpp', 'src/SortedArrayView.hpp', 'src/sortedArrayManipulationHelpers.hpp', 'src/bufferManipulation.hpp'],
     [('insert / insertSorted / remove / removeSorted / find / contains', 'src/sortedArrayManipulation.hpp')])

prop('C09', 'Sorting sorts: ordered permutation, companions carried along, duplicates removed',
     'Sorting leaves a permutation of the input that is ordered by the given comparator, for every input size on both sides of every internal size threshold; sorting two sequences together applies one permutation to both. The helpers that test sortedness and uniqueness answer truthfully, and the ones that make a sequence sorted and unique, or drop duplicates from a sorted one, leave exactly the distinct members in order at the front and return their number; the remaining elements stay valid objects.',
     [I], 'all inputs of the stated sizes, symbolic values, ascending and descending comparators',
     'Random inputs of fixed sizes rarely hit the adversarial orders that stress partitioning, the size thresholds and equal keys.',
     ['src/sortedArrayManipulationHelpers.hpp', 'src/sortedArrayManipulation.hpp'],
     [('introsortLoop / insertionSort / unguardedPartition / computeSemiIndex / DualIterator', 'src/sortedArrayManipulationHelpers.hpp'), ('makeSorted / dualSort / makeSortedUnique / removeDuplicates / isSorted / isSortedUnique', 'src/sortedArrayManipulation.hpp')])

prop('C10', 'An array of arrays behaves as a list of independent sequences',
     'After any history of appending, inserting, erasing, resizing and clearing sub-arrays and their elements, an array of arrays holds exactly the values of a list of lists after the same operations: an operation on one sub-array never changes the size or values of another. Views of it see and modify the same values, and conversions between kinds of arrays keep them.',
     [H, I], 'all operation histories, positions and values up to the stated sizes, for plain and resource-owning elements',
     'Tests follow fixed random histories; corruption of a neighbour appears only at particular size/capacity combinations.',
     ['src/ArrayOfArrays.hpp', 'src/ArrayOfArraysView.hpp', 'src/arrayManipulation.hpp', 'src/bufferManipulation.hpp'],
     [('emplaceBack / appendToArray / emplace / insertIntoArray / eraseFromArray / resizeArray', 'src/ArrayOfArrays.hpp'), ('setCapacityOfArray / resize / reallocateValues', 'src/ArrayOfArraysView.hpp')])

prop('C11', 'Capacities and storage layout of arrays of arrays stay consistent',
     'In an array of arrays (and everything built on it) no two sub-arrays share storage, each size is at most its capacity, reserved capacity is really usable without moving other values, and building from given capacities gives every sub-array at least exactly what was asked. Compressing leaves all values in place order with no slack between sub-arrays, and requests to grow or shrink a capacity keep the values that fit.',
     [H, I], 'all capacity vectors, sizes and histories of capacity changes up to the stated sizes',
     'The layout depends on the whole history of capacities; tests look at a few hand-made ones.',
     ['src/ArrayOfArraysView.hpp', 'src/ArrayOfArrays.hpp', 'src/arrayManipulation.hpp'],
     [('resizeFromCapacities / compress / setCapacityOfArray / reserve / reserveValues / setEqualTo', 'src/ArrayOfArraysView.hpp')])

prop('C12', 'An array of sets behaves as a list of independent sets',
     'After any history of insertions and removals (single values or sorted ranges), additions, removals and resizing of sets, every row of an array of sets is strictly increasing and holds exactly the members a set would hold, and no row is disturbed by operations on another. Taking over an array of arrays yields the same members: as given when promised sorted and unique, otherwise sorted with duplicates dropped.',
     [H, I], 'all histories, values and row contents up to the stated sizes; all three descriptions of taken-over data',
     'Tests use random sets and one history per type.',
     ['src/ArrayOfSets.hpp', 'src/ArrayOfSetsView.hpp', 'src/sortedArrayManipulation.hpp', 'src/ArrayOfArraysView.hpp'],
     [('insertIntoSet / removeFromSet', 'src/ArrayOfSets.hpp'), ('assimilate', 'src/ArrayOfSets.hpp'), ('consistencyCheck', 'src/ArrayOfSetsView.hpp')])

prop('C13', 'A sparsity pattern records exactly the inserted entries',
     'After any history of inserting and removing entries (singly or by sorted column ranges), a sparsity pattern reports for each row exactly the columns inserted and not removed, in increasing order, with row counts, total count and the empty test agreeing. The extents and capacities are as requested also after resizing, compressing and reserving, entries survive these, and too-small column types are rejected.',
     [H, I], 'all histories of row/column insertions and removals up to the stated sizes',
     'Tests insert random columns; the row bookkeeping has to hold for every history.',
     ['src/SparsityPattern.hpp', 'src/SparsityPatternView.hpp', 'src/ArrayOfSetsView.hpp', 'src/ArrayOfArraysView.hpp'],
     [('insertNonZero(s) / removeNonZero(s) / resize / compress', 'src/SparsityPattern.hpp'), ('numNonZeros / empty / getColumns', 'src/SparsityPatternView.hpp')])

prop('C14', 'A sparse matrix keeps columns and values paired',
     'After any history of inserting, removing and updating entries, each row of a compressed-row matrix holds exactly the inserted columns in increasing order, each paired with its own last written value; inserting an existing column reports no insertion and keeps its value. All forms of adding to a row (unsorted, binary search, linear search, hinted) change exactly the named entries by exactly the given amounts, setting and zeroing touch exactly the stored values, and building from a sparsity pattern gives its entries with zero values.',
     [H, I], 'all histories, columns and values up to the stated sizes, for plain and resource-owning values',
     'Tests use random histories; the value array moves separately from the column array, so a slip shows only for particular positions and capacities.',
     ['src/CRSMatrix.hpp', 'src/CRSMatrixView.hpp', 'src/sortedArrayManipulation.hpp', 'src/ArrayOfSetsView.hpp', 'src/ArrayOfArraysView.hpp'],
     [('insertNonZero(s) / removeNonZero(s) / addToRow* / setValues / zero', 'src/CRSMatrixView.hpp'), ('assimilate / resize / compress', 'src/CRSMatrix.hpp')])

prop('C15', 'Integer conversion preserves the value or aborts',
     'Converting an integer to another integer type returns the same mathematical value whenever the target type can represent it, and calls the error handler otherwise. This holds for every pair of signed and unsigned types and every value.',
     [I, C], 'all values of all pairs of the eight fixed-width integer types',
     'The tests try the extreme values of a few pairs; sign and width corner cases fall between.',
     ['src/limits.hpp'],
     [('integerConversion / canEasilyConvert', 'src/limits.hpp'), ('NumericLimits', 'src/limits.hpp')])

prop('C16', 'Scalar math helpers compute their mathematical function',
     'Maximum and minimum return the larger or smaller argument, abs the absolute value, square the square, for integer and floating-point arguments; square root, reciprocal square root and the trigonometric functions delegate to the correctly typed standard functions with integer arguments converted to double; angle functions of two arguments pass them in the right order and the combined sine-cosine returns both parts in the right places. Conversion of scalars keeps the value.',
     [I, C], 'all values of the argument types (integers, float, double); transcendental functions up to equality of the called standard function and its arguments',
     'Tests compare a handful of arguments.',
     ['src/math.hpp'],
     [('max / min / abs / square / sqrt / invSqrt / sin / cos / sincos / tan / asin / acos / atan2 / exp', 'src/math.hpp')])

prop('C17', 'Fixed-size tensor operations satisfy their algebraic definitions',
     'Every vector and matrix helper (copy, scale, add, subtract, scaled add and copy, Hadamard product, fill, norms, normalise, inner products, products and accumulated products of matrix-vector, matrix-matrix and their transposed forms, outer products, transpose, traces and diagonal additions, cross product, maximum entries) writes exactly the entries of its mathematical definition over the real numbers, for every supported size. No operand that is only read is changed, and no entry outside the destination is written.',
     [I, C], 'all real operand entries, sizes 1 to 4 and every operand layout (plain arrays and permuted slices)',
     'Tests compare one pseudo-random operand per size and type; a swapped index or a missing term can cancel on samples and does not on symbols.',
     ['src/genericTensorOps.hpp', 'src/tensorOps.hpp'],
     [('genericTensorOps', 'src/genericTensorOps.hpp')])

prop('C18', 'Small square-matrix operations invert, decompose and conjugate correctly',
     'For 2x2 and 3x3 matrices, determinants equal the Leibniz formula, inverses (in place or not, general or symmetric, the determinant being returned) multiply with the original to the identity, symmetric storage is expanded and compressed without changing entries, and symmetric products (A b, A B^T, A S A^T and their accumulating forms) equal the dense formulas over the reals.',
     [I, C], 'all real matrix entries with non-zero determinant, every operand layout',
     'Tests compare pseudo-random matrices; an error in one term of a cofactor may be masked by symmetric or special samples.',
     ['src/fixedSizeSquareMatrixOps.hpp', 'src/fixedSizeSquareMatrixOpsImpl.hpp', 'src/tensorOps.hpp'],
     [('SquareMatrixOps< 2 >, SquareMatrixOps< 3 >', 'src/fixedSizeSquareMatrixOpsImpl.hpp')])

prop('C19', 'Whole-array value operations touch every element exactly once',
     'Copying between arrays or slices of equal shape and layout, filling, zeroing, assigning from another view and the per-element visitors reach every element exactly once with the right multi-index, whatever the permutation, and change nothing else. Reductions over the first index return the exact sum, and operands whose shapes or layouts do not match are rejected.',
     [I, C], 'all shapes, permutations and values up to the stated sizes',
     'Tests use a few fixed shapes.',
     ['src/memcpy.hpp', 'src/sliceHelpers.hpp', 'src/ArrayView.hpp', 'src/umpireInterface.cpp'],
     [('memcpy', 'src/memcpy.hpp'), ('forValuesInSlice / forValuesInSliceWithIndices / sumOverFirstDimension', 'src/sliceHelpers.hpp'), ('setValues / zero', 'src/ArrayView.hpp')])

prop('C20', 'Error handling, signals and floating-point traps are set and restored as asked',
     'The error handler that was set last is the one called on an error, also when it is a running handler that set it, and the signal handler installed is removed again by a reset, which restores the handlers that were in force before. Enabling, disabling and the scoped guards change exactly the requested floating-point traps; a guard turns the traps it found enabled on again, so that guards in any nesting put back the mask they found. Byte counts are printed in the largest of KB, MB and GB that they reach, without losing digits.',
     [H, I], 'all masks and nestings of the guards, all sequences of set and reset, all byte counts',
     'Tests toggle one or two masks and never restore an earlier handler or print huge sizes.',
     ['src/system.cpp', 'src/system.hpp'],
     [('setErrorHandler / callErrorHandler', 'src/system.cpp'), ('setSignalHandling / resetSignalHandling', 'src/system.cpp'), ('enableFloatingPointExceptions / FloatingPointExceptionGuard', 'src/system.hpp'), ('calculateSize', 'src/system.cpp')])

prop('C21', 'Text input parses exactly well-formed arrays and output prints them',
     'Parsing a well-formed brace-enclosed text fills an array with exactly the extents and values written; malformed text (unbalanced or misplaced braces, inconsistent extents, wrong nesting depth, missing or stray delimiters, text that is not a value) is rejected through the error handler, never accepted with other contents and never read or written out of bounds. Printing a slice produces its values in index order, nested in braces one level per dimension, so that parsing what was printed for a non-empty array gives it back; printing a matrix lists every entry once with its row and column.',
     [I], 'all texts over the relevant alphabet up to the stated length, for arrays of one to three dimensions',
     'Tests try a short list of malformed strings.',
     ['src/input.hpp', 'src/output.hpp'],
     [('stringToArray', 'src/input.hpp'), ('operator<<', 'src/output.hpp')])

prop('C22', 'Buffers honour capacity, ownership and memory-space rules',
     'Heap, fixed-capacity and stack buffers keep their elements across reallocation, report the capacity that was set, and refuse to grow beyond a fixed capacity or to be moved to a memory space they do not support, while moves to a supported space change nothing. Freeing destroys exactly the live elements, and a buffer that was copied shallowly or moved from behaves as documented.',
     [H, I, C], 'all sequences of buffer operations and sizes up to the stated bounds, every memory space',
     'Tests exercise one history per buffer type.',
     ['src/MallocBuffer.hpp', 'src/StackBuffer.hpp', 'src/bufferManipulation.hpp'],
     [('VoidBuffer', 'src/bufferManipulation.hpp'), ('reallocate / free', 'src/MallocBuffer.hpp'), ('reallocate', 'src/StackBuffer.hpp')])

prop('C23', 'Concurrent appends and adds lose nothing',
     'When several threads append to rows of an array of arrays with the atomic append, or add to matrix entries with the atomic row additions, then for every interleaving each appended value ends up in its own slot, the row size equals the number of successful appends, every added amount is accounted for, and no other memory is touched. Threads working on different rows never conflict.',
     [S, I], 'all interleavings of 2 to 3 threads at the atomic operations, all target rows, columns and values up to the stated sizes',
     'A test samples a few schedules; a lost update or a race needs a particular interleaving.',
     ['src/ArrayOfArraysView.hpp', 'src/CRSMatrixView.hpp'],
     [('emplaceBackAtomic', 'src/ArrayOfArraysView.hpp'), ('addToRow* with an atomic policy', 'src/CRSMatrixView.hpp')])

prop('C24', 'Checking macros fire exactly when their condition says so',
     'Each error, assertion and exception macro rejects exactly when its stated condition holds between its operands (equal, not equal, greater, greater-or-equal, less, less-or-equal), for signed, unsigned and floating-point operands alike, and otherwise lets execution continue. Error macros end in the installed error handler, the throwing ones throw, and assertion macros do nothing in builds without assertions.',
     [I, C], 'all operand values of each comparison, both with and without assertions enabled',
     'The tests never evaluate most of the macros, and only at one or two operand values.',
     ['src/Macros.hpp'],
     [('LVARRAY_ERROR_IF_*', 'src/Macros.hpp'), ('LVARRAY_THROW_IF_*', 'src/Macros.hpp'), ('LVARRAY_ASSERT_*', 'src/Macros.hpp')])

prop('C25', 'Index and value types of any width give the same container behaviour',
     'Containers instantiated with narrow, unsigned or wide index types behave as they do with the default one for every content that fits: sizes, offsets and positions are computed without wrap-around as long as the number of values (for nested containers including the spare capacity of all rows) fits the index type, and extents given to resize that do not fit the index type, or column counts that do not fit the column type, are rejected rather than truncated.',
     [I, C], '8-, 16- and 32-bit and unsigned index types, all sizes up to and beyond the limit of the type',
     'The tests use 32- and 64-bit signed index types far from their limits.',
     ['src/Array.hpp', 'src/ArrayView.hpp', 'src/ArrayOfArraysView.hpp', 'src/limits.hpp', 'src/bufferManipulation.hpp', 'src/indexing.hpp'],
     [('integerConversion of sizes', 'src/ArrayView.hpp'), ('dynamicReserve', 'src/bufferManipulation.hpp')])

prop('C26', 'Bounds checks and assertions never fire on valid use',
     'A build with bounds checking and assertions enabled gives, for every use that meets the documented preconditions, the same results as the release build: no bounds check and no assertion of the library stops a valid operation of any container (appending, inserting, erasing, resizing, reserving, slicing, reinterpreting, sorting, set operations, filling and adding to matrix rows), edge cases like empty containers, empty ranges and positions at the end included, and enabling them changes no value, size or lifetime.',
     [H, C], 'all histories and values within the bounds of the container checks, in the checked configuration',
     'The stable tests are built without assertions and mostly without bounds checking; a wrong check shows only in a checked build and for the operands it rejects.',
     ['src/Macros.hpp', 'src/arrayManipulation.hpp', 'src/bufferManipulation.hpp', 'src/sortedArrayManipulation.hpp', 'src/ArraySlice.hpp', 'src/ArrayView.hpp', 'src/ArrayOfArraysView.hpp', 'src/SparsityPatternView.hpp', 'src/CRSMatrixView.hpp'],
     [('LVARRAY_ASSERT*', 'src/Macros.hpp'), ('preconditions of insert / erase / emplace', 'src/arrayManipulation.hpp'), ('ARRAYOFARRAYS_*_CHECK_BOUNDS', 'src/ArrayOfArraysView.hpp')])

prop('C30', 'Eigenvalues of small symmetric matrices and eigenvectors of 2x2 ones are correct',
     'For every 2x2 and 3x3 symmetric matrix symEigenvalues returns the eigenvalues in increasing order, whatever the orientation of the eigenbasis and also for repeated eigenvalues and the zero matrix; for every 2x2 one symEigenvectors also returns orthonormal vectors, vector i in row i belonging to eigenvalue i.',
     [I], 'all symmetric real matrices',
     'Tests compare pseudo-random matrices.',
     ['src/fixedSizeSquareMatrixOpsImpl.hpp'], [('symEigenvalues / symEigenvectors', 'src/fixedSizeSquareMatrixOpsImpl.hpp')])

prop('C34', 'Eigenvectors of 3x3 symmetric matrices are correct',
     'For every 3x3 symmetric matrix symEigenvectors returns orthonormal vectors in the rows, vector i belonging to eigenvalue i, also for repeated eigenvalues.',
     [I], 'all symmetric real matrices',
     'Tests compare pseudo-random matrices.',
     ['src/fixedSizeSquareMatrixOpsImpl.hpp'], [('symEigenvectors', 'src/fixedSizeSquareMatrixOpsImpl.hpp')])

prop('C31', 'Python objects expose exactly the wrapped container, under its access level',
     'A Python object made from an array, sorted array, array of arrays, array of sets or matrix hands out views of the wrapped container that share its memory, with its element type, sizes and strides; a view is writeable only when the access level is MODIFIABLE or higher, and never for the values of sets and sorted arrays, columns and offsets. Operations that change the container are refused below RESIZEABLE and on uninitialised objects. Wrong arguments (types, numbers, lengths, indices, sizes or columns out of range) raise a Python exception and leave the container as it was; otherwise each operation does what its C++ counterpart does, for values in any order and with duplicates. Every operation returns a result or raises, never both, no reference is leaked or released twice, and this holds also when any Python call it makes fails.',
     [I, H], 'all containers, indices, values, access levels, and every single failing Python call',
     'The Python tests need NumPy, are not built here, and run a few scripts; the failure paths are never taken.',
     ['src/python'], [('createNumpyArrayImpl / parseNumPyArray', 'src/python/numpyHelpers.cpp'), ('PyArray', 'src/python/PyArray.cpp'), ('PySortedArray', 'src/python/PySortedArray.cpp'), ('PyArrayOfArrays', 'src/python/PyArrayOfArrays.cpp'), ('PyArrayOfSets', 'src/python/PyArrayOfSets.cpp'), ('PyCRSMatrix', 'src/python/PyCRSMatrix.cpp'), ('PyObjectRef', 'src/python/pythonHelpers.hpp'), ('PythonFunction', 'src/python/PyFunc.hpp')])

prop('C32', 'Buffers managed by CHAI move between memory spaces coherently',
     'Moving a CHAI-managed buffer, or a container built on such buffers, to a memory space makes the values last written in a space where it was touched available there, with size and capacity unchanged; a copy captured while an execution space is active lives in that space and counts as a change there. Moves through elements of const type, or without touch, never count as a change, and what cannot be changed on a device (sorted arrays, offsets, constant sizes and columns) is never carried back from there. Reallocation keeps the values that fit, no copy of the memory is leaked, and in builds without a device every other space is rejected.',
     [H, C], 'all histories of moves, touches, captures and reallocations over two memory spaces',
     'Device tests need hardware and are not run; the coherence of the copies depends on the order of moves and touches.',
     ['src/ChaiBuffer.hpp', 'src/bufferManipulation.hpp', 'src/ArrayOfArraysView.hpp', 'src/SortedArrayView.hpp'], [('move / moveNested / registerTouch / reallocate', 'src/ChaiBuffer.hpp'), ('move', 'src/ArrayOfArraysView.hpp'), ('move', 'src/SortedArrayView.hpp')],
     state=None)

prop('C33', 'Stack traces and signal reports name the active calls and the cause',
     'A stack trace lists the active calls from the caller on outwards, each exactly once and in order, at least the 25 innermost ones, for stacks of every depth: with the demangled name, the mangled one when it does not demangle, the file when there is no symbol, and, when asked for and an addr2line is configured, the source location that tool prints, in full. The header states the number of calls listed. The signal handler reports the signal and, for a floating-point exception, each exception that was raised and no other. No memory, file descriptor or child process is leaked, also when a pipe or a process cannot be created.',
     [I, C], 'all stack depths, addresses, kinds of symbols, answers and failures of the tools involved, all signals and sets of raised exceptions', 'Tests print one stack and look at nothing.',
     ['src/system.cpp'], [('stackTrace / collect / demangle', 'src/system.cpp'), ('getSourceLocationFromFrame / addr2line', 'src/system.cpp'), ('stackTraceHandler / getFpeDetails', 'src/system.cpp')])



def main(claimed):
    with open(HERE + '/properties.jsonl', 'w') as o:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            assert len(p['title']) <= 80, p['id']
            o.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in claimed:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                                'technique': 'symbolic execution of the LLVM bitcode compiled from /repo/src, decided by Z3, counterexamples replayed natively', 'level': 'model_checking',
                                'level_note': NOTES.get(p['id'], 'Every input and history within the bounds stated in the harness and evidence is decided by the solver; nothing is claimed beyond them. Trusts clang/LLVM lowering, the lvsym engine (validated by replaying sampled paths natively) and Z3; camp and RAJA are replaced by serial stand-ins.')})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'no check has been built for it yet'})
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)


NOTES = {}
if __name__ == '__main__':
    import glob
    claimed = set()
    for f in glob.glob(HERE + '/harness/C*.cpp'):
        claimed.add(os.path.basename(f)[:3])
    main(claimed)
