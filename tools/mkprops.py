#!/usr/bin/env python3
"""Source of properties.jsonl and of MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O, S, I = 'src/ovxx/', 'src/vsip/', 'src/vsip/impl/'
P = []
def p(id, title, st, over, text, why, files, mech, state=(), obs=(), tech='', note=''):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(obs), hook_needed=None), _tech=tech, _note=note))

MON = 'runtime monitoring: ASan+UBSan build of the real library under generated workloads, '
LIM = 'Decided on the executions the generated workload produces only. '

p('P01', 'A subview denotes exactly the selected elements of its parent',
  'Every subview of a vector, matrix or tensor, and every subview of a subview (subdomains with any stride, rows, columns, diagonals, transposes, slices, fibres, permutations, real and imaginary parts), reads and writes exactly the parent elements its selection denotes, in the order it denotes. Writing through it changes no other element of the parent. This holds for every storage layout and dimension order of the parent.',
  ['inputs', 'programs'], 'all chains of subview operations, all in-range selections with positive and negative strides, all parent shapes and layouts, all element types',
  'tests use a handful of fixed shapes, mostly one level of subview and positive strides; compositions (a reversed subset of a transpose of a slice of a split-complex array) are combinatorial',
  [O+'expr/subset.hpp', O+'expr/sliced.hpp', O+'expr/transposed.hpp', O+'expr/permuted.hpp', O+'expr/diag.hpp', O+'expr/component.hpp', O+'strided.hpp', O+'layout.hpp', I+'vector.hpp', S+'matrix.hpp', S+'tensor.hpp', S+'dense.hpp', S+'domain.hpp'],
  [('Subset index and pointer arithmetic', O+'expr/subset.hpp'), ('Sliced/Sliced2 dimension bookkeeping', O+'expr/sliced.hpp'), ('Transposed, Permuted, Diag, Component blocks', O+'expr/'), ('layout index arithmetic', O+'layout.hpp')],
  [('parent elements', 'the storage all subviews alias', O+'storage/')], ['get/put and operator() of the view', 'get of the parent'],
  MON + 'index-list reference model of every view compared with all parent elements after each write',
  LIM + 'Shapes up to a few hundred elements; subviews of expressions and of distributed views are observed under P03 and P19.')

p('P02', 'Assignment stores every source element once and nothing else',
  'Assigning one view to another of the same shape makes each destination element equal to the corresponding source element converted to the destination type. No element outside the destination, and nothing in the source, changes. This holds for every pair of storage forms, dimension orders, strides, alignments and complex formats, including assigning a matrix its own transpose in place.',
  ['inputs', 'programs'], 'all pairs of left and right storage forms of 1-D, 2-D and 3-D views, all shapes, all supported element type pairs',
  'the assignment path (memcpy, strided copy, blocked transpose, tensor permutation, element loop) is chosen per layout pair and shape; tests cover few pairs and few shapes, and compare only the destination',
  [O+'assign.hpp', O+'assign/copy.hpp', O+'assign/loop_fusion.hpp', O+'assign/rbo.hpp', O+'dispatch.hpp', O+'dispatcher/dispatcher.hpp', O+'dda/accessor.hpp', O+'expr/traversal.hpp'],
  [('dispatch of assignment to an evaluator', O+'assign.hpp'), ('copy and transpose evaluators', O+'assign/copy.hpp'), ('fused element loop', O+'assign/loop_fusion.hpp')],
  [('destination parent', 'complete storage around the destination', O+'storage/')], ['get of both complete parents after the assignment'],
  MON + 'complete source and destination parents compared with a reference model',
  LIM + 'Non-overlapping operands except for the in-place transpose.')

p('P03', 'Element-wise expressions equal the element-by-element scalar formula',
  'Assigning, or otherwise reading, any expression built from element-wise functions, operators, user functions, casts and scalars gives, at every index, the value obtained by applying the scalar operations to the operands at that index, with the documented result type. The result does not depend on the storage of operands and destination, on how the expression is fused or split into temporaries, or on whether it is evaluated whole or through a subview. Compound assignment behaves as the corresponding plain assignment.',
  ['inputs', 'programs'], 'all element-wise functions and operators, all nestings of them, all operand types and type mixes, all storage forms and shapes, all operand values in the domain of the functions',
  'tests sample each function on a few values in dense storage; nesting, type mixing and storage combinations are unbounded',
  [O+'view/fns_elementwise.hpp', O+'view/functors.hpp', O+'view/operators.hpp', O+'view/cast.hpp', O+'math/scalar.hpp', O+'expr/unary.hpp', O+'expr/binary.hpp', O+'expr/ternary.hpp', O+'expr/scalar.hpp', O+'expr/generator.hpp', O+'expr/vmmul.hpp', O+'expr/evaluate.hpp', O+'assign/loop_fusion.hpp', O+'assign/rbo.hpp', I+'fns_userelt.hpp', I+'promotion.hpp', S+'complex.hpp'],
  [('functors and return types', O+'view/fns_elementwise.hpp'), ('scalar kernels', O+'math/scalar.hpp'), ('expression blocks', O+'expr/'), ('fused evaluation', O+'assign/loop_fusion.hpp')],
  [], ['every element of the destination and of its surroundings', 'direct get of the expression'],
  MON + 'independent scalar formula in long double evaluated per element',
  LIM + 'Floating-point agreement is to a small multiple of the precision of the result type; small-integer cases are exact.')

p('P04', 'User storage is synchronised by admit and release only as requested',
  'For a view over user-supplied memory, an admit with update makes the view hold exactly the values in the user memory, and a release with update makes the user memory hold exactly the view values, in the format (real, interleaved, split, array) it was supplied in. Without update, or while admitted, the user memory is not read or written behind the user\'s back beyond its extent; rebinding switches to the new memory and find returns the memory currently bound. Any sequence of these operations keeps the documented admitted/released state.',
  ['histories', 'inputs'], 'all sequences of admit/release/rebind/find/read/write over all user formats and block complex formats, all shapes and dimension orders',
  'tests walk a few fixed admit-release sequences; the state space of sequences times formats is what users exercise',
  [S+'dense.hpp', O+'strided.hpp', O+'storage/user.hpp', O+'storage/manager.hpp', O+'storage/host.hpp', O+'storage/storage.hpp', O+'storage/traits.hpp'],
  [('user storage copy-in and copy-out', O+'storage/user.hpp'), ('admit/release protocol', O+'storage/manager.hpp')],
  [('admitted flag', 'whether the library owns the data now', O+'storage/manager.hpp')], ['user arrays with guard zones', 'view get', 'admitted()', 'user_storage()', 'find()'],
  MON + 'history monitor: sequential model of user memory, block and admitted state',
  LIM)

p('P05', 'Direct data access presents the block in the requested layout and syncs it',
  'Direct access to a block\'s data in any requested dimension order, packing and complex format presents, at the strides and sizes it reports, exactly the block\'s values when input is requested. After an access with output ends (or is synchronised), the block holds exactly what was stored through the pointer; an input-only access changes nothing. Requested packing (density, alignment) is honoured, whether or not a temporary copy is used.',
  ['inputs', 'programs'], 'all blocks, all compile-time and run-time layout requests, in/out/inout modes, caller-supplied or internal buffers',
  'tests use a few layouts; direct-versus-copy decisions and copies depend on the layout pair, alignment and shape',
  [S+'dda.hpp', O+'dda/accessor.hpp', O+'dda/block_copy.hpp', O+'dda/runtime.hpp', O+'dda/persistent.hpp', O+'layout.hpp', S+'layout.hpp', O+'adjust_layout.hpp', O+'block_traits.hpp'],
  [('accessor selection: direct, reordering copy, flexible copy', O+'dda/accessor.hpp'), ('block copies', O+'dda/block_copy.hpp'), ('run-time layout comparison', O+'dda/runtime.hpp'), ('applied layouts', O+'layout.hpp')],
  [], ['ptr/stride/size of the access object', 'get of the block and surroundings after it ends'],
  MON + 'all elements seen through ptr/stride compared with get; guard elements checked',
  LIM)

p('P06', 'Blocks live exactly as long as they are referenced, suitably aligned',
  'Storage is alive while any view, subview, alias or block reference can reach it, whatever the order in which views are copied, reassigned, returned and destroyed. It is freed exactly once when the last reference goes: no leak, no double free, no access after free, no access outside it. Allocated data satisfies the alignment the layout or allocation promised.',
  ['histories', 'programs'], 'all sequences of creating, copying, subviewing, swapping and destroying views and blocks, all block types and sizes',
  'ownership errors depend on the order of operations and stay invisible without instrumentation; tests build no such histories and are not run under sanitizers',
  [O+'refcounted.hpp', O+'pointer.hpp', O+'storage/block.hpp', O+'storage/host.hpp', O+'storage/user.hpp', O+'storage/manager.hpp', O+'aligned_array.hpp', O+'aligned_allocator.hpp', O+'allocator.cpp', O+'allocator.hpp', O+'is_same_ptr.hpp', O+'view/view.hpp', O+'strided.hpp', O+'expr/subset.hpp', O+'expr/sliced.hpp'],
  [('reference counting', O+'refcounted.hpp'), ('by-value and by-reference block storage', O+'storage/block.hpp'), ('aligned allocation', O+'aligned_array.hpp')],
  [('reference counts', 'number of holders of a block', O+'refcounted.hpp'), ('live allocations', 'counted by an interposed allocator', O+'allocator.hpp')], ['allocator events', 'AddressSanitizer', 'values read through surviving views'],
  MON + 'conservation of allocations counted by an interposed allocator, unique-id values, addresses checked',
  LIM)

p('P07', 'Library initialisation nests and finalisation happens once, at the end',
  'However library objects are created, copied, nested and destroyed, the library stays usable while at least one exists and is finalised exactly once after the last. Repeated initialise-use-finalise cycles behave as the first, as far as MPI, kept initialised by the application, permits them. Command-line options meant for the library are consumed and all others preserved in order.',
  ['histories', 'schedules', 'inputs'], 'all nestings and orders of construction and destruction, all argument vectors, all numbers of processes, threads creating library objects concurrently',
  'each test process creates one library object with no arguments of interest',
  [O+'library.cpp', O+'library.hpp', S+'initfin.hpp', O+'mpi/service.cpp', O+'mpi/service.hpp', O+'allocator.cpp', O+'support.hpp'],
  [('initialisation counting', O+'library.cpp'), ('service start and stop', O+'mpi/service.cpp')],
  [('initialisation count', 'number of live library objects', O+'library.cpp')], ['argc/argv', 'library use inside each nesting', 'exit status', 'sanitizer reports'],
  'runtime monitoring: random create/copy/destroy histories over argument vectors with ASan+UBSan and ThreadSanitizer',
  LIM)

p('P08', 'Reductions return the value, and an index attaining it, over all elements',
  'Every reduction of a view (all/any true, sums, means, mean squares, sums of squares, extrema and magnitude extrema) equals the reduction of its elements in any order. Reductions that report a position report an index at which the extremum is attained. The result is independent of storage, dimension order and of whether the operand is an expression.',
  ['inputs', 'programs'], 'all reductions, element types, shapes including single elements, storage forms and expression operands, extremum at any position and of any sign',
  'tests place extrema at few positions in dense storage with benign values',
  [O+'reductions/functors.hpp', O+'reductions/reductions.hpp', O+'reductions/reductions_idx.hpp', I+'reductions/reductions.hpp', I+'reductions/reductions_idx.hpp'],
  [('reduction functors', O+'reductions/functors.hpp'), ('dimension-ordered traversal', O+'reductions/reductions.hpp'), ('index reductions', O+'reductions/reductions_idx.hpp')],
  [], ['returned values and indices'],
  MON + 'independent long double reduction; index validated by reading the element',
  LIM + 'Ties may resolve to any index.')

p('P09', 'Matrix and vector products equal their defining sums',
  'Dot, outer, Kronecker, matrix-vector, vector-matrix and matrix-matrix products with all their conjugating and transposing variants, general matrix product and sum, cumulative sum, modulation, vector-matrix multiply, transpose and Hermitian equal their defining sums. This holds for every element type, shape, storage order, stride and complex format, whichever computational back end is chosen. Operands are unchanged and nothing outside the destination is written.',
  ['inputs', 'programs'], 'all product functions, all operand storage combinations, all conforming shapes, real and complex types',
  'the back end (BLAS, generic, split) and the leading dimension handling depend on layouts; tests mostly use dense operands and square-ish sizes',
  [S+'math.hpp', I+'matvec.hpp', I+'matvec_prod.hpp', I+'vmmul.hpp', O+'expr/vmmul.hpp', O+'lapack/blas.hpp', O+'dispatch.hpp'],
  [('product front ends', I+'matvec_prod.hpp'), ('general products and sums', I+'matvec.hpp'), ('BLAS dispatch', O+'lapack/blas.hpp')],
  [], ['every element of destination and surroundings', 'operands after the call'],
  MON + 'defining sums evaluated in long double; exact for small integers',
  LIM + 'Trusts the installed BLAS.')

p('P10', 'Fourier transforms equal the defining DFT for every form and layout',
  'A one- or multi-dimensional or multiple FFT object, in any supported direction, real/complex form, in-place, by-reference or by-value call, scale factor, axis, dimension order, stride and complex format, produces the defining DFT times the scale. Objects are reusable: every call gives the same answer for the same input, whatever was computed before. The input of an out-of-place transform is unchanged and nothing outside the output is written.',
  ['inputs', 'histories', 'configurations'], 'all lengths (even, odd, prime, one), types, directions, axes, layouts, call forms and sequences of calls on one object',
  'tests use powers of two and a few layouts; in-place fallback and workspace paths depend on run-time layout queries',
  [O+'signal/fft.hpp', O+'signal/fft/backend.hpp', O+'signal/fft/workspace.hpp', O+'signal/fft/functor.hpp', O+'signal/fft/util.hpp', O+'signal/fft/dft.hpp', O+'fftw/fft.cpp', O+'fftw/fft.hpp', O+'fftw/fftw.cpp', I+'signal/fft.hpp'],
  [('workspace and layout queries', O+'signal/fft/workspace.hpp'), ('FFTW plans', O+'fftw/fftw.cpp'), ('fallback DFT', O+'signal/fft/dft.hpp')],
  [('plan and temporaries', 'state kept by an FFT object between calls', O+'fftw/fftw.cpp')], ['output and surroundings', 'input after the call', 'reported sizes and scale'],
  MON + 'direct O(n^2) DFT in long double per call, repeated calls on one object',
  LIM + 'Trusts FFTW arithmetic up to rounding.')

p('P11', 'FIR and IIR filters give the same stream however it is split into frames',
  'Feeding a signal to a filter that saves state, in frames, yields the output of filtering (and decimating) the whole signal at once; after reset, or without saved state, each frame is filtered as if it were the first. Copies of a filter continue independently from the state at the time of the copy. Reported lengths are those actually produced and nothing outside the output is written.',
  ['histories', 'inputs'], 'all kernels, symmetries, decimations, frame lengths, sequences of filter calls, resets and copies, all storage forms of input and output',
  'the carried state depends on the history of frames; tests use a few histories',
  [O+'signal/fir.hpp', I+'signal/fir.hpp', I+'signal/iir.hpp'],
  [('FIR state and decimation offset', O+'signal/fir.hpp'), ('IIR sections and state', I+'signal/iir.hpp')],
  [('filter state', 'samples carried between frames', O+'signal/fir.hpp')], ['every output sample', 'returned output lengths', 'reported properties'],
  MON + 'history monitor: direct-form reference over the concatenated stream in long double',
  LIM)

p('P12', 'Convolution and correlation equal their defining sums on every support',
  'One- and two-dimensional convolution, for every kernel symmetry, region of support and decimation, and one- and two-dimensional correlation, biased and unbiased, equal their defining sums. Reported kernel, input and output sizes match the outputs produced. Results do not depend on storage, complex format or earlier calls on the object; nothing outside the output is written.',
  ['inputs', 'histories', 'configurations'], 'all kernel and input sizes, symmetries, supports, decimations, types and storage forms',
  'the edge regions and symmetric expansion differ by parity and size relation; tests sample a few',
  [O+'signal/conv.hpp', O+'signal/corr.hpp', I+'signal/conv.hpp', I+'signal/corr.hpp', I+'signal/types.hpp'],
  [('kernel expansion and output size', O+'signal/conv.hpp'), ('direct and FFT-based correlation', O+'signal/corr.hpp')],
  [], ['every output element and surroundings', 'reported sizes'],
  MON + 'defining sums in long double', LIM)

p('P13', 'Every histogram sample is counted exactly once in its bin',
  'A histogram counts each input value in exactly one bin: the first for values below the range, the last for values at or above its end, and otherwise the equal-width bin containing the value. Bin counts sum to the number of values seen. With accumulation, counts add up over calls; otherwise each call starts afresh.',
  ['inputs', 'histories'], 'all ranges, bin counts, value types, values on and next to bin edges, sequences of calls, vectors and matrices of any storage',
  'tests use round ranges and values away from edges',
  [I+'signal/histo.hpp'], [('bin computation', I+'signal/histo.hpp')], [('accumulated counts', 'kept between calls when accumulating', I+'signal/histo.hpp')],
  ['returned counts'], MON + 'exact-arithmetic bin oracle with conservation of counts', LIM + 'Values within rounding distance of an interior edge may fall on either side.')

p('P14', 'Windows and frequency swaps have their defining values for every size',
  'Blackman, Chebyshev, Hanning and Kaiser windows have their defining coefficients for every length and parameter, and are symmetric. A frequency swap of a vector or matrix moves every element by half its extent, exchanging halves for even and odd extents alike, whatever the storage, also in place.',
  ['inputs'], 'all lengths, ripple and beta parameters, shapes, storage forms, in-place or not',
  'tests compare a few lengths to recorded numbers', [O+'signal/window.cpp', O+'signal/window.hpp', O+'signal/freqswap.hpp', I+'signal/window.hpp', I+'signal/freqswap.hpp'],
  [('window formulas', O+'signal/window.cpp'), ('swap evaluation', O+'signal/freqswap.hpp')], [], ['every element of the result'],
  MON + 'closed-form window definitions in long double; permutation oracle', LIM)

p('P15', 'Random generators are reproducible and independent of how they are drawn',
  'Equal seeds and parameters give equal streams. Filling a vector, matrix or tensor uses the next numbers of the stream, each exactly once, in index order for vectors and row-major destinations; drawing them singly gives the same numbers. Both generators follow the specified recurrences, so streams are identical on every platform: portable subsequences start at evenly spaced points of the sequence with increments of their own, non-portable ones interleave to the whole sequence. Uniform numbers lie in the unit interval, normal ones are the specified sums of uniform ones.',
  ['inputs', 'histories'], 'all seeds, sub-sequence counts and ids, portable and non-portable generators, types, sequences of draws of mixed shape',
  'tests compare short prefixes for a few seeds', [S+'random.hpp', O+'expr/generator.hpp'],
  [('linear congruential generators', S+'random.hpp'), ('lazy fills', O+'expr/generator.hpp')], [('generator state', 'advanced by each draw', S+'random.hpp')], ['drawn values'],
  MON + 'independent implementation of the recurrence compared draw by draw', LIM)

p('P16', 'Solvers return solutions and factors that satisfy their equations',
  'LU, Cholesky, QR and SVD objects and the covariance, least-squares and Toeplitz solvers return results that satisfy their defining equations to working precision for well-conditioned problems. Singular values are non-negative and decreasing, orthogonal factors are orthogonal, and failed decompositions are reported. Solver objects can be reused for further decompositions and right-hand sides, and results do not depend on storage of the operands.',
  ['inputs', 'histories'], 'all shapes, types, transposition and storage options, numbers of right-hand sides, storage forms, sequences of decompose/solve/query calls',
  'tests use a few matrices and one call sequence', [I+'solver/lu.hpp', I+'solver/cholesky.hpp', I+'solver/qr.hpp', I+'solver/svd.hpp', I+'solver/llsqsol.hpp', I+'solver/covsol.hpp', I+'solver/toepsol.hpp', I+'solver/common.hpp', O+'lapack/lu.hpp', O+'lapack/cholesky.hpp', O+'lapack/qr.hpp', O+'lapack/svd.hpp', O+'lapack/lapacke.hpp', O+'lapack/flapack.hpp'],
  [('LAPACK wrappers', O+'lapack/'), ('solver interfaces', I+'solver/')], [('stored factors', 'decomposition kept between calls', O+'lapack/')], ['solutions, products and factors'],
  MON + 'residuals, orthogonality and reconstruction computed in double/long double', LIM + 'Trusts the installed LAPACK.')

p('P17', 'Selection and generation functions touch exactly the selected elements',
  'The index-collecting function lists exactly the positions of true elements, in order, and counts them; gather and scatter move exactly the indexed elements; clip and inverted clip replace exactly the out-of-range or in-range values by the given limits; first finds the first position at or after a start satisfying a predicate; swap exchanges two views element by element; ramp yields its arithmetic progression.',
  ['inputs'], 'all shapes, index sets, thresholds, predicates and storage forms', 'tests use one or two small inputs per function',
  [S+'selgen.hpp', O+'expr/generator.hpp', O+'vertex.hpp'], [('selection functions', S+'selgen.hpp')], [], ['results and all surrounding elements'],
  MON + 'reference selection over the element lists', LIM)

p('P18', 'Maps place every global index on exactly one processor, invertibly',
  'For every map and domain, each global index belongs to exactly one subblock (to every one, for a replicated map), at exactly one local index, and converting between global and local indices is a bijection consistent with reported subblock domains, patches, sizes and owning processors. Block distributions are balanced as specified and cyclic ones follow their block size.',
  ['configurations', 'inputs'], 'all distributions and combinations in up to three dimensions, all block sizes, processor grids (including more processors than elements) and extents',
  'tests list a few grids and extents', [S+'map.hpp', I+'dist.hpp', I+'replicated_map.hpp', I+'local_map.hpp', I+'parallel.hpp', O+'parallel/map_utils.hpp', O+'parallel/subset_map_decl.hpp', O+'parallel/transpose_map_decl.hpp', O+'parallel/map_traits.hpp'],
  [('per-dimension distributions', I+'dist.hpp'), ('map index conversions', S+'map.hpp')], [('subblock table', 'which processor holds which subblock', S+'map.hpp')], ['all query functions of map and view'],
  MON + 'exhaustive enumeration of every global index of each generated map against an independent distribution oracle', LIM)

p('P19', 'Assignment between distributed views equals the serial assignment',
  'Assigning a view distributed by any map to a view distributed by any other gives, on every processor, exactly the values the serial assignment would, for subviews and transposes too, directly or through a prepared assignment object executed any number of times. Nothing else changes, and every processor completes.',
  ['configurations', 'inputs', 'schedules'], 'all pairs of maps on one to several processors, all shapes, subviews, types, dimension orders and repeated executions, whatever the relative speed of the processes',
  'tests use a few map pairs and mostly one processor count in this environment', [O+'parallel/assign.hpp', O+'parallel/assign_chain.hpp', O+'parallel/assign_block_vector.hpp', O+'parallel/assign_local.hpp', O+'parallel/copy_chain.cpp', O+'parallel/distributed_block.hpp', O+'parallel/dist_utils.hpp', O+'mpi/chain_builder.hpp', O+'mpi/communicator.hpp', O+'parallel/subset_map_decl.hpp', O+'assign.hpp'],
  [('send/receive list construction', O+'parallel/assign_chain.hpp'), ('local copies', O+'parallel/assign_local.hpp'), ('distributed storage', O+'parallel/distributed_block.hpp')], [('local subblocks', 'the part of the data each process holds', O+'parallel/distributed_block.hpp')], ['local elements on every process with their global indices'],
  MON + 'multi-process runs; every process checks all its local elements against the serial model, injected delays', LIM + 'One to six processes on one host.')

p('P20', 'Distributed expressions, reductions and element access equal the serial ones',
  'Expressions over distributed operands, reductions of them, element reads and writes, and collective communication give the same values on every processor as the serial program. Results are independent of the maps of the operands.',
  ['configurations', 'inputs', 'schedules'], 'all maps, processor counts, expression shapes, reductions and element accesses', 'tests use few maps and processor counts',
  [O+'parallel/expr.hpp', O+'parallel/distributed_block.hpp', O+'parallel/support.hpp', O+'parallel/util.hpp', O+'reductions/reductions.hpp', O+'reductions/reductions_idx.hpp', O+'mpi/communicator.hpp', O+'mpi/communicator.cpp', O+'mpi/group.cpp', I+'parallel.hpp'],
  [('expression redistribution', O+'parallel/expr.hpp'), ('reduction combination', O+'reductions/reductions.hpp'), ('communicator', O+'mpi/communicator.hpp')], [], ['values on every process'],
  MON + 'multi-process runs against the serial model on every process', LIM + 'One to six processes on one host.')

p('P21', 'Domains and indices follow their arithmetic definitions',
  'Domain arithmetic (offset, stride scaling, subdomains of domains, size, element counts, comparisons, intersections, iteration) denotes exactly the index sets its definition gives, for positive and negative strides in every dimension.',
  ['inputs'], 'all first/stride/length triples in up to three dimensions and all operators', 'tests use a few triples, mostly positive unit strides',
  [S+'domain.hpp', O+'domain_utils.hpp', O+'length.hpp', O+'vertex.hpp'], [('domain operators', S+'domain.hpp'), ('intersection and traversal', O+'domain_utils.hpp')], [], ['index sets denoted by results'],
  MON + 'index sets enumerated by an independent model', LIM)

p('P22', 'Serialised views read back as the same values',
  'Writing a view\'s data and its descriptor and reading them into any compatible view restores exactly the same shape and values, whatever the dimension order, packing and complex format on either side. A descriptor that does not fit is rejected rather than misread.',
  ['inputs'], 'all storage forms, shapes and types on either side', 'tests round-trip a few dense views', [S+'serialization.hpp', O+'byteswap.hpp'],
  [('descriptor and compatibility', S+'serialization.hpp')], [], ['descriptor fields', 'values after reading'], MON + 'round trip against element lists', LIM)

p('P23', 'Independent threads may use the library concurrently',
  'Threads working on distinct data, with their own library and worker objects, get the results they would get alone, and threads that only read shared views see their values; there is no data race inside the library. Reference counts shared by threads stay exact.',
  ['schedules'], 'all interleavings of threads running the serial operations on private data, sharing read-only views, and creating and destroying views of shared blocks', 'tests are single-threaded',
  [O+'refcounted.hpp', O+'thread.hpp', O+'library.cpp', O+'allocator.cpp', O+'fftw/fftw.cpp', O+'fftw/fft.cpp', O+'dda/accessor.hpp', O+'expr/', O+'mpi/service.cpp'],
  [('atomic reference counting', O+'refcounted.hpp'), ('thread-local service state', O+'thread.hpp')], [('reference counts', 'holders of a block', O+'refcounted.hpp')], ['ThreadSanitizer reports', 'results of each thread'],
  'runtime monitoring: ThreadSanitizer and ASan builds under multi-threaded stress with injected yields, results compared with single-threaded ones', LIM)

p('P24', 'Programs of many operations behave as their element-wise model',
  'Any program that interleaves creation, subviewing, assignment, element-wise evaluation, reductions, products and transforms over aliasing views leaves every array with the values the sequential element-wise model gives. Results never depend on uninitialised memory.',
  ['programs', 'histories'], 'all programs over a pool of arrays and overlapping views', 'tests exercise operations one at a time on fresh data',
  [O+'assign.hpp', O+'assign/', O+'expr/', O+'view/', O+'storage/', O+'dda/', O+'reductions/'], [('all of the above in combination', 'src/ovxx')], [('pool of arrays', 'all live storage', O+'storage/')], ['all elements of all arrays after each step'],
  MON + 'random programs stepped in lockstep with a sequential model', LIM)

p('P25', 'Running out of memory is reported and leaves everything consistent',
  'When an allocation inside the library fails, creating stored views with values, expressions, direct accesses and worker objects reports it by std::bad_alloc, and an operation that is declared not to throw ends the program; none goes on with wrong values. When it is reported, existing views keep their values, nothing is leaked or freed twice, and the same operation succeeds once memory is available.',
  ['fault_sequences'], 'a failure injected at each allocation point of each operation', 'no test makes an allocation fail', [O+'allocator.cpp', O+'allocator.hpp', O+'aligned_array.hpp', O+'storage/host.hpp', O+'refcounted.hpp', O+'signal/', O+'lapack/', O+'fftw/fftw.cpp'],
  [('allocation failure reporting', O+'allocator.cpp'), ('owning wrappers', O+'aligned_array.hpp')], [('live allocations', 'counted by an interposed allocator', O+'allocator.hpp')], ['exceptions', 'allocator events', 'values of surviving views'],
  'runtime monitoring: fault injection at every allocation of each operation under ASan+UBSan, conservation of allocations', LIM)

p('P26', 'The Python bindings agree with NumPy on the same data',
  'Through the compiled Python binding modules, blocks, rows, columns, diagonals, slices with any step (also of slices), real and imaginary parts, elementwise functions, reductions, matrix products, signal processing objects, solvers and casts hold and return the same values as the corresponding NumPy computation, also when arrays are converted either way; an array made from a block shares its data and stays usable after the block is gone. Invalid indices, slices and types, and mismatched shapes raise exceptions instead of touching memory.',
  ['inputs', 'programs'], 'all types exposed, shapes, slices and call sequences', 'tests use one or two arrays per function',
  ['python/src', O+'python/block.hpp', O+'python/config.hpp', O+'python/converter.hpp'], [('array conversion', O+'python/block.hpp'), ('slicing and element access', 'python/src')], [], ['values seen from Python'],
  'runtime monitoring: differential monitor of the extension modules against NumPy under random workloads', LIM)

p('P27', 'Every build configuration gives the same values',
  'Whatever the configuration the library is built with (default complex storage split or interleaved, FFTW or the built-in DFT, with or without BLAS, with or without MPI or threads, any allocation alignment), views, storage exchange, direct access, products, transforms, filters, solvers and transfers give the values they give in any other configuration, within rounding, without undefined behaviour, and the library can be started and finished repeatedly without leaving memory behind.',
  ['inputs', 'configurations'], 'all configurations that need no other software, times all inputs of the operations', 'the test suite is run in one configuration',
  ['configure.ac', O+'detail/config.hpp.in', O+'library.cpp', O+'allocator.cpp', O+'signal/', O+'fftw/', O+'dda/', O+'storage/', O+'assign/', V+'impl/matvec_prod.hpp'],
  [('default storage format', O+'complex_traits.hpp'), ('DFT backend', O+'signal/dft.hpp'), ('library lifetime', O+'library.cpp')], [], ['values', 'sanitizer reports', 'live allocations'],
  'runtime monitoring: the monitors of other properties under ASan+UBSan on the library compiled in seven other configurations', LIM)

p('P28', 'Repeating an operation does not accumulate memory',
  'Once the views, objects, maps and expressions a program has created are gone, so is the memory they used: repeating any operation - subviews, direct access, transforms, filters, solvers, serialization, distributed assignments, expressions, reductions and local views - leaves no more memory allocated than doing it once.',
  ['histories', 'inputs'], 'all sequences of operations repeated in one process, serial and distributed', 'tests end after one use of each operation',
  [O+'refcounted.hpp', O+'storage/', O+'dda/', O+'expr/', O+'parallel/', O+'signal/', O+'lapack/', O+'mpi/', V+'map.hpp'],
  [('reference counting', O+'refcounted.hpp'), ('expressions of distributed views', O+'parallel/expr.hpp'), ('owning members of worker objects', O+'signal/')], [('live allocations', 'recorded by interposed allocation functions', O+'allocator.cpp')], ['allocation and release events'],
  'runtime monitoring: interposed allocators record every allocation while the workloads of other monitors are repeated in one process, serially and under MPI', LIM)

import sys
have = [d for d in sorted(os.listdir(os.path.join(V, 'checks'))) if os.path.exists(os.path.join(V, 'checks', d, 'spec.py'))]
drop = set(sys.argv[1:])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if not k.startswith('_')}) + '\n')
na = {}
m = dict(version=1, setup_cmd='python3 run.py --selfcheck',
         hooks=dict(guard='OVXX_VERIF', enable='no hooks were needed: every monitor observes the public interface, interposed allocators or sanitizers', source_commits=[]),
         checks=[dict(property=x['id'], quick_cmd='./run.py %s --tier quick' % x['id'], thorough_cmd='./run.py %s --tier thorough' % x['id'],
                      technique=x['_tech'], level='exploration', level_note=x['_note'].strip()) for x in P if x['id'] in have],
         not_applicable=[dict(property=x['id'], reason=na.get(x['id'], 'check not built')) for x in P if x['id'] not in have],
         notes='See DESIGN.md. Each check compiles its monitors together with the library sources of the current /repo tree.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(have)
