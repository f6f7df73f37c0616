prop('C01', 'Compressor and decompressor agree on the stream layout',
     'Every field of a compressed stream is written and read at the same position, with the same width and type, element count, alphabet and presence condition, by the compressor and by the decompressor of that stream kind, for both element types. Fields follow each other without gap or overlap, and the size the compressor reports is exactly where its last field ends.',
     ['inputs', 'configurations'], 'every grid or mesh size, every data content (so every field length), float and double, all 17 compressor/decompressor pairs',
     'The tests run four programs on a few fixed grids, and only with float; field lengths, optional fields and the double instances are not exercised.',
     ['src/sz_compress_3d.cpp', 'src/sz_decompress_3d.cpp', 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'src/sz_decompress_cp_preserve_2d.cpp', 'src/sz_decompress_cp_preserve_3d.cpp', 'include/sz_compression_utils.hpp', 'include/sz_decompression_utils.hpp'],
     [('write_variable_to_dst / write_array_to_dst cursor', 'include/sz_compression_utils.hpp'), ('read_variable_from_src / read_array_from_src cursor', 'include/sz_decompression_utils.hpp')],
     'writer/reader layout agreement by gated symbolic dataflow over LLVM IR',
     'Decided from the IR of both functions for all inputs at once; entropy coder and bit-map coder are taken as black boxes that consume what they produce.')
prop('C02', 'Point-by-point decoders reproduce the encoder\'s reconstructed field',
     'For the critical-point preserving codecs that encode point by point (the 2D relative, absolute and log-domain online codecs, the bilinear codec, the 3D absolute online codec, the 3D log-domain offline and online codecs and the codec for unstructured meshes), the value the decompressor stores for each point is exactly the value the compressor kept as that point\'s reconstruction, taken from the same quantisation code, error-bound code, verbatim value and previously reconstructed neighbours (in the log-domain codecs: the logarithm it goes on predicting from). Every decompressor of a grid sets every element of its results, and never predicts from one it has not set yet.',
     ['inputs', 'configurations'], 'every input field, grid size and error bound; float and double',
     'The tests compress a few fields on a few grids; drift shows only on particular branch combinations (borders, escapes, zero bounds) and data.',
     ['src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'src/sz_decompress_cp_preserve_2d.cpp', 'src/sz_decompress_cp_preserve_3d.cpp'],
     [('predict / quantize / reconstruct loop', 'src/sz_compress_cp_preserve_2d.cpp'), ('predict / dequantize loop', 'src/sz_decompress_cp_preserve_2d.cpp')],
     'relational symbolic dataflow (lockstep of gated SSA expressions, coinductive cursor matching)',
     'Expression equality is syntactic after normalisation, operation for operation in floating point, so it implies bit-identical reconstruction under the same compiler semantics.')
prop('C03', 'Every block of memory has one owner and is released exactly once',
     'Every temporary buffer a compression or decompression call allocates is released exactly once, with the release function that matches its allocator, on every path through the call and is not used after that; the buffer a call returns is allocated by the call, never released by it, and handed to the caller; memory that belongs to the caller is never released or returned as a fresh result.',
     ['inputs', 'histories'], 'every path of every library function: optional fields, empty escapes, early exits, conditional paddings',
     'A leak or an early release changes no output of a test run; a double release shows only on the path that takes it.',
     ['src/sz_compress_3d.cpp', 'src/sz_decompress_3d.cpp', 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'src/sz_compress_pwr.cpp', 'src/sz_decompress_pwr.cpp', 'src/sz_decompress_cp_preserve_2d.cpp', 'src/sz_decompress_cp_preserve_3d.cpp', 'src/sz_huffman.cpp', 'src/sz_lossless.cpp', 'include/sz_compression_utils.hpp', 'include/sz_decompression_utils.hpp'],
     [('malloc/free pairs of the codecs', 'src/sz_compress_cp_preserve_2d.cpp'), ('lossless wrapper', 'src/sz_lossless.cpp'), ('Huffman tree tables', 'src/sz_huffman.cpp')],
     'ownership typestate over gated SSA (allocation to release, path-condition coverage)',
     'Release coverage is decided on path conditions, so a release under a condition that implies the allocation is accepted; std::vector storage is trusted to the C++ library.')
prop('C04', 'A call depends only on its arguments and changes only its results',
     'Compressing or decompressing writes only the buffers and sizes it produces: the caller\'s input arrays (fields, points, error-bound arrays, compressed stream) are never modified, no state survives from one call to the next, the result does not depend on the environment (clock, random numbers, files, environment variables), and no stored or returned value depends on an uninitialised variable or on an element of a temporary array that was not set.',
     ['inputs', 'histories'], 'every call of every exported compressor and decompressor, in any order, float and double',
     'One run per process with an input that is not looked at again cannot show a modified input, a stale static or a value read before it is set.',
     ['src/sz_compress_3d.cpp', 'src/sz_decompress_3d.cpp', 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'src/sz_compress_pwr.cpp', 'src/sz_decompress_pwr.cpp', 'src/sz_decompress_cp_preserve_2d.cpp', 'src/sz_decompress_cp_preserve_3d.cpp', 'src/sz_huffman.cpp', 'src/sz_lossless.cpp', 'include/sz3_utils.hpp'],
     [('working copies decompressed_U / V / W', 'src/sz_compress_cp_preserve_2d.cpp'), ('const T * parameters of the exported functions', 'include/sz_compress_cp_preserve_2d.hpp')],
     'interprocedural effect analysis (points-to, mod/ref summaries) and definite-initialisation over gated SSA',
     'Library routines outside the repository (zstd, libstdc++) are taken by summary.')
prop('C05', 'Memory accesses stay inside their objects for every grid size',
     'For every grid or mesh size, no library function reads or writes before the start or past the end of a local array, a temporary buffer, a table or a caller\'s array of the documented size: the row buffers with their borders, the error-bound, quantisation-index and type arrays, the interval histograms, the working copies and the output arrays are as large as the loops that walk them need, borders and remainders included.',
     ['inputs', 'configurations'], 'every grid size (one-cell and non-multiple-of-block edges included), float and double, every code path',
     'An access a few bytes outside a heap block goes unnoticed in a test run, and shows only on grid shapes (edges smaller than a block, one-cell edges) the tests do not use.',
     ['src/sz_compress_3d.cpp', 'src/sz_decompress_3d.cpp', 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'src/sz_decompress_cp_preserve_2d.cpp', 'src/sz_decompress_cp_preserve_3d.cpp', 'include/sz_compress_block_processing.hpp', 'include/sz_decompress_block_processing.hpp', 'include/sz_optimize_quant_intervals.hpp', 'src/sz_huffman.cpp'],
     [('row buffers of the block codecs', 'include/sz_compress_block_processing.hpp'), ('output buffers', 'src/sz_compress_cp_preserve_2d.cpp'), ('largest possible stream', 'include/sz_compression_utils.hpp')],
     'symbolic range analysis: affine offsets against extents under path conditions, with counterexample sizes for what is reported',
     'About 6600 accesses are proved; accesses whose index comes from data (mesh connectivity, code tables) or whose object size is not expressible are listed as undecided in the evidence and raise no alarm.')
prop('C06', 'No value kept deviates from the original by more than the bound the user gave',
     'Whenever a compressor keeps a quantised reconstruction instead of the original value, that reconstruction was compared with the original value of the same cell and component, and it is kept only when they differ by no more than a bound that the user\'s bound limits: at most the absolute bound in the absolute-error codecs, at most bound * |value| in the relative ones, at most log2(1 + bound) on logarithms in the log-domain ones, and at most the caller\'s entry for the same element where an array of bounds is given. Rounding the bound to a stored exponent, halving it or tightening it for critical points never makes it larger, and everything that fails the comparison is kept verbatim.',
     ['inputs', 'configurations'], 'every value of every field (huge, tiny, denormal, mixed signs), every bound, every branch of prediction, quantisation and escape, float and double',
     'Predictable fields quantise well inside the bound; only a value at the edge of an interval, a rounding in single precision or a bound near the quantisation threshold shows a missing or too generous comparison.',
     ['src/sz_compress_3d.cpp', 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'include/sz_compression_utils.hpp', 'include/sz_compress_block_processing.hpp', 'include/sz_cp_preserve_utils.hpp', 'include/sz3_utils.hpp'],
     [('quantize()', 'include/sz_compression_utils.hpp'), ('eb_exponential_quantize()', 'include/sz_cp_preserve_utils.hpp'), ('verification of decompressed[k]', 'src/sz_compress_cp_preserve_2d.cpp'), ('VariableEBLinearQuantizer', 'include/sz3_utils.hpp')],
     'path-condition implication over gated SSA (store guard implies the comparison) and provenance analysis of the bound',
     'In the log-domain codecs the comparison is on logarithms: the rounding of log2 / exp2 themselves is not bounded.')
prop('C07', 'Log-domain codecs restore signs, zeros and verbatim values',
     'In every codec that works on logarithms (the 2D and 3D log-domain critical-point codecs, the unstructured codec, the pointwise-relative codecs), each output value is 2 to the decoded logarithm of its own element and component with the sign of the original value; it is zero exactly where the original value is zero; a value stored verbatim comes back unchanged in its own element and component. The marker that stands for a zero among the logarithms, and the threshold it is recognised by, stay apart by more than the error bound and the rounding, and the bound on the logarithms is never wider than log2(1 + bound).',
     ['inputs', 'configurations'], 'every field (all-zero, mixed signs, isolated zeros, huge and tiny magnitudes), every bound, float and double',
     'Smooth positive test fields have no zeros, few sign changes and no escapes; a sign taken from the neighbouring element or component, or a zero that comes back as a small number, needs particular data.',
     ['src/sz_compress_pwr.cpp', 'src/sz_decompress_pwr.cpp', 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'src/sz_decompress_cp_preserve_2d.cpp', 'src/sz_decompress_cp_preserve_3d.cpp', 'include/sz_cp_preserve_utils.hpp'],
     [('log_transform', 'include/sz_cp_preserve_utils.hpp'), ('final loop of the log-domain decompressors', 'src/sz_decompress_cp_preserve_2d.cpp'), ('threshold of the pointwise-relative codecs', 'src/sz_compress_pwr.cpp')],
     'gated symbolic dataflow: case split of stored values, joined with the compressor through the stream layout',
     'The accuracy of log2 / exp2 is not decided; relative bounds are taken to be below 100 %; values below 2^-99 decode as zero in the critical-point log codecs (known finding).')
prop('C08', 'Every code handed to the entropy coder is one of its alphabet, and was set',
     'Every integer code (error-bound index, quantisation index, regression-coefficient code) that a compressor hands to the Huffman coder lies between 0 and the size of the alphabet it announces for that array, whatever the data and the bound; every one of the codes it announces was set before. In the block codecs a quantised code never coincides with the codes that mean "stored verbatim" (0) or "equal to the mean" (1).',
     ['inputs', 'configurations'], 'every value (huge prediction errors, infinities of the quotient, tiny bounds), every bound and grid size, float and double',
     'Codes near the ends of the alphabet need prediction errors tens of thousands of times the bound; the coder looks them up in tables without a check, so a stray code corrupts silently.',
     ['src/sz_compress_3d.cpp', 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'include/sz_compress_block_processing.hpp', 'include/sz_compression_utils.hpp', 'include/sz_cp_preserve_utils.hpp', 'include/sz3_utils.hpp'],
     [('quantize()', 'include/sz_compression_utils.hpp'), ('eb_exponential_quantize()', 'include/sz_cp_preserve_utils.hpp'), ('capacity_lorenzo', 'src/sz_compress_3d.cpp'), ('quantize_and_overwrite()', 'include/sz3_utils.hpp')],
     'interval analysis under path conditions over gated SSA, with write-coverage of coded arrays',
     'Bounds are taken to be finite and not negative; in the codecs that interpolate level by level and in the relaxed codec the coverage of the coded arrays is undecided.')
prop('C09', 'The bound of every vertex takes all cells around it into account',
     'In the critical-point-preserving compressors on regular grids the error bound a vertex is coded with is at most the bound derived from each grid cell (triangle, tetrahedron or quadrilateral) that contains the vertex, at the border and in the interior, each derived from that cell\'s own vertices and their coordinates, all components taken at the same vertices; in the codecs that code and derive together, from values as the decompressor will have them for vertices already coded. No value is kept within a bound that was not derived this way, and a cell is never left out for lack of a neighbour that is not its own. In the codecs that first mark the cells that hold a critical point, every cell is marked from its own vertices, and no vertex of a marked cell is kept as a reconstruction.',
     ['inputs', 'configurations'], 'every vertex of every 2D and 3D grid (corners, edges, one-cell grids), float and double',
     'A critical point sits in few cells; a cell that is left out, or derived with one vertex taken from a neighbour, shows only when a critical point lies in just that cell and a bound was just too large.',
     ['src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_2d_bilinear.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'include/sz3_utils.hpp'],
     [('offsets of adjacent simplices', 'src/sz_compress_cp_preserve_2d.cpp'), ('min over cells of the bilinear codec', 'src/sz_compress_cp_preserve_2d_bilinear.cpp'), ('adjacent tetrahedra', 'src/sz_compress_cp_preserve_3d.cpp')],
     'gated symbolic dataflow: leaves of the bound against the cells of the grid, addresses evaluated on small grids',
     'Grids up to 7x6 and 3x3x3 (every border case of the offsets); unstructured meshes and, in the interpolating codec, the starts of cubic lines are undecided.')
prop('C10', 'The bound derived from a cell keeps its critical-point status',
     'For every triangle and every tetrahedron, and for all values at its vertices, the bound that a derivation function returns is small enough: however the value being coded (or, offline, all values of the cell) moves within that bound, a cell without a critical point does not gain one, because one barycentric coordinate of the zero stays outside [0, 1] or one component keeps its sign at all vertices, and in a cell with a critical point the bound is 0 or all barycentric coordinates keep their signs; where the function also promises the kind of the critical point, the determinant, the discriminant and, for nodes, the trace of the cell\'s derivative keep theirs. Relative bounds are relative to each moving value, absolute ones absolute.',
     ['inputs'], 'all values at the vertices of a cell (zeros, degenerate cells and ties included), 2D and 3D, offline and online, relative and absolute, float and double',
     'Each bound function is a formula with dozens of signed products; one wrong sign or index leaves a bound that is too large for some cells only, and a test sees a lost critical point only when a random field hits such a cell and its reconstruction uses the whole bound.',
     ['src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'include/sz_cp_preserve_utils.hpp'],
     [('max_eb_to_keep_position_and_type()', 'src/sz_compress_cp_preserve_2d.cpp'), ('derive_cp_eb_for_positions_online()', 'src/sz_compress_cp_preserve_2d.cpp'), ('derive_cp_eb_for_positions_online_abs()', 'src/sz_compress_cp_preserve_2d.cpp'), ('max_eb_to_keep_position_and_type_3d_offline()', 'src/sz_compress_cp_preserve_3d.cpp'), ('max_eb_to_keep_position_and_type_3d_online()', 'src/sz_compress_cp_preserve_3d.cpp'), ('max_eb_to_keep_position_and_type_3d_online_abs()', 'src/sz_compress_cp_preserve_3d.cpp'), ('max_eb_to_keep_sign()', 'include/sz_cp_preserve_utils.hpp')],
     'symbolic evaluation of the bound functions, polynomial identities for their fractions and Boolean case analysis over their comparisons',
     'In exact arithmetic: rounding of the bound itself, and the Newton approximations of roots in the 3D offline function, are not bounded. The bilinear derivation, which its authors leave unfinished, is not covered.')
prop('C11', 'Entropy coder, bit maps and lossless wrapper give back what they are given',
     'Whatever integer codes are handed to the Huffman coder, of any number and any frequencies (one code only, all equal, hundreds of thousands of different ones), decoding what was encoded gives back exactly these codes in their order, and the decoder ends its reading where the encoder ended its writing; an empty array takes no bytes on either side. The code words are those of a prefix code built on all codes that occur, each code word of up to 64 bits is appended at whatever bit the previous one ended, and the tree is stored without loss for every number of nodes (node numbers of 8, 16 and 32 bits). Bit maps (signs, flags of special cells) are restored entry for entry for every length, and the lossless wrapper gives zstd the whole input, room for an input that does not shrink, and the original size when decompressing.',
     ['inputs'], 'all arrays of codes: every length, alphabet, frequency distribution and alignment of a code word in the stream; all bit maps; all byte sequences',
     'Test fields give small trees and short code words: trees of more than 256 or 65536 nodes, code words that cross a byte in every possible way, arrays of one repeated code and maps whose length is not a multiple of eight need particular data.',
     ['src/sz_huffman.cpp', 'src/sz_compression_utils.cpp', 'src/sz_decompression_utils.cpp', 'src/sz_lossless.cpp'],
     [('encode()', 'src/sz_huffman.cpp'), ('decode()', 'src/sz_huffman.cpp'), ('build_code()', 'src/sz_huffman.cpp'), ('convert_HuffTree_to_bytes_anyStates()', 'src/sz_huffman.cpp'), ('reconstruct_HuffTree_from_bytes_anyStates()', 'src/sz_huffman.cpp'), ('Huffman_encode_tree_and_data()', 'src/sz_compression_utils.cpp'), ('Huffman_decode_tree_and_data()', 'src/sz_decompression_utils.cpp'), ('convertIntArray2ByteArray_fast_1b_to_result_sz()', 'src/sz_compression_utils.cpp'), ('convertByteArray2IntArray_fast_1b_sz()', 'src/sz_decompression_utils.cpp'), ('sz_lossless_compress()', 'src/sz_lossless.cpp')],
     'abstract interpretation over affine terms and bit vectors with provenance, loops cut at inductive headers',
     'Code words longer than 64 bits (they need frequencies that grow like Fibonacci numbers over 64 levels) are out of scope; zstd itself is trusted.')
prop('C12', 'Block-wise decoders reproduce the encoder\'s reconstructed field',
     'For the codecs that work block by block with a working row or slab of reconstructed values (the 2D codec with one error bound, the 2D codec with an array of bounds, the 3D codec in its block-independent and its connected mode, with Lorenzo, mean and regression prediction), the decompressor walks the same blocks in the same order with the same sizes, including the cut-off blocks at the borders, and stores for every grid point exactly the value the compressor computed and compared with the original: the same prediction from the same neighbours in the working buffer, the same quantisation step and bound, the same verbatim values. Buffers are cleared and carried over from one row or layer of blocks to the next at the same points and over the same length on both sides, and the regression coefficients rebuilt from the stream are those the compressor predicted with.',
     ['inputs', 'configurations'], 'every field, grid size (multiples of the block size and others), block size and error bound; all element types for which the codec is instantiated',
     'The tests run few grids with one block size; a wrong length of a carried layer, a border block of full size or a neighbour taken from a stale buffer cell shows only with particular dimensions, or when one block is predicted by regression and the next one is not.',
     ['src/sz_compress_3d.cpp', 'src/sz_decompress_3d.cpp', 'include/sz_compress_block_processing.hpp', 'include/sz_decompress_block_processing.hpp', 'include/sz_prediction.hpp', 'include/sz_regression_utils.hpp', 'include/sz_compression_utils.hpp'],
     [('prediction_and_decompression_3d()', 'src/sz_decompress_3d.cpp'), ('sz_compress_2d()', 'src/sz_compress_3d.cpp'), ('sz_decompress_2d()', 'src/sz_decompress_3d.cpp'), ('block_pred_and_quant_regression_3d_with_buffer()', 'include/sz_compress_block_processing.hpp')],
     'lockstep comparison of block loop nests by gated symbolic dataflow over LLVM IR',
     'A loop nest whose correspondence is not established is reported as undecided, not as a violation; floating-point expressions are compared as written (no reassociation), so equal means bit-identical.')
prop('N01', 'Decompression finds the same critical points, rounding included',
     'For every field, extracting the critical points of the decompressed field with the extractor used by the evaluation programs gives the same cells and types as in the original field, with the floating-point rounding of the derivation, of the quantiser and of the extractor taken into account.',
     ['inputs'], 'all fields, including cells on which the predicates are within rounding error of zero',
     'Degenerate cells are measure-zero and no finite set of fields contains the ones at which the rounding of three different formulas disagrees.',
     ['src/sz_compress_cp_preserve_2d.cpp', 'src/sz_compress_cp_preserve_3d.cpp', 'include/sz_cp_preserve_utils.hpp'],
     [('max_eb_to_keep_position_and_type()', 'src/sz_compress_cp_preserve_2d.cpp')],
     'none', '', claimed=False,
     reason='It needs rounding-error bounds on determinants and quotients of unbounded data values in three formulas at once; no sound static bound is in reach (near-degenerate cells make every such bound vacuous). The exact-arithmetic part is claimed as C10, the coverage of cells as C09, the comparison of values as C06.')
prop('N02', 'Compressed streams are small',
     'The compressed stream is never larger than the raw data plus a constant, and shrinks as the bound grows.',
     ['inputs', 'configurations'], 'all fields and bounds',
     'The size depends on the distribution of the codes of each input.',
     ['src/sz_compress_3d.cpp', 'include/sz_lossless.hpp', 'src/sz_huffman.cpp'],
     [('sz_lossless_compress()', 'src/sz_lossless.cpp')],
     'none', '', claimed=False,
     reason='The length of Huffman codes and of zstd blocks is a function of run-time symbol frequencies that no static analysis bounds usefully; that the stream fits its buffer is claimed as C05.')
