#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note))


FMTF = ['include/matrix/coo.1.h', 'include/matrix/coo.2.h', 'include/matrix/coo.3.h', 'include/matrix/csr.1.h', 'include/matrix/csr.2.h', 'include/matrix/crcsr.h', 'include/matrix/cswr.h', 'include/matrix/dense.h', 'include/spmv/*.h', 'include/spmv/omp/*.h']
BLKF = ['include/matrix/csbr.h', 'include/matrix/csbr.2.h', 'include/matrix/cgbr.h', 'include/matrix/cgbr.2.h', 'include/generic/gsb.h', 'include/spmv/csbr.h', 'include/spmv/cgbr.h', 'include/spmv/gsb.h']
BASE = 'Solver verdict over every value within the stated bounds, on LLVM IR compiled from the current tree; counterexamples count only after they fail on the natively compiled code. Trusted: clang front end, the symbolic engine, Z3, the libc/OpenMP models listed in DESIGN.md. Floating-point values are exact numbers.'
TESTS = 'The tests multiply 13 fixed small matrices with one value/index type and compare against a reference; '

p('C01', 'Unblocked formats compute y + A x exactly',
  'For every sparse matrix given as a list of (row, column, value) triplets in any order, possibly empty and possibly with repeated positions, converting it to any unblocked storage format (coordinate lists, the CSR variants, row-compressed CSR, wide-row CSR, dense) and multiplying adds exactly A x to y. Repeated positions count with the sum of their values, and rows or columns without elements leave y untouched.',
  ['inputs', 'configurations'], 'every matrix shape, element placement, element order, duplicate pattern and value; every vector; every unblocked format and its parameters (row width); any thread count',
  TESTS + 'duplicates, empty rows at the ends, unsorted input and chunk borders of the parallel loops are not covered for every format.', FMTF,
  [('conversion from triplets', 'Coo_to_Csr, Coo_to_CrCsr, Coo_to_Cswr, Coo_to_Dense, Coo_to_Coo'), ('multiplication', 'spmv / spmv_serial of every format')], BASE)
p('C02', 'Blocked formats compute y + A x exactly for every block layout',
  'For every matrix and every way of cutting it into blocks (a constant block size, also one that does not divide or exceeds the dimensions, or arbitrary row and column boundaries), the blocked formats give exactly y + A x. This holds for the whole-block-row algorithm and for the algorithm that splits block-rows into chunks.',
  ['inputs', 'configurations'], 'every matrix, element order, vector, block size, block boundary list, blocked format, parallel algorithm and thread count',
  TESTS + 'they use a few block sizes; truncated last blocks, single-row blocks, irregular boundaries and both algorithms are sampled at most once.', BLKF,
  [('cutting into blocks', 'Coo_to_Csbr, Coo_to_Cgbr, Coo_to_Blocked'), ('block-row and chunk multiplication', 'spmv of Csbr, Csbr2, Cgbr, Cgbr2')], BASE)
p('C03', 'Every single-block format, and the automatic choice of one, multiplies right',
  'A block built from a list of elements with positions relative to the block adds exactly the product of the block with its part of x to its part of y, whichever block format is used. The automatic choice always returns a usable block whose reported type is the one built and whose number of non-zeros is that of the list.',
  ['inputs', 'configurations'], 'every block shape, element list (row-sorted where the format requires it), value, vector, local index width and block format; every branch of the automatic choice',
  TESTS + 'the matrices seldom lead to the dense or the serial CSR block, and wrong choices are invisible.', ['include/matrix/block_coo.1.h', 'include/matrix/block_coo.2.h', 'include/matrix/block_csr.h', 'include/matrix/blocks.h', 'include/matrix/dense.h', 'include/matrix/cgbr.h', 'include/matrix/cgbr.2.h'],
  [('choice of the block format', 'BlockFactoryDefault::create, Coo_to_MatrixBlock'), ('block multiplication', 'BlockCoo, BlockCsr, BlockDense, DenseSerial, DenseParallel')], BASE)
p('C04', 'A blocked matrix holds every element in exactly one correct block',
  'After conversion to a blocked format, the stored blocks are exactly the blocks of the requested grid that contain elements, in row-major order, each with the right number of elements; the block boundaries reproduce the requested grid, the last block reaching to the edge of the matrix. Per-type statistics and total non-zero counts add up to those of the input.',
  ['inputs', 'configurations'], 'every matrix, block size and boundary list, for all blocked formats',
  'No test looks at the block structure; only products are compared on fixed matrices.', BLKF + ['include/utils.h'],
  [('block construction', 'Coo_to_Csbr, Coo_to_Cgbr'), ('offsets and counts', 'get_block_row_offset, block_nonzeros, type_block_count')], BASE)
p('C05', 'Conversion, multiplication and release never misuse or leak memory',
  'For every input, building a matrix in any format, multiplying with it and releasing it reads and writes only inside live allocations, frees every allocation exactly once with the matching deallocator, and leaves nothing allocated. Sorting and the other in-place helpers leave nothing behind either.',
  ['inputs', 'configurations', 'histories'], 'every matrix (empty ones included), block layout and format; the whole life cycle build, multiply, release',
  'The tests neither run under a memory checker nor look for leaks, and use inputs without the boundary cases (no elements, single blocks, empty last rows).', FMTF + BLKF,
  [('allocation and release', 'allocate / release / destructors of every format'), ('ownership of block offsets', 'Cgbr, Cgbr2, Csbr')], BASE + ' Allocation failure is outside the bounds.')
p('C06', 'Parallel code is free of data races and independent of the thread count',
  'For every number of threads and every schedule the OpenMP standard allows, the parallel multiplications, conversions, sorts, permutations and expansions have no two unordered conflicting accesses and give the result of the sequential code. No element of y is ever updated by two unordered threads.',
  ['schedules', 'inputs', 'configurations'], 'every interleaving allowed by the directives, thread counts 1 to 8, every matrix within the bounds',
  'A test run sees one schedule; a race between chunks that happen to run one after the other, or to touch different rows of the sampled matrices, stays invisible.', ['include/spmv/omp/*.h', 'include/spmv/*.h', 'include/matrix/*.h', 'include/permute.h', 'include/expand.h', 'dep/pss/parallel_stable_sort.h', 'include/rt.h'],
  [('parallel loops over rows, block-rows and chunks', 'spmv of every format'), ('per-thread or per-chunk partial vectors', 'spmv of the blocked formats')], BASE + ' Races are decided by the happens-before order the directives guarantee, which covers every schedule of the explored paths; a reported race counts only when the thread sanitizer reproduces it with a minimal OpenMP run-time.')
p('C07', 'Products can be repeated; serial and parallel versions agree; x is only read',
  'Multiplying k times adds k times A x: a product leaves the matrix and x as they were, and accumulates into y instead of overwriting it. The serial and the parallel version of a product give the same result.',
  ['histories', 'inputs'], 'every matrix, vector and format; sequences of two and three products',
  'The tests run one product per matrix on a zero or fixed y, so state changed by a product (partition, partial sums, sorted arrays) never shows.', FMTF + BLKF,
  [('accumulation', 'y[i] += ... in every spmv'), ('serial versions', 'spmv_serial')], BASE)
p('C08', 'Results do not depend on the value type, index width or matrix extent',
  'For each supported combination of value type, index type and narrower block-local index type, and for matrices whose dimensions exceed the range of the narrow index, conversion and multiplication are still exact: no index is silently cut to a narrower type; a matrix block with an index beyond its narrow type is refused by a failed assertion. Elements beyond position 65535 (or 255 with 8-bit local indices) are found again at the same place.',
  ['inputs', 'configurations'], 'float, double and integer values; 16, 32 and 64-bit indices; 8, 16 and 32-bit local indices; dimensions just around the limits of the local index',
  'The tests use float values with 32/16-bit indices on matrices far smaller than 65536.', FMTF + BLKF,
  [('local indices', 'template parameter SIT of Cgbr, Cswr and the block formats'), ('index type', 'template parameter IT')], BASE)
p('C09', 'Chunks of a block-row cover it exactly once and stay balanced',
  'Splitting a block-row for parallel work yields consecutive, ordered chunks that cover each of its blocks exactly once, for any distribution of non-zeros and any number of workers. No chunk of several blocks holds more than the threshold share of the non-zeros, apart from the block that crosses it. A matrix of the format that chooses its algorithm by balance (Cgbr) is marked balanced exactly when no block-row holds more than twice the mean number of elements.',
  ['inputs', 'configurations'], 'every number of blocks, distribution of non-zeros, sub-range and worker count within the bounds; matrices built from any element list',
  'Tests only see the product with the partition of a few matrices, and only for 1 and 4 threads; unbalanced or missing chunks often change nothing.', ['include/partition.h', 'include/matrix/csbr.h', 'include/matrix/cgbr.h', 'include/matrix/cgbr.2.h'],
  [('greedy splitting', 'partition_blockrow'), ('initialisation from a matrix', 'partition_init')], BASE)
p('C10', 'Sorting yields the requested order, stable and without losing elements',
  'Each sorting routine (row-major, column-major, Morton, by block, by wide row) turns any list of elements into an ordered permutation of the same elements, each keeping its row, column, block and value together. Elements with equal keys keep their relative order and nothing outside the list is touched.',
  ['inputs'], 'every list of elements within the bounds, every key value, all nine orders, called serially or inside a parallel region',
  'No test calls the sorts directly; the conversions they feed accept many wrong orders without a visible effect on the fixed matrices.', ['include/utils.h'],
  [('comparison functions', 'sort_triplets, sort_elements_blocks, sort_triplets_morton, sort_triplets_widerows, sort_triplets_blocks')], BASE)
p('C11', 'The task-parallel sort and merge are correct and race-free',
  'The parallel stable sort used for large inputs gives the same result as a serial stable sort for every input and every schedule of its tasks, in place, and without unordered conflicting accesses. Splitting and merging work for any position of the split, including empty halves.',
  ['inputs', 'schedules'], 'every key sequence within the bounds, cut-offs small enough to reach nested splits and merges, any task schedule',
  'The parallel branch needs more than 500 elements (2000 for merges), which the fixed test matrices hardly reach, and tests do not check order or stability.', ['dep/pss/parallel_stable_sort.h', 'dep/pss/pss_common.h'],
  [('parallel divide and merge', 'parallel_stable_sort_aux, parallel_move_merge'), ('serial base case', 'stable_sort_base_case, serial_move_merge')], BASE + ' The cut-offs are lowered through the GSB_VERIF_HOOKS define; the algorithm is otherwise the shipped one.')
p('C12', 'Bit tricks are right for every word',
  'Rounding up to a power of two returns the smallest power of two not below its argument, the highest set bit is exact for all signed and unsigned widths, and bit interleaving places row and column bits alternately, so that different positions get different codes and Morton sorting follows the quadrant order.',
  ['inputs'], 'every 64-bit argument of the power-of-two and highest-bit functions; every pair of 16-bit coordinates for interleaving',
  'A sample cannot settle 2^32 pairs or 2^64 words; the tests contain no direct check of these functions.', ['include/utils.h', 'include/common.h', 'src/common.cpp'],
  [('bit arithmetic', 'next_power_of_two, highest_bit_set, bit_interleave')], BASE)
p('C13', 'Index to block lookup and block counts are exact',
  'For any list of block sizes the derived offsets start at zero and differ by the sizes, the block found for an index is the one that contains it (also with empty blocks in the list), and block identifiers are row-major. The numbers of non-empty blocks and rows counted from sorted elements are exact.',
  ['inputs'], 'every list of block sizes, every index, every element list within the bounds',
  'Tests exercise the lookup only through conversions with a few regular block sizes.', ['include/utils.h', 'include/generic/gsb.h'],
  [('binary search for the block', 'index_to_blockindex'), ('offsets and identifiers', 'size_to_offset, calculate_block_id'), ('counting', 'count_blocks, count_nnz_rows')], BASE)
p('C14', 'The automatic block size is always usable',
  'For all matrix dimensions, value sizes and worker counts the chosen block size is a power of two, at least one, not larger than the padded matrix, and small enough for the narrow local index and the cache budget. With several workers and a matrix large enough, it leaves enough block-rows to keep them busy, and the search always ends.',
  ['inputs', 'configurations'], 'every pair of dimensions up to 2^31 (2^40 with 64-bit indices), 1 to 16 workers, 4- and 8-byte values',
  'The tests call it for 13 small matrices.', ['include/utils.h', 'include/params.h'],
  [('block size search', 'pick_block_size')], BASE + ' The base-2 logarithm of the matrix size is treated as an arbitrary number from 0 to 16, an over-approximation.')
p('C15', 'Permuting indices is exact and invertible',
  'The inverse of a permutation undoes it; permuting an index array or the rows and columns of an element list replaces each index by its image exactly once, keeps the values and the original permutation, and permuting back with the inverse restores the input.',
  ['inputs', 'schedules'], 'every permutation within the bounds, every index array and element list, any thread count',
  'The permutation helpers are used by the tools only; no test runs them.', ['include/permute.h', 'src/tools/permute.cpp'],
  [('permutation', 'permute_indeces, invert_permutation')], BASE)
p('C16', 'Expanding blocks keeps every element in its block and place',
  'Expansion maps every index to the same block and the same position inside it, with all blocks padded to the smallest power of two that holds the largest. Element lists keep their values and block numbers, and the size used is the one reported.',
  ['inputs', 'schedules'], 'every list of block sizes, every index and element list within the bounds, any thread count',
  'The expansion helpers are used by the tools only; no test runs them.', ['include/expand.h', 'src/tools/expanded.cpp'],
  [('expansion', 'expand_index, expand_indeces, expand_block_size')], BASE)
IOF = ['include/io/input.h', 'include/io/output.h']
p('C17', 'Matrices and arrays survive the binary file formats unchanged',
  'Writing a matrix in the one-file or three-file binary format, or an array, and reading it back gives the same dimensions (the smallest enclosing ones for three files), element order, indices and values, for every index and value type; a sorted binary file read as a CSR matrix multiplies like the matrix written. The bytes written follow the documented layout, and every file opened is closed.',
  ['inputs', 'configurations'], 'every matrix (empty ones included), array, value type, index width and supported reader/writer pair within the bounds',
  'The tests read no file at all; a wrong size, order or offset in a writer and its reader can also cancel out in a round trip unless the layout itself is checked.', IOF + ['README.md'],
  [('writers', 'write_bin_COO, write_bin_array'), ('readers', 'read_bin_COO, read_bin_array, read_bin_CSR, read_COO')], BASE + ' Files live in an in-memory model of stdio.')
p('C18', 'Damaged or missing binary files are rejected, never misread',
  'Whatever the bytes of a binary matrix or array file, the readers accept it exactly when it holds a complete matrix whose elements lie inside the stated dimensions (and, for CSR, whose rows are sorted); otherwise they report an error. They never read or write outside their buffers, and a missing or unwritable file is reported as an error and leaves no file open.',
  ['inputs', 'fault_sequences'], 'every file length and content within the bounds, every missing file, every index width',
  'The tests read no file at all; the number of possible damages is far beyond any sample.', IOF,
  [('header and length checks', 'read_bin_COO, read_bin_CSR, read_bin_array'), ('error results', 'read_COO, write_bin_COO')], BASE)
p('C19', 'MatrixMarket files are read as the format defines them',
  'A well-formed coordinate file with real, integer or pattern values, general, symmetric or skew-symmetric, whatever its comments, blank space and capitalisation, gives exactly the matrix it describes: zero-based indices, mirrored elements once (negated for skew-symmetric), ones for patterns. Malformed or unsupported files are rejected, and a truncated one gives at most the elements it holds; memory stays in bounds.',
  ['inputs', 'fault_sequences'], 'every matrix, field, symmetry, layout variant and kind of damage within the bounds',
  'The tests read no file at all.', ['include/io/input.h', 'dep/mm_io/mm_io.c', 'dep/mm_io/mm_io.h'],
  [('banner, size and element lines', 'read_mm_COO, mm_read_banner, mm_read_mtx_crd_size')], BASE + ' Real numbers in text files are tokens that carry the exact value.')
p('C20', 'MatrixMarket output is well-formed and reads back unchanged',
  'The MatrixMarket file written for a matrix has the right banner and sizes and one line per element with one-based indices and enough digits; reading it back gives the same matrix. An unwritable file, or a matrix whose sizes the format cannot hold (above 2^31 - 1), is reported as an error.',
  ['inputs', 'configurations'], 'every matrix, value and index type within the bounds',
  'The tests write no file.', ['include/io/output.h', 'include/io/input.h', 'dep/mm_io/mm_io.c'],
  [('writer', 'write_mm_COO, mm_write_banner, mm_write_mtx_crd_size')], BASE + ' Printed numbers are rounded in the model as far as the format string rounds them.')
p('C21', 'Blocked files give the matrix they were written from; damaged ones do not',
  'Writing a block-sorted matrix to a blocked file and reading it into any blocked format with the same block boundaries gives a matrix with the same elements in the same blocks, which multiplies right and can be released. A file that is cut short, unsorted, or holds indices outside their block is not accepted as a matrix.',
  ['inputs', 'fault_sequences', 'configurations'], 'every matrix, block layout, blocked format, header, element and truncation within the bounds',
  'The tests read no file at all.', ['include/io/blocked.h', 'include/io/output.h', 'include/matrix/bcsr.h', 'include/matrix/csbr.h', 'include/matrix/csbr.2.h', 'include/matrix/cgbr.h'],
  [('readers', 'read_bin_blocked'), ('writer', 'write_bin_blocked'), ('block-CSR product', 'Bcsr')], BASE)
p('C22', 'The conversion tools write the matrix they were given',
  'For well-formed input each tool exits with 0, closes its files and writes exactly what it announces: convert the same elements sorted by column (binary and/or MatrixMarket), convert_blocked and prepare the blocked file with the right header, block ids and order, expanded and prepare the elements moved to the power-of-two blocks, permute and ipermute the indices under the permutation or its inverse, sort the elements in row or block order, one2zero indices less one, double2float rounded values; pprint prints the sizes, indices and values in the file, in order.',
  ['inputs', 'configurations', 'schedules'], 'every matrix, permutation, list of block sizes and value within the bounds, any thread count',
  'No test runs a tool.', ['src/tools', 'include/expand.h', 'include/permute.h', 'include/io/input.h', 'include/io/output.h'],
  [('matrix tools', 'main of convert, convert_blocked, expanded, prepare, sort'), ('vector tools', 'main of permute, one2zero, double2float')], BASE + ' Each main() runs unmodified; files live in an in-memory model of stdio and system() is not executed.')
p('C23', 'The tools refuse bad input and stay inside their buffers',
  'Whatever the inputs, no tool reads or writes outside its buffers, whether file names are short or longer than the name buffers. A missing input file, index and value files of unequal length, elements outside the given blocks or the permutation, a file too short for what pprint is to print, a zero index given to one2zero, or an output that cannot be written gives a non-zero exit status; an output name that does not fit is refused, not cut short.',
  ['inputs', 'fault_sequences', 'configurations'], 'every kind of damage, placement and file-name length within the bounds',
  'No test runs a tool.', ['src/tools', 'src/common.cpp', 'include/permute.h', 'include/io/input.h'],
  [('error paths', 'main of every tool'), ('output names', 'output_filename')], BASE + ' Each main() runs unmodified; files live in an in-memory model of stdio and system() is not executed.')
p('C24', 'The benchmark reports describe what was measured',
  'check_results returns 0 exactly when the two vectors are equal and -1 otherwise, and reports how many elements differ, the largest error, the mean square error and its normalised form. mean, median and standard_deviation give the textbook figures for any series and order. The timing reports give the best, median, mean and worst time and the rate 2*nnz/time that belongs to each; benchmark_spmv times every product on its own, on initialised vectors, and frees what it allocates. show and print_info print just the sizes, indices and values the matrix or vector holds.',
  ['inputs', 'histories', 'configurations'], 'every pair of vectors, series of times and number of iterations within the bounds',
  'The tests check none of the printed figures and time nothing.', ['include/test/bench.h', 'include/test/utils.h', 'src/common.cpp', 'include/common.h'],
  [('comparison', 'check_results'), ('statistics', 'mean, median, standard_deviation'), ('timing', 'benchmark_spmv, benchmark_spmv_csv, print_timing_verbose, print_timing_csv')], BASE + ' Printed text is captured and parsed; the clock and rand() are stand-ins.')
p('C25', 'The driver programs work from file to report, or say why not',
  'Each driver program, given a well-formed binary or MatrixMarket file (and, for the blocked drivers, block sizes or none; for pbench, a permutation), builds its format, multiplies, reports dimensions, numbers of blocks and elements that describe the matrix, prints its times and exits with 0; result finds that all formats agree. Missing or damaged files, or a vector that is no permutation of the matrix, give a non-zero exit status. No program reads or writes outside its buffers or releases memory in the wrong way.',
  ['inputs', 'fault_sequences', 'configurations'], 'every matrix, list of block sizes, permutation and kind of damage within the bounds',
  'No test runs a driver; the tests build the formats from lists in memory.', ['src/drivers', 'src/test', 'include/io/input.h', 'include/test/bench.h', 'include/generic/gsb.h', 'include/partition.h'],
  [('single-format drivers', 'main of csr, cswr, blocked'), ('comparisons', 'main of bench, pbench, result, block'), ('reports', 'print_info, partition_dump')], BASE + ' Each main() runs unmodified; files live in an in-memory model of stdio; the clock and rand() are stand-ins.')
p('C26', 'Building or converting a coordinate matrix keeps every element as it is',
  'A coordinate matrix built from three arrays, from a list of elements or from another coordinate matrix has the same dimensions and the same number of elements, and its element i has the row, column and value of element i of the source, duplicates included; the source stays as it was. The setters of every coordinate format change just what they name, the getters return what was set, and the product of the matrix built is y + A x.',
  ['inputs', 'configurations'], 'every matrix, element order and value, every pair of source and destination, float and double, 32 and 64-bit indices, 16-bit local indices',
  'The tests always start from one array layout; mixing up rows and columns, or losing the last element, in the other constructors stays invisible.', ['include/generic/coo.h', 'include/matrix/coo.1.h', 'include/matrix/coo.2.h', 'include/matrix/coo.3.h', 'include/matrix/block_coo.1.h'],
  [('constructors', 'Coo_to_Coo'), ('element access', 'set_point, set_row_index, set_column_index, set_value and the getters')], BASE)
p('C27', 'The MatrixMarket library reads back what it writes and reports what it cannot',
  'mm_is_valid accepts exactly the type codes the format knows. A complete type code written as a banner is the text the format prescribes and is read back as the same code; an incomplete one is refused. Sizes, entries and whole coordinate files written by the library are read back with the same sizes, indices and values, after any number of comments; mm_read_unsymmetric_sparse gives the indices counted from zero. The writers return 0 exactly when they wrote; a missing, malformed or cut file, or a type that is not read, gives a non-zero result. Every file opened is closed, and on success and failure nothing but the arrays returned stays allocated.',
  ['inputs', 'fault_sequences'], 'every type code, size, index and value within the bounds, every point where a file ends',
  'The tests read and write no file.', ['dep/mm_io'],
  [('type codes', 'mm_is_valid, mm_typecode_to_str, mm_write_banner, mm_read_banner'), ('sizes', 'mm_read_mtx_crd_size, mm_read_mtx_array_size and their writers'), ('whole files', 'mm_write_mtx_crd, mm_read_mtx_crd, mm_read_unsymmetric_sparse')], BASE + ' Files live in an in-memory model of stdio.')
p('C28', 'A write that fails is reported',
  'When a file cannot take everything that is written to it, because the disk is full or a size limit is reached at any byte, every function that writes a matrix or an array (write_bin_array, write_bin_COO to one file or three, write_bin_blocked, write_mm_COO, mm_write_mtx_crd) gives its error result instead of 0, and every conversion tool ends with a non-zero status; when everything fits, they succeed. Either way every stream is closed and no memory stays allocated, also when one of several files cannot be opened, and the same call succeeds once there is room.',
  ['inputs', 'fault_sequences'], 'every number of bytes that reach a file, every matrix within the bounds, every writer and every tool',
  'The tests write no file, and a full disk needs a fault at a particular byte.', ['include/io/output.h', 'dep/mm_io/mm_io.c', 'src/tools'],
  [('writers', 'write_bin_array, write_bin_COO, write_bin_blocked, write_mm_COO, mm_write_mtx_crd'), ('exit status of the tools', 'main of src/tools/*')], BASE + ' The file size limit is one arbitrary 64-bit number in the in-memory model of stdio; replays set RLIMIT_FSIZE.')
NA = []
HOOKS = ['ad6783b']
if __name__ == '__main__':
    import sys
    sys.path.insert(0, V + '/lib')
    sys.dont_write_bytecode = True
    import props
    have = [q['id'] for q in props.PROPS]
    na = {q for q, r in NA}
    assert sorted(have + list(na)) == sorted(q['id'] for q in P), (have, na)
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps({k: v for k, v in q.items() if k != 'note'}) + '\n')
    m = dict(version=1, setup_cmd='make -s -j8 -C /verif/engine', hooks=dict(guard='GSB_VERIF_HOOKS', enable='the harnesses are compiled from /repo with -DGSB_VERIF_HOOKS; the jobs of C11 add -DGSB_VERIF_SORT_CUT_OFF=n -DGSB_VERIF_MERGE_CUT_OFF=m', source_commits=HOOKS),
             checks=[dict(property=q['id'], quick_cmd='python3 check.py %s quick' % q['id'], thorough_cmd='python3 check.py %s thorough' % q['id'], technique='symbolic execution of the LLVM IR with SMT (Z3), native replay of counterexamples', level='model_checking', level_note=q['note']) for q in P if q['id'] not in na],
             not_applicable=[dict(property=a, reason=b) for a, b in NA])
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
