#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

IMG = "basicimg/src/"
prop("C01", "Parallel MSER V1 reports exactly what a sequential extraction reports",
 "For every gray image, parameter set and polarity, the V1 extractor configured for 1, 2, 4, 8, 16 or 32 threads reports exactly the set of regions (pixels, size, gray level, bounding box where it fills one in) that a sequential component-tree extraction with the same parameters reports. The set does not depend on how the worker threads are interleaved, nor on how many of the requested threads the runtime actually delivers, nor on what uninitialised memory happens to contain. Extraction always terminates and never touches memory outside its own buffers.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all images (sizes down to one pixel per block, strided sub-images), all thread counts, 4-neighbour connectivity, all settings of delta, variation, duplicate, NMS and size limits, every interleaving and every delivered team size",
 "No test links basicimg at all; a test would observe the interleavings of one machine, and the partition seams, merge rounds and remainder cases depend on image content x thread count.",
 [IMG+"img_fast_mser_v1.cpp", "basicimg/include/img_fast_mser_v1.h", IMG+"img_mser_base.cpp"],
 [("per-block flooding into private trees", IMG+"img_fast_mser_v1.cpp:make_tree_patch"),
  ("seam merging of block trees", IMG+"img_fast_mser_v1.cpp:merge_tree_parallel_*, connect"),
  ("parallel recognition over blocks", IMG+"img_fast_mser_v1.cpp:recognize_mser_parallel_worker"),
  ("parallel pixel collection", IMG+"img_fast_mser_v1.cpp:extract_pixel_parallel_k_fast")],
 [("m_pinfo[]", "per-block tree and buffers", "img_fast_mser_v1.h")],
 ["img_multi_msers filled by img_mser_base::extract"])
prop("C02", "Parallel MSER V2 reports exactly what a sequential extraction reports",
 "For every gray image, parameter set and polarity, the V2 extractor configured for 1, 4 or 32 threads reports exactly the set of regions (pixels, size, gray level, bounding box) that a sequential component-tree extraction with the same parameters reports, however its result encodes shared and nested pixels. The set does not depend on how the worker threads are interleaved, nor on how many of the requested threads are delivered, nor on what uninitialised memory happens to contain. Extraction always terminates and never touches memory outside its own buffers.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all images at least one pixel per block, strided sub-images, thread counts 1, 4, 32, 4-neighbour connectivity, all settings of delta, variation, duplicate, NMS, size limits and the recursive-storage threshold, every interleaving and delivered team size",
 "No test links basicimg; the bugs live at block seams, in the four-way storage of pixels and in the interleavings, which a handful of sample images on one machine does not reach.",
 [IMG+"img_fast_mser_v2.cpp", "basicimg/include/img_fast_mser_v2.h", IMG+"img_mser_base.cpp"],
 [("per-block flooding", IMG+"img_fast_mser_v2.cpp:make_tree_patch"),
  ("hierarchical seam merging", IMG+"img_fast_mser_v2.cpp:merge_tree_parallel_step, connect"),
  ("parallel recognition", IMG+"img_fast_mser_v2.cpp:recognize_mser_parallel_worker"),
  ("parallel pixel storage", IMG+"img_fast_mser_v2.cpp:extract_pixel_parallel_4_acceleration")],
 None, ["img_multi_msers filled by img_mser_base::extract"])
prop("C03", "Every region an extractor reports is a true extremal region",
 "Under every interleaving, every region an extractor reports (V1, V2, the linked-list linear, the ECCV 2008, the original and the OpenCV-derived one) is a connected set of distinct in-image pixels, is exactly one connected component of the pixels at or below (dark regions) or at or above (bright regions) its reported gray level, contains a pixel of that level, respects the configured size limits, and has a size and bounding box that match its pixels. Any two reported regions of one polarity are nested or disjoint, none is reported twice, and a polarity that is switched off reports nothing. Drawing a region into an image shows exactly its pixels.",
 ["schedules", "inputs", "configurations"],
 "all images (the OpenCV-derived one: interior pixels, as it leaves out the border; the port of the old OpenCV 2 extractor, a different algorithm, is excluded) and parameter sets, all supported thread counts, both polarities on or off, every interleaving",
 "Checked by no test; needs arbitrary images and schedules, since a wrong merge shows only on particular seam contents.",
 [IMG+"img_fast_mser_v1.cpp", IMG+"img_fast_mser_v2.cpp", IMG+"img_linked_linear_mser.cpp", IMG+"img_eccv2008_mser.cpp", IMG+"img_mser_helper.cpp"],
 [("drawing of a region", IMG+"img_mser_helper.cpp:image_from_mser"), ("tree building and merging", IMG+"img_fast_mser_v1.cpp:connect"), ("result storage", IMG+"img_fast_mser_v2.cpp:extract_pixel")])
prop("C04", "An extractor can be reused without a trace of earlier extractions",
 "Whatever was extracted before on the same extractor object (other image sizes, thread counts, parameters, polarities, memory-cache clears, in any order), each extraction reports exactly what a newly created extractor with the same settings reports. This includes results handed back into the same result object. An extraction writes to no image, neither its own nor that of an earlier call.",
 ["histories", "schedules", "inputs"],
 "all histories of extract / reconfigure / clear_memory_cache on one object, for each of the nine extractors",
 "Buffers are cached by size between calls; only multi-step histories with changing sizes reach stale-state bugs, and no test runs even one extraction.",
 [IMG+"img_fast_mser_v1.cpp", IMG+"img_fast_mser_v2.cpp", IMG+"img_linked_linear_mser.cpp", "basicmath/include/mt_block_memory.h"],
 [("size-keyed buffer reuse", "allocate_memory of each extractor"), ("cache clearing", "clear_memory_cache"), ("block memory reset", "mt_block_memory.h:clear")])
prop("C05", "Concurrent extractions on separate extractor objects do not interfere",
 "When several threads extract at the same time, each with an extractor object of its own (any mix of algorithms, images and parameters, images possibly shared read-only), every extraction reports exactly what it reports when run alone. The shared log and the shared statistics stay consistent.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of 2 to 4 application threads each running one or more extractions, with V1, V2 and the seven sequential extractors mixed, nested parallelism included",
 "The README's channel-parallel use is exercised by no test; interference would need a particular interleaving on hidden shared state.",
 [IMG+"img_mser_base.cpp", IMG+"img_fast_mser_v1.cpp", IMG+"img_fast_mser_v2.cpp", IMG+"img_linked_linear_mser.cpp", "basicsys/src/sys_alg_analyzer.cpp", "basiclog/src/basiclog.cpp"],
 [("state kept in the extractor object only", "basicimg/include/img_mser_base.h"), ("locked statistics", "basicsys/src/sys_alg_analyzer.cpp")])
prop("C06", "An extraction result owns its regions, also after copying",
 "A result stays valid and unchanged after the extractor that made it has been reused, cleared or destroyed and after the source image is gone, and a copied or assigned result holds the same regions, independent of the original, which may be destroyed. Destroying originals and copies in any order releases each block of memory exactly once, with the matching deallocator.",
 ["histories", "inputs"],
 "all histories of extract, copy, assign, self-assign, destroy, extractor reuse and clear, for results of every storage kind and every extractor",
 "Needs histories of object lifetimes across storage kinds; no test creates a result.",
 [IMG+"img_mser_base.cpp", "basicimg/include/img_mser_base.h"],
 [("copy of the pixel store", IMG+"img_mser_base.cpp:img_multi_msers::operator="), ("ownership by memory type", IMG+"img_mser_base.cpp:img_mser::~img_mser")])
prop("C07", "Repeated extraction does not leak memory",
 "Repeating the same extraction on one extractor does not make its memory grow from round to round, and destroying the extractor and its results gives back everything they allocated.",
 ["histories", "configurations"],
 "all histories of extractions, reconfigurations and cache clears on each of the nine extractors, all thread counts",
 "Growth over a history is invisible to a test of results; a video pipeline meets it after hours.",
 [IMG+"img_fast_mser_v1.cpp", IMG+"img_fast_mser_v2.cpp", IMG+"img_linked_linear_mser.cpp", "basicmath/include/mt_block_memory.h"],
 [("buffer reuse and release", "allocate_memory, clear_memory_cache and destructor of each extractor")])
prop("C08", "Concurrent logging loses, tears, duplicates and reorders nothing",
 "With any number of threads logging through one logger while others change its enable flags and filters, every message whose level is enabled and whose tag is not filtered is delivered exactly once, as one intact uninterleaved record carrying its level, tag, line, file and text, and the messages of one thread are delivered in the order it issued them. Messages of a filtered tag are not delivered, and messages longer than the output chunk arrive complete and contiguous.",
 ["schedules", "inputs", "histories"],
 "all interleavings of up to 6 threads, all message lengths around the chunk size, all tags/levels/filters",
 "basiclog's test logs from one thread; tearing and loss need a particular interleaving.",
 ["basiclog/src/basiclog.cpp", "basiclog/include/basiclog.h", "basicsys/src/sys_thread_lock.cpp"],
 [("one lock around formatting and output", "basiclog/src/basiclog.cpp:log_logger::print"), ("mutex wrapper", "basicsys/src/sys_thread_lock.cpp")])
prop("C09", "The file logger keeps its records through rotation, faults and crashes",
 "Every record the file logger accepted while the disk was healthy is on disk when the call returns, so a crash right after loses none; files hold at most the configured number of records, a new file is begun only when the current one is full or can no longer be written, and at most the configured number of files is kept, the oldest going first, never a file just written. A failing disk (open, write or full) may cost records written while it fails, but it never crashes the program, never damages records already on disk, and logging resumes once it is healthy again.",
 ["fault_sequences", "crash_points", "schedules", "histories"],
 "all placements of open failures, short or failed writes, full disk, crashes and clock steps (several rotations within one second) in histories of up to some hundred records",
 "The tests use a healthy disk and one file; the guarantees are about faults, crashes and rotation timing.",
 ["basiclog/src/basiclog.cpp"],
 [("flush after each record, rotation by count, removal of the oldest", "basiclog/src/basiclog.cpp:log_file_logger::print"),
  ("file naming by time", "basiclog/src/basiclog.cpp:generate_new_file_title")])
prop("C10", "The shared statistics are linearizable and lose no update",
 "With any number of threads updating the shared algorithm statistics, the reported totals equal the outcome of some sequential order of the updates: sums lose no addition, maxima are true maxima, a set value is one that was set, and tags do not affect one another. Before initialisation and after release, updates are ignored without effect.",
 ["schedules", "histories"],
 "all interleavings of up to 6 threads of set, add and max updates on shared and private tags",
 "No test uses the statistics from two threads; lost updates need a specific interleaving.",
 ["basicsys/src/sys_alg_analyzer.cpp", "basicsys/include/sys_alg_analyzer.h"],
 [("lock around every update", "basicsys/src/sys_alg_analyzer.cpp")])
prop("C11", "File buffers report every I/O failure and return what was acknowledged",
 "If a file buffer writer is closed and still reports an OK status, the file holds exactly the bytes written, in order, at the positions written (appending keeps what was there before); if any open, write, seek, flush or close failed, the writer reports an error status. A reader returns exactly the bytes in the file at its position while it reports OK, and reports an error or end-of-file status, never made-up data under an OK status, when the file is missing, too short or fails to read; no fault crashes either, and neither memory nor an open file is left behind when the buffer is gone.",
 ["fault_sequences", "inputs", "histories"],
 "all histories of typed writes, raw writes, strings, seeks, closes and reads through byte and string file buffers, with open failures, short writes, write errors, full disk, read errors and truncated files at any point",
 "The buffer tests run on a healthy disk; the guarantee is about every failing system call.",
 ["basicsys/src/sys_buffer.cpp", "basicsys/include/sys_buffer.h"],
 [("status kept from each stdio call", "basicsys/src/sys_buffer.cpp"), ("closing", "basicsys/src/sys_buffer.cpp:close")])
prop("C12", "Stored matrices are read back exactly or refused",
 "A matrix (any depth, channel count, dimension and memory layout) that was saved without a reported error loads back equal in type, shape and every element. When the stored file is missing, cut short anywhere, or hits a read error, loading yields an empty matrix or an error, never a crash, a hang, an out-of-bounds access or a matrix with other contents.",
 ["fault_sequences", "crash_points", "inputs"],
 "all matrices, all truncation points and read/write faults",
 "Serialisation tests use intact files; the guarantee quantifies over crash points and damage.",
 ["basicmath/src/mt_mat_serialize.cpp", "basicsys/src/sys_buffer.cpp"],
 [("binary and text codec", "basicmath/src/mt_mat_serialize.cpp")])
prop("C13", "Matrices shared between threads are released exactly once, and only when unused",
 "Threads that copy, assign, slice, reshape and drop matrix handles referring to the same pixels, under any interleaving, never lose the pixels while a handle is alive, never release them twice, and release them when the last handle goes. The element values seen through every live handle (views included, whatever chain of row, column, slice, channel, flip, transpose or reshape operations made them) are those last written.",
 ["schedules", "histories"],
 "all interleavings of up to 5 threads of handle operations, each thread on handles of its own, on shared data",
 "One existing test copies under OpenMP and looks at nothing but survival on one schedule.",
 ["basicmath/src/mt_mat.cpp", "basicmath/include/mt_mat.h", "basicsys/src/sys_thread_lock.cpp"],
 [("locked reference count", "basicmath/src/mt_mat.cpp:add_ref/sub_ref"), ("shared memory holder", "basicmath/include/mt_mat.h")])
prop("C14", "The matrix memory cache never hands one buffer to two live matrices",
 "With the matrix cache enabled, disabled or resized at any moment by any thread, two live matrices never share a cached buffer, a matrix is never given a buffer smaller than it needs, and every buffer is released exactly once, at the latest when the cache is switched off and the matrices are gone. Whenever the limit is set or a buffer is added while more than the limit is held, idle buffers are given back until no more is idle than in use, whatever the amounts.",
 ["schedules", "histories"],
 "all interleavings of up to 5 threads creating and dropping matrices of recurring sizes, with cache reconfiguration",
 "The documentation claims thread safety; the test uses one thread.",
 ["basicmath/src/mt_mat_cache.cpp", "basicmath/include/mt_mat_cache.h"],
 [("cache lock", "basicmath/src/mt_mat_cache.cpp"), ("reference-count test for reuse", "basicmath/src/mt_mat_cache.cpp:get")])
prop("C15", "Directory operations do what they report, also under races and faults",
 "Creating a directory path reports success exactly when the whole path exists afterwards, including when other threads create the same path at the same time or creation fails part-way; listing returns exactly the files (of the given extension) or directories present; recursive deletion removes the directory and everything below it and nothing else, never following a link out of it. Moving or copying reports success only if the destination then holds the source's content, whatever characters the paths contain; it refuses an existing destination where told to. A refused operation and a failed move leave source and destination as they were, a failed copy changes nothing but the destination.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of threads creating overlapping paths, all directory trees (directories are named with a trailing slash, as the library does), and failures of any file-system call; threads do not race for the destination of a move or copy",
 "The path tests cover string helpers; races and failing system calls are not reachable from them.",
 ["basicsys/src/sys_path.cpp", "basicsys/include/sys_path.h"],
 [("step-by-step mkdir", "basicsys/src/sys_path.cpp:create_multi_dir"), ("recursive removal", "basicsys/src/sys_path.cpp:delete_sub_dir"), ("refuse if the destination exists", "basicsys/src/sys_path.cpp:move_file")])
prop("C16", "Timers measure elapsed time, whatever the wall clock does",
 "The cost a timer accumulates over its begin/end pairs equals the time that elapsed between them, summed over all pairs and cut to milliseconds only when reported, and is never negative, however the system's wall clock is stepped or skewed meanwhile; tick counts never run backwards. Timers in different threads do not affect one another.",
 ["fault_sequences", "schedules", "histories"],
 "all histories of begin/end/advance, with wall-clock steps of any size in either direction at any moment",
 "A test cannot set the clock; steps arrive from NTP or the user.",
 ["basicsys/src/sys_timer.cpp", "basicsys/include/sys_timer.h"],
 [("clock read and difference", "basicsys/src/sys_timer.cpp:begin/end/get_tick_cout")])
prop("C17", "Saved JSON values are read back equal, or the damage is reported",
 "A JSON object saved to a file (text or binary) without a reported error is read back equal by the same code, for every nesting of maps, sequences, strings, numbers and booleans the format can represent, whichever way its elements are visited (by name, by index, to and fro with iterators); if a write fails, saving reports it (by status or an error record in the log). When the file is missing, cut short at any byte or unreadable, reading terminates and either reports failure or leaves out only whole top-level entries at the end (in a text file, which has no end mark, also the rest of the last scalar): no value that was interrupted is passed off as an empty or different container. Damaged bytes never make the reader crash, hang or access memory out of bounds.",
 ["fault_sequences", "crash_points", "inputs"],
 "all maps of values whose names are non-empty and free of ':' and whose names and strings are free of tabs, line breaks, braces and brackets (text sequences of one kind each, no NaN), all truncation points, damaged bytes, crashes while saving, and read/write faults",
 "The JSON tests parse intact text; the guarantee is over every crash point of the writer.",
 ["basicsys/src/sys_json.cpp", "basicsys/include/sys_json.h", "basicsys/src/sys_buffer.cpp"],
 [("tokeniser and value parser", "basicsys/src/sys_json.cpp")])
prop("C18", "Matrix computations equal their definition for every layout, type and schedule",
 "Element-wise arithmetic of matrices, numbers, per-channel scalars and vectors (+ - * / and negation, new or in place, biases along any subset of dimensions), powers, exponentials, logarithms, absolute values, activation and loss functions, reductions, comparison masks, expanding, pooling and unpooling with the places pooled, repeating, merging, summing, products of matrices, convolutions (every boundary, channel order and stride), eigen-decomposition of symmetric matrices, equality and zero tests, and reading, writing, printing and enumerating elements give what their definitions give, for every shape, number of dimensions and channels, element type and memory layout (contiguous, part of a bigger matrix, transposed, repeated), whatever other threads compute on the same operands at the same time and whatever fresh memory contains. Operands that are not changed in place, and memory outside a matrix that is, stay as they were; a result shares memory with an operand only if it is a view by definition; nothing is read or written outside the matrices (one too big for sizes and steps to count is refused as exhausted memory), nothing leaks, and valid calls report no error.",
 ["schedules", "inputs"], "all matrices and parameters of these operations for which the element type can represent the results (the sums inside products and convolutions are the Intel library's, which is not part of the repository; a reference implementation of its calls stands in)",
 "Tests compute a few small contiguous matrices; views, many dimensions or channels, fresh memory contents and threads sharing operands are not reached.",
 ["basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_pooling.cpp", "basicmath/src/mt_convolution.cpp", "basicmath/src/ml_multiplication.cpp", "basicmath/src/mt_mat_helper.cpp", "basicmath/src/mt_mat.cpp"],
 [("element loops over contiguous and strided matrices", "basicmath/src/mt_mat_math_operation.cpp"), ("kernels, places and unpooling", "basicmath/src/mt_pooling.cpp"), ("merging, reducing, comparing", "basicmath/src/mt_mat_helper.cpp"), ("elements, iterators, equality", "basicmath/src/mt_mat.cpp")])
prop("C19", "Automatic differentiation yields the true derivative over every recorded history",
 "Whatever history of computations a differentiation engine records - arithmetic of matrices and constants with an operand used any number of times, clones, powers, exponentials, logarithms, absolute values, activations, losses with missing matching values, biases, parts, channels, strides, flips, reshapes, margins, repetition, pooling, merging, products of matrices, convolutions, sums and products of several - the derivative of any of its matrices by any other (one or several sources and targets, asked for in any order, between any computations, again and again) equals the mathematical derivative at that point, and a matrix that does not depend on another has none. Computations made while the engine ignores them leave no trace, a reset begins an empty record, what the engine hands out belongs to the caller (changing it changes neither a matrix nor a later derivative), the number of cached sources makes no difference, and asking changes no matrix and not the engine's stage. Engines of different threads do not disturb each other, nothing leaks, nothing outside the matrices is touched, and legal computations and questions report no error.",
 ["schedules", "histories", "inputs"], "all histories over the recorded operations on 32- and 64-bit floats at differentiable points (operations the engine does not record, such as exchanging dimensions and reducing, are excluded)",
 "Tests compare a few expressions at a few points; operands used twice, several channels, views, cached answers, repeated questions, resets and concurrent engines are not reached.",
 ["basicmath/src/mt_auto_derivative.cpp", "basicmath/src/mt_auto_derivative_tree.cpp", "basicmath/include/mt_auto_derivative_tree.h"],
 [("recording, search for the path, cache of sources", "basicmath/src/mt_auto_derivative.cpp"), ("local derivatives of every operation", "basicmath/src/mt_auto_derivative_tree.cpp"), ("nodes and their operands", "basicmath/include/mt_auto_derivative_tree.h"), ("what is recorded when", "basicmath/src/mt_mat_math_operation.cpp")])
prop("C20", "Sorting, streams, optimisation and pooled memory match their definitions",
 "A sort (with or without the original positions, up or down) orders its data and permutes it, an element is never lost or doubled even if memory runs out, and a collector of the k best holds after every arrival exactly the k best so far, whatever the order in which threads deliver, repetitions included, and however collectors are combined. Every value of a histogram is counted in exactly one of its equal, touching ranges; the bag's value is the best possible and its flags name a choice of that value within the weight; the longest common part, all its beginnings and the greatest sum of neighbours are right, as are the medians, flips, extremes, index conversions, counts, comparisons, angles and partitions of the vector helpers. A block memory hands out cells that do not overlap, keep their place and content until given back, are visited in order and are reused before new ones; nothing leaks or leaves its memory, and threads with objects of their own do not disturb each other.",
 ["schedules", "fault_sequences", "histories", "inputs"], "all sequences of values of an ordered type (no NaN), all arrival orders, k from 0, data for a histogram not empty, weights not negative, results inside the range of the type",
 "Tests feed one ascending list or one bag; ties, equal keys, reversed or shared streams, negative and unsigned values, small texts, refilled memory and failing allocations are not reached.",
 ["basicmath/include/mt_sort.h", "basicmath/include/mt_top_k.h", "basicmath/include/dynamic_programming", "basicmath/include/mt_block_memory.h", "basicmath/include/mt_helper.h", "basicmath/src/mt_hist.cpp"],
 [("heap, bubble, sorting with positions", "basicmath/include/mt_sort.h"), ("replacement of the worst of the best", "basicmath/include/mt_top_k.h"), ("recurrences and their traces", "basicmath/include/dynamic_programming"), ("blocks, reuse, visiting", "basicmath/include/mt_block_memory.h"), ("ranges and counts", "basicmath/src/mt_hist.cpp")])
prop("C21", "Text, conversion and path helpers are right for every text, locale and thread",
 "Splitting gives parts which, joined by the tag, are the text (an empty text has none, an empty tag splits nothing); replacing changes every occurrence once, from left to right; the edit distance is the least cost of insertions, replacements and deletions that turn the first word into the second, at any length; formatted and combined text is complete and exact whatever its length. Conversions between local, UTF-8 and wide text lose nothing the user's locale can represent and end on bytes that are no text; file name, title, extension and directory of a path fit together; names of element types are read back. All of it holds in several threads at once, leaves the locale of the program and its threads as it was, and reports exhausted memory without a leak.",
 ["schedules", "fault_sequences", "inputs"], "all texts without a zero byte, all locales of the environment (UTF-8, plain, not installed, not set), costs not negative, directories end with a separator",
 "Tests split four short texts by a comma and convert one sample; long texts, longer tags, costs, other locales, invalid bytes, threads and failing allocations are not reached.",
 ["basicsys/src/sys_strhelper.cpp", "basicsys/src/sys_strconvert.cpp", "basicsys/src/sys_strcombine.cpp", "basicsys/src/sys_path.cpp", "basicmath/src/mt_data_type.cpp"],
 [("split, replace, distance, formatting", "basicsys/src/sys_strhelper.cpp"), ("conversions and the locale", "basicsys/src/sys_strconvert.cpp"), ("writing of values", "basicsys/src/sys_strcombine.cpp"), ("names in paths", "basicsys/src/sys_path.cpp")])
prop("C22", "Extractors honour 8-neighbour connectivity",
 "With 8-neighbour connectivity selected, the parallel extractors V1 and V2 and the ECCV 2008 extractor report the regions of the 8-connected component tree.",
 ["schedules", "inputs"], "all images and thread counts with 8-neighbour connectivity",
 "No test links basicimg.",
 [IMG+"img_fast_mser_v1.cpp", IMG+"img_fast_mser_v2.cpp"],
 [("direction tables", "allocate_memory_parallel_*")])
prop("C23", "Random draws keep their range, repeat from their seed and are spread as stated",
 "Every number drawn lies inside the interval asked for, an open bound is never returned, a binomial count is between 0 and the number of trials (exactly at the end when the probability is 0 or 1), a Gaussian draw without deviation is the mean, a permutation or sample contains each index once, whatever values the system's generator delivers, its extremes included. Setting the seed makes everything drawn afterwards (numbers, permutations, samples, matrices of any type, shape and number of channels) repeat exactly. Means, variances and frequencies over many draws are those of the distribution, matrices drawn have the shape asked for, nothing leaks or leaves its memory, and threads may draw at the same time.",
 ["fault_sequences", "schedules", "inputs", "histories"], "all intervals (open or closed, tiny or huge), distributions, shapes and types, all values of the underlying generator, all interleavings of drawing threads, all histories after setting a seed",
 "A test sees ordinary values of the C library's generator only; its extremes, where bounds are returned or left, come once in two thousand million draws.",
 ["basicmath/src/mt_random.cpp", "basicmath/include/mt_random.h"],
 [("scaling of the generator's value", "basicmath/src/mt_random.cpp:random_next_i32, random_uniform"), ("binomial and Gaussian draws", "basicmath/src/mt_random.cpp:bernoulli, gaussian"), ("shuffling", "basicmath/src/mt_random.cpp:randperm, randSample"), ("filling matrices", "basicmath/src/mt_random.cpp:*_iid")])
prop("C24", "Connected components partition every image; copies and pictures agree",
 "The components extracted from an image are exactly the classes of covered pixels joined by 4- or 8-neighbourhood (and, for extractors of zones, by equal values): each covered pixel belongs to one of them, once, no other pixel does, and each component's rectangle bounds it; the component of one point is the one that holds it, empty if the point is not covered. That is so for every pixel type, size, mask (none, rectangle, mask image, background value), view with padded rows, reused result and thread that reads the same image, and exhausted memory is reported without a leak. Copies of components and results stay valid when their original is gone, the pictures and level images drawn from them show exactly their pixels, and rectangles move, meet, contain, clamp, bound and scale as the sets of points they stand for, as points, sizes, ranges and short arrays add, measure, compare and print what they hold.",
 ["schedules", "fault_sequences", "histories", "inputs"], "all images whose rows hold adjoining pixels, mask images of the image's size, rectangles of whole points that are not empty, no NaN",
 "No test links basicimg or touches a component or a rectangle.",
 [IMG+"img_connected_component.cpp", "basicimg/include/img_connected_component.h", IMG+"img_mser_result.cpp", "basicmath/include/mt_rect_t.h"],
 [("flood fill under masks", "basicimg/include/img_connected_component.h normal_extract_start, basicimg_cc_n_*, basicimg_cc_s_*"), ("ownership of points", "img_connected_component::operator=, img_multi_connected_components"), ("pictures", "image_from_connected_component, generate_mser_channel_image"), ("rectangles", "basicmath/include/mt_rect_t.h")])
prop("C25", "Edges and stroke widths follow their definitions, whatever came before",
 "For every image and gradient the Canny detector marks exactly the local maxima across the edge above the low threshold that hang together with one above the high threshold; the automatic one does so with a high threshold that follows the mean of the edges in the windows around, within its bounds, its rule for dense windows, the removal of small weak groups and the tracing of what hangs together; stroke widths come from rays between edges whose gradients oppose within the given angle; gradient magnitudes and chessboards are what they are called; a Gaussian blur weighs the neighbours along each direction by the normalised normal distribution of that direction, taking nothing from outside the image. None of this depends on earlier calls, kept or cleared memory, reused or aliased results, padded or viewed matrices, copies of the detector or other threads. What the caller gave is never written to, released detectors and exhausted memory leave nothing behind, and without memory cache nothing is kept.",
 ["schedules", "fault_sequences", "histories", "inputs"], "all whole gradients up to 1020, windows of a multiple of 4, angles of 0 to 90 degrees, matrices whose rows hold adjoining values; gradients are given (without them OpenCV computes them)",
 "No test links basicimg; no test detects an edge.",
 [IMG+"img_canny.cpp", IMG+"img_auto_threshold_canny.cpp", IMG+"img_stroke_width_transform.cpp", IMG+"img_img.cpp"],
 [("edges", "img_canny::canny_impl"), ("memory between calls", "img_canny::edge_detection, clear_memory_cache, copies"), ("automatic thresholds", "img_auto_threshold_canny::edge_detection, remove_small_edge, trace_edge"), ("strokes", "img_stroke_width_transform::swt"), ("magnitudes, chessboards", "img_img::generate_gradient_mag, genarate_chessboard")])

prop("C26", "A mask confines an extraction to the pixels it admits",
 "Given a rectangle, a mask image or a background value, the linked-list linear and the original extractor report regions of admitted pixels only: each is exactly one connected component of the admitted pixels at or below (dark) or at or above (bright) its level, a rectangle gives the regions of the part of the image it cuts out, masks that admit the same pixels give the same regions, and without stability or duplicate rules every such component within the size limits is reported. A rectangle may leave the image and a mask may admit nothing; nothing depends on earlier extractions with other masks, on views with padded rows or on other threads, and neither image nor mask is written to. The extractors that know no masks log an error and report the whole image's regions.",
 ["schedules", "histories", "inputs"], "mask images of the image's size that hold 0 and 1; how far stability looks beyond the admitted pixels is left to the extractor",
 "No test links basicimg; no test passes a mask.",
 [IMG+"img_linked_linear_mser.cpp", IMG+"img_origin_mser.cpp", IMG+"img_mser_base.cpp"],
 [("masks of the linear extractor", "img_linked_linear_mser::allocate_memory, pre_process_image, extract_pass"), ("masks of the original extractor", "img_original_mser::allocate_memory"), ("the others", "allocate_memory and pre_process_image of V1, V2, ECCV 2008 and the OpenCV, vlfeat and idiap ports")])

prop("C27", "Comparison extractors report exactly the regions their published rules select",
 "CV-MSER reports, of the 4-connected component tree of the image without its outermost pixels, exactly the regions within the size limits whose change between level - delta (along the biggest child) and level + delta is within the limit and no more than the suppression threshold above that of a region one level away, each with its pixels and box. VF-MSER reports the level and size of exactly the regions of the component tree that VLFeat's rules keep (change towards level + delta below the limit, suppression between adjacent levels, inclusive size limits, duplicates dropped in favour of the parent), and the original extractor the regions the linked-list rules select with the root of the tree included. This holds for every image down to one pixel, stride, setting and earlier call, for both polarities and, but for CV-MSER, for 4 and 8 neighbours.",
 ["inputs", "histories"], "masks off; where two children of a region are equally big CV-MSER may follow either; the old OpenCV and the idiap ports have no published rule that the order of the flood does not decide, or report nothing",
 "No test links basicimg.",
 [IMG+"img_opencv3_mser.cpp", IMG+"img_vlfeat_mser.cpp", IMG+"img_origin_mser.cpp", IMG+"img_mser_base.cpp"],
 [("CV-MSER", "img_opencv3_mser::CompHistory::updateTree, checkAndCapture, ConnectedComp::growHistory, merge"), ("VF-MSER", "mser_process, mser_recogniztion"), ("original", "img_original_mser::recognize_mser")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
