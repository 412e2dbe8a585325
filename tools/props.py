# The properties, in the order of the repository's layers. tools/gen.py writes properties.jsonl and MANIFEST.json.
NOT_APPLICABLE = []
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique, **kw))


MSER_DEF = ("For every gray image and every setting of the detector, the returned dark and bright regions are exactly the maximally stable extremal regions that the "
            "component tree of the image defines under those settings: the same gray levels, sizes, pixel sets and bounding rectangles, none missing, none extra. ")
T_MODEL = "random images and settings against a reference component tree (gray level, size, pixel set and rectangle of every region)"

P("C01", "The first fast detector returns the defined regions with every thread count", MSER_DEF +
  "The result does not depend on the number of threads (1, 2, 4, 8, 16 or 32) nor on how the partitions are merged. With one thread it also holds for 8-connectivity.",
  ["inputs", "configurations", "schedules"], "all unmasked gray images with at least one row and column per partition, all detector settings, all supported thread counts (4-connected; 8-connected with one thread)",
  "The repository has no test of any extractor; a sample image would exercise a handful of tree shapes, one partition layout and one gray range, while the guarantee is over all of them.",
  ["basicimg/src/img_fast_mser_v1.cpp", "basicimg/include/img_fast_mser_v1.h", "basicimg/src/img_mser_base.cpp", "basicmath/include/mt_block_memory.h"],
  [("flooding of each partition", "img_fast_mser_v1::make_tree_patch"), ("merging partitions along their borders", "img_fast_mser_v1::connect"), ("stability, suppression and duplicates", "img_fast_mser_v1::recognize_mser"), ("pixels of the regions", "img_fast_mser_v1::extract_pixel*")],
  T_MODEL)
P("C02", "The second fast detector returns the defined regions with every thread count", MSER_DEF +
  "The result does not depend on the number of threads (1, 4 or 32) nor on the size from which regions share the pixels of their children.",
  ["inputs", "configurations", "schedules"], "all 4-connected unmasked gray images with at least one row and column per partition, all detector settings, thread counts and recursion thresholds",
  "No test runs this extractor; which pixels land in which partition, block of region memory and layout depends on the image and the thread count.",
  ["basicimg/src/img_fast_mser_v2.cpp", "basicimg/include/img_fast_mser_v2.h", "basicimg/src/img_mser_base.cpp", "basicmath/include/mt_block_memory.h"],
  [("flooding of each partition", "img_fast_mser_v2::make_tree_patch"), ("merging partitions along their borders", "img_fast_mser_v2::connect"), ("stability, suppression and duplicates", "img_fast_mser_v2::recognize_mser*"), ("pixels of the regions", "img_fast_mser_v2::extract_pixel*")],
  T_MODEL)
P("C03", "The linear linked detector returns the defined regions, 4- and 8-connected", MSER_DEF +
  "This holds for 4- and for 8-connectivity.",
  ["inputs", "configurations"], "all unmasked gray images, all detector settings, both connectivities",
  "No test runs this extractor.",
  ["basicimg/src/img_linked_linear_mser.cpp", "basicimg/include/img_linked_linear_mser.h", "basicimg/src/img_mser_base.cpp"],
  [("flooding", "img_linked_linear_mser::make_tree_patch"), ("stability, suppression and duplicates", "img_linked_linear_mser::recognize_mser"), ("pixels", "img_linked_linear_mser::extract_pixel")],
  T_MODEL)
P("C04", "The recursive detector returns the defined regions", MSER_DEF +
  "The result does not depend on the size from which regions share the pixels of their children.",
  ["inputs", "configurations"], "all 4-connected unmasked gray images, all detector settings and recursion thresholds",
  "No test runs this extractor.",
  ["basicimg/src/img_ms_mser.cpp", "basicimg/include/img_ms_mser.h", "basicimg/src/img_mser_base.cpp"],
  [("flooding", "img_ms_mser::build_tree"), ("stability, suppression and duplicates", "img_ms_mser::recognize_mser"), ("pixels", "img_ms_mser::extract_pixel*")],
  T_MODEL)
P("C05", "A detector used many times behaves like a new one and leaves images alone",
  "Whatever sequence of images, masks, settings, thread counts and cache clearings a detector object has gone through, extracting an image gives the regions a new detector gives. "
  "Extraction never changes the given image or an earlier one, and results obtained earlier keep their regions, also after the detector is destroyed.",
  ["histories", "inputs", "configurations"], "all sequences of extractions (masked ones too where the detector follows masks), setting changes and cache clearings on one detector object of any of the seven kinds",
  "State left by an earlier extraction only matters for particular sequences of sizes, settings and thread counts; no test extracts anything twice.",
  ["basicimg/src/img_fast_mser_v1.cpp", "basicimg/src/img_fast_mser_v2.cpp", "basicimg/src/img_linked_linear_mser.cpp", "basicimg/src/img_ms_mser.cpp", "basicimg/src/img_opencv3_mser.cpp", "basicimg/src/img_opencv_mser.cpp", "basicimg/src/img_origin_mser.cpp", "basicimg/src/img_mser_base.cpp"],
  [("memory kept between extractions", "allocate_memory / clear_memory_cache of each extractor"), ("ownership of region memory", "img_multi_msers")],
  "random histories of extractions on one detector, each compared with a new detector; earlier results and inputs compared again at the end")
P("C06", "The original detector returns the defined regions, masked or not", MSER_DEF +
  "With a mask (a rectangle, an image whose ones are kept, or a masked gray value) only the kept pixels count: the component tree is that of the kept pixels, with 4- or 8-connectivity as set. This detector may return the region that covers everything.",
  ["inputs", "configurations"], "all gray images with all three kinds of masks that keep at least one pixel, all detector settings, both connectivities",
  "No test runs this extractor or any mask; masked pixels change which components join and when.",
  ["basicimg/src/img_origin_mser.cpp", "basicimg/include/img_origin_mser.h", "basicimg/include/img_mser_base.h", "basicimg/src/img_mser_base.cpp"],
  [("marking and masks", "img_original_mser::mark_pixels / init_comp"), ("flooding", "img_original_mser::make_tree_patch"), ("stability, suppression and duplicates", "img_original_mser::recognize_mser"), ("pixels", "img_original_mser::extract_pixel")],
  "random images, masks and settings against a reference component tree of the kept pixels")
P("C07", "The opencv3 detector returns the regions of its definition",
  "For every gray image and every setting, the opencv3 detector returns exactly the extremal regions (inside the image without its outermost pixels) of allowed size whose variation, "
  "the growth between the largest child chain delta levels down and the ancestor delta levels up, is within the limit and is not suppressed by a more stable neighbouring level: "
  "gray level, size, pixel set and rectangle of each, dark regions of the image and bright ones from the inverted image.",
  ["inputs", "configurations"], "all unmasked gray images of at least 3 x 3 pixels, all detector settings",
  "No test runs this extractor.",
  ["basicimg/src/img_opencv3_mser.cpp", "basicimg/include/img_opencv3_mser.h"],
  [("flooding", "img_opencv3_mser::pass"), ("variation and suppression", "img_opencv3_mser::CompHistory::checkAndCapture")],
  "random images and settings against a reference tree with this detector's own variation")
P("C08", "The opencv detector returns the regions of OpenCV 2's algorithm",
  "For every image and setting the opencv detector returns exactly the regions of the published algorithm (flooding from the first pixel; a component about to rise is taken one step back when its growth over delta levels stops falling, is within the limit, and it grew enough since the region taken from it last): gray level, size, pixel set and rectangle of each. "
  "Every region lies inside one connected component of the pixels at or below (bright regions: at or above) its gray level, has between the minimum and the maximum number of pixels, "
  "holds every pixel once, is returned once, and carries the bounding box of its pixels. A switched-off pass returns nothing, and the bright regions of an image are the dark regions of its negative with mirrored gray levels.",
  ["inputs", "configurations"], "all unmasked gray images and all detector settings",
  "No test runs this extractor.",
  ["basicimg/src/img_opencv_mser.cpp", "basicimg/include/img_opencv_mser.h"],
  [("flooding", "img_opencv_mser::extractPass"), ("stability", "img_opencv_mser::isStable / calculateVariation"), ("merging", "img_opencv_mser::mergeComp"), ("output", "img_opencv_mser::toMSERInfo")],
  "random images and settings against a direct model of the algorithm, the connected components of a reference tree, and the negative image as a metamorphic relation")
P("C09", "The linear linked detector leaves out masked pixels",
  "With a mask image (its ones are kept) or a masked gray value, and settings that accept every extremal region (no stability limit, no suppression, no duplicate removal), the linear linked detector returns exactly the extremal regions of allowed size of the kept pixels, for both passes and both connectivities.",
  ["inputs", "configurations"], "all gray images with a mask image or a masked value, with the settings that accept every extremal region",
  "No test runs this extractor with a mask.",
  ["basicimg/src/img_linked_linear_mser.cpp", "basicimg/include/img_linked_linear_mser.h"],
  [("masks", "img_linked_linear_mser::mark_pixels"), ("flooding", "img_linked_linear_mser::make_tree_patch")],
  "random images and masks against a reference component tree of the kept pixels")
P("C10", "Detection results can be copied, assigned, destroyed and drawn",
  "Copies and assignments of results (whole results and single regions) hold the same regions, keep them after any other result or the detector is changed, refilled, cleared or destroyed, and self-assignment changes nothing. "
  "Drawing a region at its own size gives exactly its pixels in the region colour on the background, centred in a square; the list of all regions holds the dark regions and then the bright ones.",
  ["histories", "inputs"], "all sequences of copies, assignments, refills and destructions of results of any of the seven detectors",
  "No test copies a result or draws a region; which memory a copy shares depends on the detector, the thread count and the recursion threshold.",
  ["basicimg/include/img_mser_base.h", "basicimg/src/img_mser_base.cpp", "basicimg/src/img_mser_helper.cpp", "basicimg/include/img_mser_helper.h"],
  [("ownership", "img_mser / img_multi_msers copy constructors and assignments"), ("drawing", "img_mser_helper::image_from_mser"), ("list of all regions", "img_mser_helper::shallow_copy_msers")],
  "random histories of result objects compared with recorded regions after every step; drawings compared pixel by pixel")
P("C11", "Matrix views address the elements they stand for, and writes reach them all",
  "Every view of a matrix (rows, columns, ranges, planes, channels, diagonals, transposes, flips, reshapes, shared handles, matrices over given memory; nested at will) holds exactly the elements its definition says, "
  "and a write through any handle or view is seen by exactly the handles and views that share the written elements, while clones and detached matrices keep their own. No operation touches memory outside the matrix's block.",
  ["histories", "inputs", "configurations"], "all sequences of view, share, detach, reshape and write operations on matrices of every depth, 1 to 5 dimensions and 1 to 6 channels",
  "Views nest without limit, so a step or offset that is wrong for one combination (a flipped window with several channels) is only met by particular sequences.",
  ["basicmath/src/mt_mat.cpp", "basicmath/include/mt_mat.h", "basicmath/include/mt_block_memory.h"],
  [("views", "mt_mat::sub / row / col / plane / channel_at / t / flip / reshape"), ("sharing", "mt_mat reference counting, attach/detach"), ("writes", "mt_mat::set")],
  "random histories of matrix handles against a model of shared cells, with red zones around given memory, under AddressSanitizer")
P("C12", "Matrices convert, copy and compare by value whatever their layout",
  "Converting, cloning, copying, comparing and iterating a matrix depends on its dimensions, channels and values only, never on how it lies in memory: windows, transposes, flips and channel views give what a plain matrix of the same values gives. "
  "Conversion between depths is the C++ conversion of each value.",
  ["inputs", "configurations"], "all pairs of matrices of every depth, up to 5 dimensions and 6 channels, and every layout views can produce",
  "Code paths are chosen by layout (continuous, last dimension continuous, strided, more than two dimensions); the tests use plain matrices.",
  ["basicmath/src/mt_mat.cpp", "basicmath/include/mt_mat.h", "basicmath/include/mt_array_iteration.h", "basicmath/src/mt_array_iteration.cpp"],
  [("conversion and copies", "mt_mat::convert / clone / copy_from"), ("comparison", "mt_mat::is_equal / compare_value / is_zero"), ("iteration", "mt_array_iterator, mt_array_element_iterator, mt_array_helper")],
  "random matrices in random layouts against a value model")
P("C13", "Matrix arithmetic is elementwise whatever the layout of its operands",
  "Sums, differences, products and quotients of matrices with matrices, numbers and per-channel numbers (on either side, in place or not), powers, exponentials, logarithms and absolute values, and sums and products of many matrices are those of the C++ operators on the elements, "
  "for every depth and however the operands lie in memory. Operands keep their values, results have memory of their own, and nothing outside the written matrix changes.",
  ["inputs", "configurations"], "all matrices of every depth, up to 5 dimensions and 6 channels, in every layout views can produce",
  "Each operation has separate loops for continuous, 2-d, 3-d and general matrices with one or several channels; the tests use plain ones.",
  ["basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_mat_helper.cpp"],
  [("elementwise loops", "private_math_operation::mat_operation"), ("sums and products of many", "mt_mat_helper::add / dot")],
  "random operands in random layouts against the C++ operators on each element")
P("C14", "Comparison masks, reductions and biases follow their definitions",
  "element_compared_mask gives the true or false mask for every element compared with another matrix (of any depth) or with zero; reduce gives sum, mean, extremes, variances and deviations along a dimension or over all elements, for each channel; "
  "add_bias, substract_bias, mul_bias and div_bias repeat the bias over the matrix. All for every layout.",
  ["inputs", "configurations"], "all matrices of up to 5 dimensions and 6 channels in every layout views can produce; reductions of float matrices",
  "No test covers masks with other depths, variances, or biases of matrices that are not plain blocks.",
  ["basicmath/src/mt_mat_math_operation.cpp"],
  [("masks", "private_math_operation::element_compared_mask"), ("reductions", "private_math_operation::reduce"), ("biases", "private_math_operation::operation_bias")],
  "random operands in random layouts against direct definitions")
P("C15", "Activations, losses and symmetric eigenvectors follow their definitions",
  "Sigmoid, tanh, relu, softmax and linear activations (in place or not, with or without parameters), quadratic and logarithmic losses (leaving out labels that are not numbers) give what their formulas say for every layout; "
  "symmetry_eigen returns falling eigenvalues with orthonormal eigenvectors that satisfy A v = e v.",
  ["inputs", "configurations"], "all float matrices of up to 5 dimensions and 6 channels in every layout; symmetric matrices up to 9 x 9",
  "No test covers the losses, parameters of activations, or eigenvectors of matrices with repeated eigenvalues or low rank.",
  ["basicmath/src/mt_mat_math_operation.cpp"],
  [("activations", "private_math_operation::activate"), ("losses", "private_math_operation::loss"), ("eigenvectors", "private_math_operation::jacobi")],
  "random operands in random layouts against formulas; eigenvectors against the invariants that define them")
P("C16", "Repeating, expanding, striding and merging matrices place every element",
  "repeat tiles the matrix (and its channels), expand surrounds it with the fill value, sub_stride is the view of every n-th element, and merge_align_dim and merge_align_channel put matrices side by side, for every depth, size and layout; memory is shared only where asked for.",
  ["inputs", "configurations"], "all matrices of up to 5 dimensions and 6 channels in every layout, all margins, strides and repetitions",
  "Sizes and layouts of several matrices are combined; no test merges matrices of different sizes.",
  ["basicmath/src/mt_mat_helper.cpp", "basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_mat.cpp"],
  [("merging", "mt_mat_helper::merge_align_dim / merge_align_channel"), ("margins and strides", "mt_mat::expand / sub_stride"), ("tiling", "mt_mat::repeat")],
  "random operands in random layouts against direct definitions")
P("C17", "Pooling summarises each window and unpooling gives back to its elements",
  "Pooling takes the mean, sum, maximum, minimum, first or indexed element of every window (clipped at the end) in each channel, with masks that point to the extreme elements; "
  "unpooling adds every result to the elements it came from (shared among a mean's window, to the masked element of its own channel for extremes), for every depth, dimension, kernel and stride.",
  ["inputs", "configurations"], "all matrices of up to 5 dimensions and 6 channels in every layout, kernels and strides from 1 to 4",
  "There are five implementations by dimension and channel; tests cover few of their branches and no masks of several channels.",
  ["basicmath/src/mt_pooling.cpp", "basicmath/src/mt_mat_helper.cpp", "basicmath/include/mt_helper.h"],
  [("pooling", "private_pooling::pooling*"), ("unpooling", "private_pooling::unpooling*"), ("number of windows", "mt_mat_helper::get_pooling_result_size")],
  "random matrices, kernels and strides against a definition by windows")

P("C18", "Buffers give back what was written, in memory and in files, at any position",
  "Over any history of writes and seeks the content of a byte or text buffer, in memory or in a file, is what the writes put at their positions (appending keeps what the file held); "
  "any history of reads and seeks returns the content from its position and advances by it; position, size, remain_size, is_eof, is_closed and the status tell the truth, reading past the end is refused, whatever call of a file fails (reading, writing, moving, or writing out the rest when it is closed) shows in the status and ends the operation, and every file that was opened by path is closed.",
  ["histories", "inputs", "faults"], "all histories of writes, seeks, reopenings and reads of values, strings, lines, characters and blocks, over the four kinds of writers and readers, files that cannot be opened, and files any of whose calls fails",
  "The only test of buffers is disabled; what goes wrong depends on the order of operations, on embedded zero bytes, on line ends and on the end of the file.",
  ["basicsys/include/sys_buffer.h", "basicsys/src/sys_buffer.cpp", "basicsys/include/sys_basic_define.h"],
  [("writing at a position", "sys_byte_buffer_writer::write / sys_string_buffer_writer::write"), ("reading from a position", "sys_byte_buffer_reader::read / read_str, sys_string_buffer_reader::read_str / read_line / read_char"), ("files", "sys_*_file_buffer_writer / reader")],
  "random histories of operations against a plain sequence of bytes and a position, and with injected failures of the file")
P("C19", "JSON documents read back the structure and values that were written",
  "Whatever maps, sequences and values of every type are written through sys_json_writer, in text or binary form, to memory or a file, one by one or from vectors and maps, "
  "sys_json_reader returns the same names, sizes, order and values by key, by index, by iterator and into vectors and maps, in any order and any number of times.",
  ["inputs", "histories"], "all documents of nested maps and sequences of texts, booleans, integers of every width and sign, and reals",
  "The test writes one document and prints most of what it reads; the values that break (large, negative, empty, signed bytes) and the order of reading are not in it.",
  ["basicsys/include/sys_json.h", "basicsys/src/sys_json.cpp", "basicsys/src/sys_buffer.cpp", "basicsys/src/sys_strcombine.cpp"],
  [("writing", "sys_json_writer::text_write_str / binary_write_str / pre_process_map_seq"), ("finding the nodes", "sys_json_reader::text_load_struct_info / binary_load_struct_info"), ("values", "sys_json_reader::operator>>")],
  "random documents, written and read back in random ways (round trip)")
P("C20", "String helpers split, replace, compare, measure, combine and convert as defined",
  "split cuts a text at every occurrence of the separator (and the parts join to the text), replace substitutes every occurrence, trim_left removes the leading characters, equal, upper and lower follow the case of letters, "
  "levenshtein_distance is the least total cost of insertions, replacements and deletions that turn the first word into the second for any costs and lengths, sys_strcombine is the concatenation of its values' texts, a formatted text is what printf writes however long it is, and wide, UTF-8 and local (UTF-8) strings are converted into each other without change of a character.",
  ["inputs"], "all texts, separators, costs and sequences of combined values",
  "The tests split four strings by a comma and combine single values; nothing tests replace, trim_left or the distance.",
  ["basicsys/src/sys_strhelper.cpp", "basicsys/src/sys_strcombine.cpp", "basicsys/src/sys_strconvert.cpp", "basicsys/include/sys_strcombine.h", "basicsys/include/sys_strhelper.h"],
  [("splitting and replacing", "sys_strhelper::split / replace"), ("distance", "sys_strhelper::levenshtein_distance"), ("combining", "sys_strcombine::operator<<")],
  "random texts against direct definitions")
P("C21", "Matrices are saved, loaded and printed unchanged, as text and as bytes",
  "Saving a matrix of any depth, dimension, number of channels and memory layout to a file, a buffer or a field of a JSON document, and loading it, gives a matrix of the same depth, channels, sizes and values (text: to the decimals the format keeps) "
  "with memory of its own, and leaves the saved matrix and everything else in the document as they were. A printed matrix (up to three dimensions) shows its sizes, its type and every element as a number, in order, row by row.",
  ["inputs", "configurations"], "all matrices of up to 6 dimensions and 40 channels in every layout (windows, reordered, flipped, part of the channels), alone or several in one document",
  "The test saves one plain matrix; depths, signs, extreme values, views and several matrices in one document are not covered.",
  ["basicmath/src/mt_mat_serialize.cpp", "basicmath/src/mt_mat_helper.cpp", "basicmath/src/mt_data_type.cpp", "basicmath/src/mt_array_iteration.cpp", "basicsys/src/sys_json.cpp"],
  [("writing and reading", "basicmath::write / read of mt_mat"), ("files", "mt_mat_helper::save / load"), ("names of depths", "mt_Depth_Channel::depth_channel_str / depth_channel_i32")],
  "random matrices in random layouts, saved and loaded back (round trip)")
P("C22", "Recorded computations have the derivatives of the functions they compute",
  "For any computation recorded by mt_auto_derivative (arithmetic with matrices and constants, biases, powers, logarithms, exponentials, absolute values, activations, losses, pooling, products, valid convolutions, views, repeats, merges), "
  "the derivative of any of its matrices by any it depends on is the derivative of the sum of its elements, however often a matrix is used, for several sources and targets, asked for in any order, again, or after reset; recording changes no value.",
  ["inputs", "histories"], "all computations of up to 10 operations over up to 3 leaves (and biases), float matrices of up to 6 dimensions in every layout, and sequences of queries",
  "The tests differentiate single operations mostly; the rules depend on how operations are combined, on operands used twice and on results kept from earlier queries.",
  ["basicmath/src/mt_auto_derivative.cpp", "basicmath/src/mt_auto_derivative_tree.cpp", "basicmath/include/mt_auto_derivative_tree.h", "basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_mat.cpp", "basicmath/src/mt_mat_helper.cpp"],
  [("collecting the paths", "mt_auto_derivative::derivative / find_node_in_parent"), ("rules", "mt_ad_*_tree_node::derivate_child_on_operation"), ("stored results", "mt_ad_mat_tree_node::add_derivative_res / derivative_res")],
  "random computations, differentiated numerically (difference quotients of the computation itself)")
P("C23", "Sorting, selecting and counting agree with their definitions",
  "bubble_sort, heap_sort and sort give the elements in ascending or descending order, and the indexes of sort say where each came from; mt_top_k holds the k largest or smallest of the values seen so far; the median is the lower middle element "
  "and leaves the other elements as they are; the extremes and their indexes are right; a histogram has contiguous bins of equal width and counts every value once; odd_even_sort separates odd and even numbers, keeping their order where asked.",
  ["inputs"], "all arrays (also empty, sorted, nearly sorted, with equal and negative elements) of integers, bytes and reals",
  "The tests sort one permutation of 100 different numbers; equal, negative and few elements, the indexes and the histogram are untested.",
  ["basicmath/include/mt_sort.h", "basicmath/include/mt_top_k.h", "basicmath/src/mt_hist.cpp", "basicmath/include/mt_helper.h"],
  [("sorting", "mt_sort::sort / bubble_sort / heap_sort"), ("heaps", "mt_sort::heap_adjust, mt_top_k::traverse"), ("counting", "mt_hist::hist"), ("parity", "mt_helper::odd_even_sort")],
  "random arrays against the standard library and direct counting")
P("C24", "The dynamic programming classes find optimal solutions",
  "mt_01_bag returns the largest value of any choice of elements that fits, and flags a choice that fits and has it; mt_longest_common_substring returns the length of the longest common run and where it begins in both arrays (one place, and all of them); "
  "mt_max_sum_for_continuous_element returns the largest sum of consecutive elements and where it is; split_array_to_max_mean_sub_arrays splits the elements so that the means differ most.",
  ["inputs"], "all bags of up to 14 elements, all arrays with few or many different elements, negative ones included",
  "One or two examples each; which solution is found, ties, and solutions at the ends of the arrays depend on the values.",
  ["basicmath/include/dynamic_programming/mt_01_bag.h", "basicmath/include/dynamic_programming/mt_longest_common_substring.h", "basicmath/include/dynamic_programming/mt_max_sum_for_continuous_element.h", "basicmath/src/mt_helper.cpp"],
  [("bag", "mt_01_bag::calculate_value / detrermine_flag"), ("substring", "mt_longest_common_substring"), ("sum", "mt_max_sum_for_continuous_element"), ("split", "mt_helper::split_array_to_max_mean_sub_arrays")],
  "random instances against exhaustive search")
P("C25", "Number, index and vector helpers compute what they are named for",
  "compare_value orders integers of every width and sign and takes reals within the tolerance (absolute or relative) as equal, antisymmetrically; combination, factorial, number_of_1, reverse_i32, one_number and add_five are exact while the result fits; max_lexi_order leaves the first text in lexical order that removing one letter can leave; multi-dimensional indexes convert both ways; "
  "is_nan, is_infinity, is_number and neibour_float classify and round; normlize_angle brings angles of one turn too many or too few to [0, 360], radians and degrees convert and angle_sin and angle_cos are the sine and cosine; battle_ship counts ships sunk and hit; "
  "vectors are reversed, summed, multiplied, integrated, cut and copied (from arrays and pointers) exactly, and compared element by element; matrices made of lists of numbers hold them in order, and lists of matrices are cloned.",
  ["inputs"], "all integers and reals (infinities included), indexes of up to 5 dimensions, angles from -360 to 720, vectors of up to 30 elements",
  "All but one of the tests of these helpers are commented out.",
  ["basicmath/include/mt_helper.h", "basicmath/src/mt_helper.cpp", "basicmath/include/mt_mat_t.h", "basicmath/include/mt_angle_helper.h", "basicmath/src/mt_angle_helper.cpp", "basicmath/src/mt_trigonometric_function.cpp"],
  [("comparing", "mt_helper::compare_value / compare_float / compare_double"), ("indexes", "mt_helper::index_from_multi_index / multi_index_from_index"), ("numbers", "mt_helper::combination / number_of_1 / add_five"), ("angles", "mt_angle_helper, mt_trigonometric_function"), ("vectors", "mt_helper::flip_vector / integral_array / instance_from_pointer")],
  "random numbers, indexes and vectors against direct definitions")
P("C26", "Block memory keeps its elements where they are and hands out places once",
  "Through any history of taking places, putting elements aside for reuse, resetting, initialising again with any sizes and clearing, every new place is either the one put aside last or one that overlaps no element in use; elements never move or change; "
  "at(i) and a visit reach the elements in the order they were added, m_element_number counts them, in_block knows them, and memory_size covers them in whole blocks.",
  ["histories"], "all histories of operations with blocks of 1 to 128 elements of plain or class types",
  "The test fills one memory and prints it; reuse, several blocks and starting again are untested, and the detectors build their regions in this memory.",
  ["basicmath/include/mt_block_memory.h"],
  [("places", "basicmath_block_memory_get / add, mt_block_memory::next_block"), ("reuse", "basicmath_block_memory_reuse"), ("starting again", "mt_block_memory::init / reset / clear"), ("visiting", "basicmath_block_memory_visit")],
  "random histories against a model of the places in use")
P("C27", "Cached matrices never share memory with matrices in use, in any thread",
  "While mt_auto_mat_cache objects come and go in any threads, a new matrix (constructed, or from s_mat_cache.get or get_as) has the size and depth asked for and memory of its own; no matrix in use changes when others are made, set, computed or dropped; "
  "matrices copied in several threads count their references exactly; the memory kept stays within the larger of set_memory_size and twice what is in use, and is given back when the last cache scope ends.",
  ["histories", "schedules"], "all histories of making, copying, dropping and computing matrices with cache scopes and memory limits, in 1 to 4 threads at once",
  "No test uses the cache; reuse depends on which matrices of which size were dropped before, and on what other threads do at the same time.",
  ["basicmath/src/mt_mat_cache.cpp", "basicmath/include/mt_mat_cache.h", "basicmath/src/mt_mat.cpp", "basicsys/src/sys_os.cpp", "basicsys/src/sys_thread_lock.cpp"],
  [("reuse", "mt_mat_cache::get"), ("giving memory back", "mt_mat_cache::statistic_memory / enable_cache"), ("references", "mt_mat::reference_info::add_ref / sub_ref"), ("threads", "sys_os::current_thread_id, sys_thread_lock")],
  "random histories in one or several real threads, checked by the values of all matrices in use, address sanitizer and the bytes allocated")
P("C28", "Rectangles behave as the sets of elements they stand for",
  "For mt_rect (left, top, width, height; right and bottom are the last column and row): contain, boundary, is_intersect and the intersection, iou, area, width and height ratios and their thresholds, distances (of the nearest columns or rows), appending points and rectangles (bounding box), "
  "the nearest point inside, cutting to another rectangle, adjusting, expanding and shrinking to a square around the same center, moving, growing, scaling, and linear_position (shared rows) are those of the sets of elements; points add, subtract and measure distances.",
  ["inputs"], "all rectangles of integers with at least one row and column, points and sizes around them",
  "Nothing tests rectangles, and half of their methods did not compile.",
  ["basicmath/include/mt_rect_t.h", "basicmath/include/mt_point_t.h", "basicmath/include/mt_size_t.h"],
  [("intersections", "mt_rect_t::is_intersect / get_iou / is_intersect_area"), ("bounding boxes", "mt_rect_t::adjust_by_append_point / adjust_by_append_rect"), ("squares", "mt_rect_t::expand / shrink"), ("limits", "mt_rect_t::validate_point / validate_rect")],
  "random rectangles against enumeration of their elements")
P("C29", "Random numbers stay in their ranges, have their distributions, follow the seed",
  "random_next_i32, random_uniform (open and closed ends), bernoulli (binomial), gaussian, randSample, randperm and the matrices of independent values they fill return values of the stated range, with the stated mean and variance, and every place of a permutation is equally likely; "
  "matrices have the size and depth asked for; the same seed gives the same values; also for the extreme values of rand(); nothing is left behind in memory.",
  ["inputs", "faults"], "all ranges, probabilities, matrix sizes and seeds, with rand() returning any sequence, its extremes included",
  "No test looks at the values; the extremes of rand() come once in two billion calls.",
  ["basicmath/src/mt_random.cpp", "basicmath/include/mt_random.h", "basicmath/include/mt_helper.h"],
  [("integers", "mt_random::random_next_i32"), ("reals", "mt_random::random_uniform / gaussian"), ("binomial", "mt_random::bernoulli / bernoulli_iid"), ("permutations", "mt_random::randperm")],
  "random parameters with a replaced rand() (extremes mixed in): ranges, and moments within 7.5 standard errors")
P("C30", "Paths split and join, and file operations change exactly what they name",
  "The name, title, extension and directory of a path are its parts (with either slash); listings give exactly the files whose name ends with the extension and exactly the sub directories; create_multi_dir makes every missing directory of a path (of any length) and fails below a file; "
  "deleting a directory removes all that is in it (links, not what they point to) only when forced; copy_file and move_file take names literally, replace an existing file unless told to fail, and fail without a source; nothing else in the file system changes.",
  ["histories", "inputs"], "all histories of file operations over trees of files, directories and links with any names",
  "No test touches the file system; what is deleted, replaced or skipped depends on the names and the tree.",
  ["basicsys/src/sys_path.cpp", "basicsys/include/sys_path.h"],
  [("parts of paths", "sys_path::get_file_name / get_file_extend_name / get_dir_path / get_dir_name"), ("listings", "sys_path::get_file_path / get_file_name / get_dir_path"), ("directories", "sys_path::create_multi_dir / delete_dir / delete_sub_dir"), ("files", "sys_path::copy_file / move_file / delete_file")],
  "random histories in a scratch tree against a model of the tree; stand-ins for remove, rename, mkdir and system refuse and report paths outside")
P("C31", "Log lines reach their target whole, once and in order, within the limits",
  "Every enabled, unfiltered message is printed once, in order (of each thread), with its level, local time, time zone, tag, line, file and text, in consecutive pieces of at most 5000 characters; a file logger writes the pieces to its directory (made when missing), at most so many per file, keeps at most so many of the newest files, "
  "loses nothing when files are opened within one second, and closes its files; assertions log only when they fail; timers add the whole milliseconds of their intervals, counters set, add and keep maxima in any threads, the tester counts its cases.",
  ["histories", "schedules", "inputs"], "all histories of messages of any size, levels, filters, limits, directories, instants and time zones of whole hours, in one or several threads",
  "The tests print a few lines to the console; rotation, limits, long messages, filters and threads need histories.",
  ["basiclog/src/basiclog.cpp", "basiclog/include/basiclog.h", "basicsys/src/sys_timer.cpp", "basicsys/src/sys_alg_analyzer.cpp", "basicsys/src/sys_tester.cpp"],
  [("filters and pieces", "log_logger::print"), ("rotation", "log_file_logger::print / set_dir"), ("timers", "sys_timer::begin / end / out"), ("counters", "sys_alg_analyzer::add / max_")],
  "random histories against a model of the printed pieces and of the log files; threads with real schedules; a replaced clock for timers")
P("C32", "Connected components are exactly the connected sets of unmasked pixels",
  "connect_component and the extraction behind it split the pixels left by a background value or a mask (rectangle, image, value) into the 4- or 8-connected sets (of pixels joined by a condition, where an extractor has one of its own), each pixel once, with their bounding rectangles; a single component is the one of its start pixel; the objects used before, copied or assigned keep what they stand for; "
  "images of components show exactly their pixels within the region asked for, in the colors asked for; the images of the levels of a detector's result name for each pixel the innermost region.",
  ["inputs", "histories"], "all images of 1, 3 or 4 channels, masks, backgrounds, connectivities and histories of extractions and copies",
  "No test extracts components.",
  ["basicimg/include/img_connected_component.h", "basicimg/src/img_connected_component.cpp", "basicimg/src/img_mser_result.cpp"],
  [("components", "ml_connected_component_base::ture_normal_extract / ture_single_extract"), ("masks", "ml_connected_component_base::normal_extract_start"), ("images", "img_connected_component_helper::image_from_connected_component"), ("levels", "img_mser_result::generate_mser_channel_image")],
  "random images and masks against flood filling, histories of copies, random results")
P("C33", "Canny edges are those of the thresholds, also when these adapt to the image",
  "img_canny marks exactly the ridges of the gradient above the low threshold that reach one above the high threshold, for given gradients of any size and magnitude type, whatever was detected before; img_auto_threshold_canny keeps those above the mean of their windows (within its limits, dense windows apart), without small weak edges, and follows them down to the low threshold; "
  "neither changes the gradients; gradient magnitudes, chessboards and the borders of images are as defined.",
  ["inputs", "histories"], "all gradients, thresholds and settings, and histories of detections with one object",
  "No test detects edges.",
  ["basicimg/src/img_canny.cpp", "basicimg/src/img_auto_threshold_canny.cpp", "basicimg/src/img_img.cpp"],
  [("ridges and hysteresis", "img_canny::edge_detection"), ("windows", "img_auto_threshold_canny::edge_detection"), ("magnitudes", "img_img::generate_gradient_mag")],
  "random gradients and settings against a direct model of both methods")
P("C34", "Stroke widths are the shortest rays between opposite edges",
  "img_stroke_width_transform gives each pixel the least width (at least 1) of the rays through it - from an edge pixel along (or against) its gradient to an edge whose gradient opposes it within the angle - first as measured, then by the median of each ray, and the invalid width where no ray passes, and always ends; "
  "it changes neither edges nor gradients; normalized widths are scaled to 0 to 255 over at least 200 levels, invalid ones are 255.",
  ["inputs"], "all edges (also where the gradient is zero), gradients, angles and directions",
  "No test transforms an image.",
  ["basicimg/src/img_stroke_width_transform.cpp", "basicimg/include/img_stroke_width_transform.h"],
  [("rays", "img_stroke_width_transform::swt / get_next_point"), ("medians", "img_stroke_width_transform::median_stroke_width"), ("images", "img_stroke_width_transform::normalize_swt_image")],
  "random edges and gradients against a direct model of the rays")
P("C35", "The vlfeat extractor returns its defined regions; the factory fits its names",
  "img_vlfeat_mser returns, for every image, setting and history, the gray level and size of exactly the regions of the component tree (the whole image included) that are maximally stable by its own definition: the variation up to the last ancestor within delta, "
  "suppression between neighbouring levels, the limits, and duplicates of the nearest kept ancestor, smallest first. img_idiap_mser ends, stays within its memory and leaves the image alone. img_mser_alg_factory returns an instance of the named detector, and none for other names.",
  ["inputs", "configurations", "histories"], "all unmasked gray images, all detector settings, both connectivities, histories of images of different sizes",
  "No test runs these extractors.",
  ["basicimg/src/img_vlfeat_mser.cpp", "basicimg/src/img_idiap_mser.cpp", "basicimg/src/img_mser_base.cpp"],
  [("union of pixels by level", "mser_process"), ("stability, suppression, limits and duplicates", "mser_recogniztion"), ("flooding", "img_idiap_mser::extract_pixel / processStack / doublePool"), ("factory", "img_mser_alg_factory::new_instance")],
  "random images and settings against a reference component tree (multiset of gray levels and sizes)")
P("C36", "Every detector gives back the memory it takes",
  "Whatever a detector has extracted, extracting the same images again and again, copying, assigning and dropping the results, clearing its cache in between, and creating and destroying instances does not make the program hold more and more memory, and no memory is used after it was given back.",
  ["histories", "configurations"], "all nine detectors, thread counts, settings, masks and histories of images and clear_memory_cache",
  "No test runs a detector twice, nor looks at memory.",
  ["basicimg/src/img_fast_mser_v1.cpp", "basicimg/src/img_fast_mser_v2.cpp", "basicimg/src/img_linked_linear_mser.cpp", "basicimg/src/img_ms_mser.cpp", "basicimg/src/img_origin_mser.cpp", "basicimg/src/img_opencv_mser.cpp",
   "basicimg/src/img_opencv3_mser.cpp", "basicimg/src/img_vlfeat_mser.cpp", "basicimg/src/img_idiap_mser.cpp", "basicimg/src/img_mser_base.cpp", "basicmath/include/mt_block_memory.h"],
  [("buffers kept between extractions", "img_*_mser::allocate_memory / clear_memory_cache"), ("memory of results", "img_multi_msers::operator=, img_mser::operator=")],
  "random histories with a byte count of the allocator and AddressSanitizer")
P("C37", "Matrix work leaves no memory behind",
  "Whatever is done with matrices, views, recorded computations (automatic derivatives), caches, bit matrices, ranges, rectangles and search algorithms, and in whatever order, doing the same again and again does not make the program hold more and more memory once its objects are gone, and no memory is used after it was given back or outside what was asked for.",
  ["histories", "inputs"], "all histories of matrix operations whose results are given by C11 to C17, C21 to C25 and C40",
  "The tests run each operation once and never look at memory; a view or a recorded computation keeps memory alive through counts that only histories exercise.",
  ["basicmath/src/mt_mat.cpp", "basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_auto_derivative.cpp", "basicmath/src/mt_mat_helper.cpp", "basicmath/src/mt_mat_cache.cpp", "basicmath/include/mt_mat.h"],
  [("shared memory of matrices", "mt_mat::try_decrease_memory_refference / get_memory_refference"), ("sizes and indexes of operations", "mt_mat::repeat / merge_align_dim, mt_mat_helper::expand"), ("nodes of recorded computations", "mt_auto_derivative::record_operation / math_operation")],
  "random cases of the matrix properties repeated in one process: a byte count of the allocator that must not grow in five rounds running, with AddressSanitizer")
P("C38", "Buffers, documents, strings and logs leave no memory or open files behind",
  "Whatever buffers, JSON documents, strings, paths, files, loggers, timers and counters are used for, and in whatever order, doing the same again and again does not make the program hold more and more memory or open files once its objects are gone, and no memory is used after it was given back or outside what was asked for.",
  ["histories", "inputs"], "all histories of reading, writing, converting, copying and logging whose results are given by C18, C19, C20, C30 and C31",
  "The tests run each operation once and never count memory or open files.",
  ["basicsys/src/sys_buffer.cpp", "basicsys/src/sys_json.cpp", "basicsys/src/sys_strconvert.cpp", "basicsys/src/sys_strhelper.cpp", "basicsys/src/sys_path.cpp", "basiclog/src/basiclog.cpp"],
  [("files and mapped memory", "sys_buffer_reader / sys_buffer_writer"), ("sequences and nodes", "sys_json_reader / sys_json_writer"), ("log files", "log_file_logger::print")],
  "random cases of the system properties repeated in one process: byte count of the allocator and number of open files must not grow in five rounds running, with AddressSanitizer")
P("C39", "Image tools leave no memory behind",
  "Whatever regions, masks, region images and drawings, connected components, edges, stroke widths and image lists are made of, and in whatever order, doing the same again and again does not make the program hold more and more memory once its objects are gone, and no memory is used after it was given back or outside what was asked for.",
  ["histories", "inputs"], "all histories of the image tools whose results are given by C09, C10, C32, C33, C34 and C41",
  "The tests never look at memory, and do not use most of these tools.",
  ["basicimg/src/img_mser_result.cpp", "basicimg/src/img_connected_component.cpp", "basicimg/src/img_canny.cpp", "basicimg/src/img_auto_threshold_canny.cpp", "basicimg/src/img_stroke_width_transform.cpp", "basicimg/src/img_img.cpp"],
  [("memory of results", "img_multi_msers / img_mser_result"), ("memory of components", "ml_connected_component_base / img_multi_connected_components"), ("memory of edges", "img_canny::edge_detection")],
  "random cases of the image properties repeated in one process: a byte count of the allocator that must not grow in five rounds running, with AddressSanitizer")
P("C40", "Matrix products and convolutions follow their definitions",
  "mul gives the matrix product of each channel for operands in any memory layout (also a matrix by itself), conv gives the valid, full or same convolution with the kernel turned round, at any strides, kernels paired with the matrix's channels by rows, columns or crosswise, "
  "with the result sizes that get_conv_result_size tells; no operand changes. set_eye makes the left or right identity in every channel and is_symmetrical tells whether a matrix equals its transpose.",
  ["inputs", "configurations"], "all f32 and f64 matrices with up to 6 dimensions and 20 channels in every layout, all boundary types, kernel alignments and strides",
  "The tests call neither mul nor conv.",
  ["basicmath/src/ml_multiplication.cpp", "basicmath/src/mt_convolution.cpp", "basicmath/src/mt_mat.cpp", "basicmath/src/mt_mat_helper.cpp"],
  [("product", "mt_mat::mul / ml_multiplication"), ("convolution", "mt_mat::conv / mt_convolution"), ("result sizes", "mt_mat_helper::get_conv_result_size"), ("identity", "mt_mat::set_eye / is_symmetrical")],
  "random matrices and kernels in random layouts against direct sums")
P("C41", "A blurred image is the Gaussian mean of the pixels around each pixel",
  "img_img::gaussian_blur weighs the pixels around each pixel by normalized Gaussians of the given or automatic width and height and the given deviations (0: no blur in that direction; a negative one in y: as in x), each channel by itself, "
  "with nothing outside the image; the result has the image's size, depth and channels, may replace the image, and the image and the memory around it are not changed otherwise.",
  ["inputs", "configurations"], "all images of 1 to 4 channels and 7 depths, whole, windows or flipped, odd kernel sizes and deviations from 0",
  "The only test that blurs an image looks at nothing and is not run by the suite.",
  ["basicimg/src/img_img.cpp", "basicmath/src/mt_convolution.cpp"],
  [("kernel sizes", "img_img::gaussian_blur"), ("weights", "img_img::generate_gaussian_kernel"), ("summing", "mt_mat::conv")],
  "random images, kernel sizes and deviations against direct weighted sums")
P("C42", "Schedules do not change what parallel extractions and convolutions return",
  "An extraction by the fast extractors on 2 to 32 threads, at every thread count that they accept, and a convolution that spreads its channels over threads, return the same regions and sums however the threads are scheduled: whichever thread waits, runs ahead or is held up between any two steps, in every pass and in every round of a history on one instance.",
  ["schedules", "inputs", "histories"], "all schedules of extractions and convolutions whose results are given by C01, C02, C05 and C40",
  "The tests extract from few images, on whatever schedule the machine gives; a lost update or a read that comes too early needs a particular interleaving.",
  ["basicimg/src/img_fast_mser_v1.cpp", "basicimg/src/img_fast_mser_v2.cpp", "basicmath/src/mt_convolution.cpp"],
  [("trees of the partitions", "img_fast_mser_v*::build_tree_parallel_*"), ("variation and suppression over partitions", "img_fast_mser_v*::recognize_mser_parallel*"), ("pixels of regions", "img_fast_mser_v*::extract_pixel_parallel*"), ("channels of a convolution", "mt_mat::conv")],
  "random images and histories under random schedules (waits, yields and sleeps drawn for basic blocks, loads and stores of the instrumented code) against the reference models, with AddressSanitizer")
P("C43", "Detectors and image tools of different threads do not disturb each other",
  "Threads that each use extractors, regions, masks, components, edges, stroke widths, drawings and filters of their own get at the same time exactly what each would get alone, with no data race between them.",
  ["schedules", "inputs", "histories"], "all pairs to quadruples of cases of C01 to C10, C32 to C34 and C41 at the same time",
  "The tests use one thread outside of the detectors; state that all instances share shows only when two work at once.",
  ["basicimg/src/img_mser_base.cpp", "basicimg/src/img_fast_mser_v1.cpp", "basicimg/src/img_linked_linear_mser.cpp", "basicimg/src/img_origin_mser.cpp", "basicimg/src/img_opencv_mser.cpp", "basicimg/src/img_opencv3_mser.cpp", "basicimg/src/img_ms_mser.cpp", "basicimg/src/img_fast_mser_v2.cpp", "basicimg/src/img_mser_helper.cpp", "basicimg/src/img_canny.cpp", "basicimg/src/img_connected_component.cpp", "basicimg/src/img_stroke_width_transform.cpp", "basicimg/src/img_draw.cpp", "basicimg/src/img_img.cpp"],
  [("extraction", "img_mser_base::extract"), ("image tools", "img_canny / img_multi_connected_components / img_stroke_width_transform")],
  "random cases of the image properties, first alone, then together on as many threads, with the thread sanitizer: the same oracles, and no data race")
P("C44", "Threads may use matrices of their own and share unchanging elements",
  "Threads that each use matrices and mathematical tools of their own get at the same time exactly what each would get alone; threads may also copy, assign, view, read, clone and release matrices of the same elements as long as none changes the elements, and may take matrices from the mat cache, with no data race, no lost or surplus reference and no memory used after its last reference.",
  ["schedules", "inputs", "histories"], "all pairs to quadruples of cases of C11 to C17, C21 to C26, C28 and C40 at the same time, and all histories of sharing on 2 to 4 threads",
  "The tests share no matrix between threads and cannot see a race that did not strike.",
  ["basicmath/src/mt_mat.cpp", "basicmath/include/mt_mat.h", "basicmath/src/mt_mat_cache.cpp", "basicsys/src/sys_thread_lock.cpp", "basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_convolution.cpp", "basicmath/src/mt_mat_helper.cpp", "basicmath/src/mt_pooling.cpp", "basicmath/src/mt_auto_derivative.cpp"],
  [("references", "mt_mat::reference_info"), ("cache", "mt_mat_cache::get"), ("lock", "sys_thread_lock")],
  "random cases of the matrix properties together on threads, and random histories of sharing, with the thread sanitizer: the results and reference counts of the same work alone, and no data race")
P("C45", "A log that threads share keeps every message whole, and their tools stay apart",
  "Threads that each use buffers, JSON documents and strings of their own get at the same time exactly what each would get alone; messages that threads log at the same time, also while others change or ask levels and filters, each come out once and whole (long ones in adjacent pieces), in the order of their thread, in memory or in log files; nowhere is there a data race.",
  ["schedules", "inputs", "histories"], "all pairs to quadruples of cases of C18 to C20 at the same time, and all logs of 2 to 4 threads",
  "The tests log from one thread.",
  ["basiclog/src/basiclog.cpp", "basiclog/include/basiclog.h", "basicsys/src/sys_thread_lock.cpp", "basicsys/src/sys_buffer.cpp", "basicsys/src/sys_json.cpp", "basicsys/src/sys_strconvert.cpp", "basicsys/src/sys_strhelper.cpp", "basicsys/src/sys_strcombine.cpp"],
  [("log", "log_logger::print"), ("levels and filters", "log_logger::enable_* / add_filter / get_filter"), ("lock", "sys_thread_lock")],
  "random cases of the system properties together on threads, and random logs of several threads, with the thread sanitizer: the results of the same work alone, every line once and whole, and no data race")
