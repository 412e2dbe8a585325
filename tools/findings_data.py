# (property, subject of the fix commit)
FIXED = [
    ("C02", "fast mser v2 reports the gray levels of bright regions in the source image"),
    ("C02", "fast mser v2 joins the rectangles of the partitions on both sides"),
    ("C02", "fast mser v2 sizes its heaps for bright regions when dark ones are not extracted"),
    ("C02", "fast mser v2 extracts the pixels of every partition, not of the first four"),
    ("C04", "ms mser sizes its heaps for bright regions when dark ones are not extracted"),
    ("C04", "ms mser reads windows of larger images row by row"),
    ("C01", "the component stacks of the fast msers hold all 256 gray levels and the sentinel"),
    ("C01", "fast mser v1 extracts the pixels of the last top regions too"),
    ("C01", "fast mser v1 with one thread returns the points and rectangles of its regions"),
    ("C05", "fast msers can change their thread number between extractions"),
    ("C05", "opencv mser sets its row shift; original mser drops the regions of the last extraction"),
    ("C05", "opencv3 mser sizes its heaps for bright regions when dark ones are not extracted"),
    ("C05", "opencv3 mser does not write into the image of an earlier extraction"),
    ("C07", "opencv3 mser reports the gray levels of its regions"),
    ("C08", "opencv mser returns dark regions in the first channel, with the gray levels of the regions"),
    ("C06", "original mser with a masked value reads windows of larger images row by row"),
    ("C09", "linear linked mser leaves out masked values of dark regions too"),
    ("C10", "copies of mser results own their pixels"),
    ("C11", "matrices over given memory take it over whatever their dimensions"),
    ("C11", "matrices of more than four dimensions have memory for their sizes and steps"),
    ("C11", "plane() gives a plane, not a column of every plane"),
    ("C11", "flip of listed dimensions does not flip the others"),
    ("C11", "set from a matrix of another depth reads it with its own depth"),
    ("C11", "combine_dim copies matrices whose dimensions do not follow each other in memory"),
    ("C11", "sub along one dimension does not use its ranges after releasing them"),
    ("C11", "set of 3-d windows with more than four channels sets every channel of every element"),
    ("C11", "reshape of a flipped matrix keeps to its memory"),
    ("C12", "is_zero looks at every byte of an element"),
    ("C12", "matrices of different dimensions are different"),
    ("C12", "copying and comparing arrays of three and more dimensions goes through every element"),
    ("C12", "get_index gives index 0 of dimensions of size 1"),
    ("C13", "numbers minus or divided by a matrix follow the steps of its last dimension"),
    ("C14", "the largest and smallest elements of a matrix have its channels"),
    ("C15", "activations without parameters do not take the address of the first one"),
    ("C16", "merged matrices may differ in the size of the merged dimension"),
    ("C14", "element_compared_mask compares with zero when there is no other matrix"),
    ("C15", "the quadratic loss compares each element with its own, in every channel"),
    ("C15", "the logarithmic loss follows the steps of the last dimension"),
    ("C15", "softmax follows the steps of the last dimension"),
    ("C17", "unpooling without a mask does not ask it for its steps"),
    ("C17", "max and min pooling of 3-d matrices start with the first element of the window"),
    ("C17", "unpooling of 3-d matrices goes through the elements of the mask"),
    ("C17", "unpooling of 3-d matrices with channels knows the size of its result"),
    ("C17", "unpooling of signed bytes keeps their sign"),
    ("C17", "unpooling of sums works for 2-d and 3-d matrices too"),
    ("C17", "every channel is pooled by index and unpooled by its own mask"),
    ("C17", "the index of each dimension is the quotient by the elements below it"),
    ("C18", "writers that append keep what the file holds"),
    ("C18", "fopen_s reports files it cannot open"),
    ("C18", "file buffers report their status"),
    ("C18", "byte writers may write nothing to a file"),
    ("C18", "readers of byte files close them"),
    ("C18", "read_char goes on to the next character"),
    ("C18", "read_line ends at the end of the line"),
    ("C18", "strings read from buffers hold every character asked for"),
    ("C18", "constant readers can be asked for their kind"),
    ("C19", "json readers know that they have not loaded their nodes yet"),
    ("C19", "the size of a json node is known before its elements are read"),
    ("C19", "text json documents hold signed bytes as numbers"),
    ("C19", "integers of binary json documents are read exactly, unsigned ones too"),
    ("C19", "unsigned integers of text json documents are read over their whole range"),
    ("C19", "a single json value replaces what the vector held"),
    ("C19", "text json sequences keep empty texts at their start"),
    ("C20", "the levenshtein distance does not wrap at 256"),
    ("C20", "the levenshtein distance charges insertions and deletions to the right word"),
    ("C20", "split skips the whole separator, and an empty separator does not split"),
    ("C20", "replacing an empty text ends"),
    ("C22", "derivatives of operations that use a matrix more than once"),
    ("C22", "the derivative of a power has the exponent as a factor"),
    ("C22", "the derivative of a logarithm is divided by the logarithm of its base"),
    ("C22", "derivatives by matrices that no recorded operation uses"),
    ("C22", "derivatives of several matrices by several targets"),
    ("C22", "returned derivatives do not share memory with the stored ones"),
    ("C22", "derivatives of products of a single matrix of several channels"),
    ("C22", "derivatives of losses by channel, and without the labels that are not numbers"),
    ("C22", "flipping one dimension is recorded for derivatives"),
    ("C22", "the derivative of softmax takes the derivatives of all its outputs into account"),
    ("C22", "the derivative of a division by a bias of one element or one row"),
    ("C23", "sort with indexes compares every pair of neighbours"),
    ("C23", "histograms count every value once, whatever its sign"),
    ("C23", "odd_even_sort knows negative odd numbers"),
    ("C24", "common substrings may end in the first element of the second array; begin indexes are begins"),
    ("C24", "split_array_to_max_mean_sub_arrays compares exact means and replaces both results"),
    ("C24", "the flags of a bag are elements that fit it and have its value"),
    ("C25", "compare_value orders unsigned and distant integers"),
    ("C25", "equal infinities compare as equal"),
    ("C25", "combinations do not overflow while they fit 32 bits"),
    ("C25", "flip_vector swaps each element with its opposite"),
    ("C25", "instance_from_pointer copies every element"),
    ("C26", "block memory of single elements can be initialised, also after clear"),
    ("C26", "in_block knows the elements of every block"),
    ("C27", "threads have ids of their own outside of windows too"),
    ("C27", "the matrix cache is locked while it is used"),
    ("C28", "the methods of rectangles name members that exist"),
    ("C28", "rectangles minus a point or a size"),
    ("C28", "linear_position counts the rows two rectangles share"),
    ("C29", "random integers do not overflow where RAND_MAX is the largest integer"),
    ("C29", "randperm follows the seed"),
    ("C29", "bernoulli_iid releases its values"),
    ("C29", "open ends of uniform intervals stay open for large bounds"),
    ("C30", "files are listed by the end of their name"),
    ("C30", "the extension of a file is looked for in its name only"),
    ("C30", "directories with long paths are created"),
    ("C30", "deleting a directory deletes its sub directories"),
    ("C30", "copy_file keeps an existing file when asked to and takes paths literally"),
    ("C30", "move_file replaces an existing file when it is allowed to"),
    ("C31", "a file logger writes to its directory from the start"),
    ("C31", "log files opened within one second do not overwrite each other"),
    ("C31", "lowering the limits of a file logger takes effect"),
    ("C31", "a file logger whose file cannot be opened drops the log instead of crashing"),
    ("C31", "add_filter of the loggers is defined"),
    ("C32", "copies of a connected component own their points and keep the rectangle"),
    ("C32", "copies of connected components own their points"),
    ("C32", "extracting into used connected components forgets the old ones"),
    ("C32", "images without unmasked pixels have no connected components"),
    ("C32", "connected components under a mask image end at its bottom and follow its rows"),
    ("C32", "the extraction of a single connected component returns it"),
    ("C32", "images of connected components keep to their region of interest and color type"),
    ("C32", "channel images of bright regions hold the levels of these regions"),
    ("C33", "canny has room for the edges of long rows"),
    ("C33", "auto threshold canny accepts images smaller than a window step"),
    ("C32", "the extraction of connected components starts at its first point"),
    ("C32", "the extraction of connected components addresses its pixels by row and column"),
    ("C34", "the stroke width transform passes over edge pixels without a gradient"),
    ("C35", "the idiap extractor looks for boundary pixels above level 255"),
    ("C35", "the vlfeat extractor takes diagonal pixels of narrow images for 4-connected ones"),
    ("C36", "fast mser v1 frees the boundary orders and merged points it allocates"),
    ("C36", "fast mser v2 frees the index tables of its extraction"),
    ("C36", "regions without points (of the vlfeat extractor) can be copied"),
    ("C36", "the vlfeat extractor frees the filter it replaces and the regions of its last image"),
    ("C37", "constants of recorded computations leak"),
    ("C37", "repeat of a matrix with many dimensions leaks its sizes"),
    ("C37", "expand of a matrix with many dimensions leaks its ranges"),
    ("C37", "merge_align_dim of matrices with many dimensions leaks their sizes"),
    ("C37", "periodic biases with many dimensions leak their indexes"),
    ("C21", "matrices of i8 are printed as numbers"),
    ("C21", "the elements of a printed 1d mat begin on a line of their own"),
    ("C20", "utf-8 and wide strings are converted into each other outside windows too"),
    ("C20", "texts of any length are combined by a format"),
    ("C40", "set_eye() makes the identity matrix"),
    ("C40", "is_symmetrical() looks at the elements"),
    ("C40", "matrices with steps of both signs are copied before they are multiplied"),
    ("C40", "matrices are multiplied without mkl too"),
    ("C40", "matrices are convolved without mkl too"),
    ("C41", "the vertical kernel of a blur has the height that is asked for"),
    ("C41", "images of several channels are blurred channel by channel"),
    ("C41", "a gaussian kernel of sigma 0 is not nan"),
    ("C22", "the strides of a recorded convolution are released after they are recorded"),
    ("C19", "the former place of a json iterator compares equal to itself"),
    ("C18", "a byte file writer that cannot write its last bytes says so when it is closed"),
    ("C18", "a string file writer that cannot write its last bytes says so when it is closed"),
    ("C18", "reading a line of a file that cannot be read ends"),
    ("C18", "a read from a file whose size cannot be asked again does not overrun its buffer"),
    ("C31", "log lines of time zones 12 and more hours from utc name their zone"),
    ("C44", "the number of references of a matrix is read under its lock, as the mat cache needs with several threads"),
]
# (property, key of the KNOWN_FINDING probe, what fails)
FOUND = [
    ("C01", "fast1_image_smaller_than_partitions", "with 32 threads an image with fewer rows or columns than partitions (3 x 2) is cut into empty partitions and out of bounds memory is used; extract() does not fall back to fewer threads"),
    ("C01", "fast1_eight_connected", "with more than one thread 8-connectivity can be set but merging the partitions does not follow it (6 x 6 image, 4 threads: a component that crosses the border diagonally falls apart)"),
    ("C01", "fast1_mask", "a mask given to extract() is ignored"),
    ("C02", "fast2_image_smaller_than_partitions", "with 32 threads an image with fewer rows or columns than partitions (3 x 2) is cut into empty partitions and out of bounds memory is used; extract() does not fall back to fewer threads"),
    ("C02", "fast2_eight_connected", "8-connectivity can be set but the flooding and merging only follow it in part: a diagonal of dark pixels does not become one region"),
    ("C02", "fast2_mask", "a mask given to extract() is ignored"),
    ("C04", "recursive_eight_connected", "8-connectivity can be set but is not followed: a diagonal of dark pixels does not become one region"),
    ("C04", "recursive_mask", "a mask given to extract() is ignored"),
    ("C07", "opencv3_image_smaller_than_3x3", "images of fewer than 3 rows or columns have no interior, and the flooding runs over its buffers"),
    ("C09", "linked_rect_mask", "a rectangle mask is ignored: memory is sized for the rectangle while the whole image is flooded, or the other way round"),
    ("C09", "linked_masked_variation", "masked pixels get gray level 256, which is stored in 8 bits as 0 in their region, so variations of regions next to masked pixels are wrong"),
]
