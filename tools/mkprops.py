#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json,os
S='boofcpp/src/boofcv/'
J='boofcpp-jni/src/main/cpp/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p("C01","Blob labels are exactly the connected components of the binary image",
 "For every 0/1 image and either connectivity rule, the label image produced by contour/blob finding gives 0 to every background pixel and gives two foreground pixels the same label exactly when they are connected under the chosen rule (4- or 8-neighbours). The labels in use are exactly 1..N, where N is the number of blobs reported, and each reported blob carries one of those ids exactly once. The label image takes the shape of the input. None of this depends on the contour size limits or on whether internal contours are saved.",
 ["inputs","configurations"],"all 0/1 images of any size (including 1-pixel-wide and empty ones) and both connectivity rules",
 "The labelling is a single-pass scan with contour tracing whose correctness depends on the topology of the whole image; the repository tests four fixed pictures, the space of topologies (nested holes, diagonal contacts, spirals, border contact) is not sampled by them.",
 [S+"contour.cpp",S+"contour.h"],[("raster scan, steps 1-3","LinearContourLabelChang2004::process/handleStep1..3"),("contour tracer","ContourTracer::trace/searchBlack/moveToNext")])
p("C02","External and internal contours trace exactly the blob's boundaries",
 "Each blob gets one external contour, made of exactly those of its pixels that touch the background surrounding it, and exactly one internal contour per hole, made of exactly those of its pixels that touch that hole (touching means sharing an edge under the 8-connect rule, an edge or a corner under the 4-connect rule). Every contour is a closed walk in which successive points, and the last and the first, are neighbours under the connectivity rule and no directed step is repeated; contour storage indices are distinct, in range and account for every stored set. With size limits, a contour of n points is kept complete when minimum <= n < maximum and is otherwise left empty with labels unchanged, and with internal contours switched off every internal contour is empty while external ones are unchanged.",
 ["inputs","configurations"],"all 0/1 images, both connectivity rules, all minimum/maximum contour sizes and the save-internal switch",
 "Contours depend on global topology (which background region is a hole) and on the interaction of marking, tracing direction and size limits; tests check a few contour counts on fixed images.",
 [S+"contour.cpp",S+"contour.h",S+"packed_sets.h"],[("tracing and marking","ContourTracer::trace/checkBlack"),("size limits","handleStep1/handleStep2, ContourTracer::add"),("contour bookkeeping","ContourPacked, PackedSet")])
p("C03","Contour finding does not depend on earlier calls and never changes its input",
 "Whatever sequence of images, image sizes, connectivity rules and size limits one finder object has processed before, processing an image gives the same labels, blobs and contours as a freshly created finder with the same settings. The input image, and every pixel outside the input and label views when they are sub-images, is unchanged, and stale contents of the label image never influence the result.",
 ["histories","inputs","configurations"],"all histories of process/configuration calls on one finder, with owned images and sub-images as input and as label output",
 "The finder caches a bordered working copy and packed point storage between calls and marks pixels in that copy; only a history of several calls with changing sizes and rules can expose leakage, and the tests use a fresh object on whole images.",
 [S+"contour.cpp",S+"contour.h"],[("cached bordered copy","LinearContourLabelChang2004::process, border"),("recycled storage","packedPoints.clear/contours.clear")])
p("C04","A packed set container behaves as a list of lists",
 "For every history of starting sets, appending to the last set, removing the last set, clearing, overwriting and reading sets, the container reports exactly the number of sets, the size of the last set and the elements that a plain list of lists would hold, whatever the block size. A copy or an assigned container holds the same sets in storage of its own, whatever the block sizes, and what happens to one later leaves the other as it was. Out-of-range reads and size-mismatched or out-of-range writes are rejected and change nothing. References to elements stay consistent with the contents as storage grows.",
 ["histories","configurations"],"all operation sequences and all block sizes >= 1, including sets that span several blocks and blocks reused after removal",
 "Correctness depends on where sets fall relative to block boundaries after an arbitrary history of growth and removal; tests use a couple of fixed block sizes and short fixed sequences.",
 [S+"packed_sets.h"],[("block arithmetic","PackedSet::_add_element/at/load_set/write_set"),("tail management","start_new_set/remove_tail/clear")])
p("C05","A growable array keeps its elements and fills new ones with the default value",
 "For every history of resizing, growing, filling, assigning, copying and element writes, the array holds the elements a plain list would hold: resizing keeps the common prefix and gives every newly exposed element the default value, filling sets every element to the value for every element type, and copies are independent of their source. Checked access outside the current size is rejected; an array that wraps caller memory never frees or reallocates it and rejects resizing without effect.",
 ["histories","inputs"],"all operation histories, all element types (8- to 64-bit integers, floats, doubles), any values and default values",
 "Stale storage only shows after shrink-then-grow histories and byte-wise filling only shows for multi-byte non-zero values; tests start from fresh zero-default arrays.",
 [S+"base_types.h"],[("storage management","GrowArray::resize/grow_array/fill/operator=/set/setTo")])
p("C06","Gray images: views share pixels, owned images own them, shapes are respected",
 "A sub-image at (x0,y0)-(x1,y1) reads and writes exactly the parent's pixels in that rectangle (also for sub-images of sub-images) and nothing else; copying into an image makes its pixels equal to the source and touches no other storage; duplicating an owned image yields an independent image while duplicating or assigning a view yields a view of the same pixels. Width, height and pixel count always report the current shape, reshaping changes only the shape (within existing capacity pixels are laid out row by row), and checked accesses or rectangles outside the bounds, shape changes of a view, and shapes with more pixels than can be indexed (32 bits), are rejected without any effect.",
 ["histories","inputs"],"all histories of create/subimage/reshape/copy/assign/read/write over any shapes, including empty ones, and pixel types",
 "Aliasing and capacity reuse only show in multi-step histories with nested views and changing shapes; tests do one step from a fresh image.",
 [S+"image_types.h"],[("view arithmetic","Gray::makeSubimage/at/index_of"),("storage reuse","Gray::reshape/copy/operator=")])
p("C07","Interleaved and planar images address every band of every pixel correctly",
 "For multi-band images, whether bands are interleaved or stored as separate planes, every (x, y, band) triple inside the shape addresses its own storage cell, so that a write is seen at that triple and nowhere else, for whole images and for interleaved sub-images. Setting one image to another makes shape, band count and all pixels of all element types equal; changing shape or band count gives an image of the requested shape; accesses outside width, height or band count are rejected without effect, as are shape or band changes of views and shapes with more samples than can be indexed (32 bits); averaging the bands into a gray image gives the (truncated, for integers) mean of the bands of every pixel.",
 ["histories","inputs"],"all histories of create/reshape/set-bands/set-to/subimage/read/write over shapes, band counts and pixel types",
 "Wrong strides, partial copies and band mix-ups depend on pixel type, band count and history; the planar tests are empty and interleaved tests are single-step.",
 [S+"image_types.h",S+"image_convert.h"],[("band addressing","Interleaved::at/index_of/makeSubimage, Planar::at/getBand"),("band and shape changes","setNumberOfBands/reshape/setTo"),("band averaging","convert_average")])
p("C08","Operations on sub-images act as on stand-alone images and stay inside the view",
 "Every image operation given sub-images as inputs and outputs produces inside the output view exactly the pixels (and returns exactly the values) it would produce on stand-alone copies of those views. It changes no pixel outside the output views, and no pixel of its inputs, for any position, stride or surrounding content of the views.",
 ["inputs","configurations"],"all operations (thresholding, blur, convolution, logic, morphology, statistics, filling, conversion, contour labelling), all view placements, strides and surrounding contents, all pixel types",
 "Index arithmetic with offset and stride is repeated in every operation; errors show only for particular placements and surrounding pixels, and tests run most operations on whole images only.",
 [S+"image_types.h",S+"convolve.h",S+"image_blur.h",S+"binary_ops.h",S+"binary_ops.cpp",S+"threshold_block_filters.h",S+"image_statistics.h",S+"image_misc_ops.h",S+"image_convert.h",S+"contour.cpp"],[("offset/stride indexing","all operations: offset + y*stride + x")])
p("C09","Convolution equals its definition at every pixel for every border rule",
 "For every image, kernel width, kernel origin and border rule (extend, reflect, wrap, constant), the horizontal, vertical and 2D convolutions give at every pixel the sum over the kernel of weight times the pixel value at the correspondingly shifted coordinate, where coordinates outside the image take the value the border rule assigns. This holds for integer and float pixels, for kernels narrower than, as wide as, or wider than the image, and the fast and the straightforward implementations agree; the divisor variants give that sum divided by the divisor (rounded by adding half the divisor for integers). The sum is formed in the type of the input and converted to the type of the output once.",
 ["inputs","configurations"],"all image shapes and values, odd and even kernel widths, all origins inside the kernel, border rules, input/output pixel types",
 "The fast path splits the image into an inner region and up to four border strips whose limits depend on width, origin and image size; tests cover a handful of sizes with default origins.",
 [S+"convolve.h",S+"image_border.h"],[("region split","ConvolveImage::horizontal/vertical/convolve"),("inner loops","ConvolveImage_Inner"),("border strips","ConvolveImage_Border"),("reference loops","ConvolveNaive")])
p("C10","Image border rules resolve every coordinate to the right pixel",
 "For every coordinate, however far outside the image, and every image size >= 1 pixel, reading through a border object gives: the pixel itself when inside; the nearest pixel for extend; the mirror image about the edge pixels, without repeating them, continued periodically for reflect; the periodic continuation for wrap; and the configured constant for constant/zero borders. Unsupported border kinds are rejected, and the border object reports the image's true width and height.",
 ["inputs"],"all coordinates, image shapes and pixel types, sub-images included",
 "Tests probe coordinates one or two pixels outside one image; the rules must hold for any distance and for images one pixel wide, where single-step folding leaves the image.",
 [S+"image_border.h"],[("coordinate folding","ImageBorderExtend/Reflect/Wrap::adjust"),("constant border","ImageBorderValue"),("factory","FactoryImageBorder::create_SB")])
p("C11","Normalised convolution weights only the part of the kernel inside the image",
 "For every image and every kernel whose weights overlapping the image have a positive sum at each pixel, normalised convolution (horizontal, vertical, and horizontal-then-vertical) gives at each pixel the weighted sum over in-image pixels divided by the sum of those weights, rounded by adding half the weight sum before an integer division for integer pixels. This holds for any kernel width and origin, including kernels as wide as or wider than the image, and for weights of any size.",
 ["inputs","configurations"],"all image shapes and values, kernel widths, origins, weights and pixel types",
 "Three different code paths (inner, border strips, kernel not smaller than image) must agree; tests use fixed sizes and small uniform weights.",
 [S+"convolve.h"],[("naive path","ConvolveNormalizedNaive"),("border strips","ConvolveNormalized_JustBorder"),("dispatch","ConvolveNormalized")])
p("C12","Mean and Gaussian blur average the in-image neighbourhood",
 "Mean blur with radius r gives each pixel the average of the image pixels within r columns, then within r rows, of it, using only pixels inside the image (each pass rounded half up for non-negative integers); Gaussian blur gives the separable weighted average with the documented Gaussian weights, renormalised over in-image pixels. This holds for every image shape (also images millions of columns wide) and every radius or width, including radii larger than either image side; a constant image of non-negative or real values is unchanged, radius zero is rejected, the output takes the input's shape and the input is unchanged.",
 ["inputs","configurations"],"all image shapes (wide, tall, tiny), values, radii, widths, sigmas and pixel types",
 "Running sums drift and path selection depends on both image sides and radius; tests use one or two radii on near-square images.",
 [S+"image_blur.h",S+"convolve.h",S+"convolve_kernels.h"],[("running sums","ConvolveImageMean::inner_horizontal/inner_vertical"),("path selection","ConvolveImageMean::horizontal/vertical"),("gaussian","BlurImageOps::gaussian")])
p("C13","Global and local-mean thresholds follow their definition at every pixel",
 "Thresholding down sets exactly the pixels with value <= threshold to 1 and all others to 0; thresholding up gives the exact complement; an 8-bit image may be its own output. The local-mean threshold compares each pixel with the mean of its square neighbourhood (region width resolved against the smaller image side, clipped at the image edge): down gives 1 exactly when value <= mean*scale, up exactly when value*scale > mean. Filter objects give the same result as the direct functions on every call, with outputs resized to the input's shape.",
 ["inputs","histories"],"all images, thresholds (including extreme values), scales, region widths, pixel types and call sequences on one filter object",
 "Off-by-one comparisons and stale intermediate images show only at ties or after shape changes; the local-mean test is empty and the fixed threshold test uses one picture.",
 [S+"binary_ops.h"],[("comparison loops","ThresholdOps::threshold/localMean"),("filters","GlobalFixedBinaryFilter, LocalMeanBinaryFilter")])
p("C14","Otsu's threshold maximises between-class variance",
 "For every image and value range, the global Otsu threshold is a pixel value that splits the pixels into <= and > classes with the maximum possible between-class variance, and it shifts by the same amount when all pixel values and the range are shifted; an image with a single value gives the bottom of the range. The alternative variant gives the midpoint of the two class means of such a split, rounded to nearest. Filtering with Otsu equals thresholding at that value, and the low-texture penalty and scale adjust the value as documented: moved down (up) by round(tuning^2*t^2/variance) for down (up) and then scaled and rounded.",
 ["inputs","configurations"],"all images, histograms and ranges (with any minimum value), both variants, tuning, scale and direction",
 "Optimality is a statement about all candidate splits; the Otsu tests are empty or compare one histogram, and only zero-based ranges are used.",
 [S+"binary_ops.cpp",S+"binary_ops.h",S+"image_statistics.h"],[("scan","ComputeOtsu::computeOtsu/computeOtsu2/compute"),("histogram","ImageStatistics::histogram, ThresholdOps::computeOtsu")])
p("C15","Block thresholds use the local block statistics for every pixel",
 "The block filters partition the image into blocks of adjusted size that cover every pixel once, the last row and column absorbing the remainder, and classify each pixel using only statistics of its block, or of the blocks of the surrounding 3x3 neighbourhood clipped at the image edge when that option is on: the mean of scaled block means (each limited to the range of the pixel type), Otsu on the combined histogram, or the scaled mid-range of the combined minimum and maximum with blocks whose spread does not exceed the configured minimum set to 1 (a minimum of -1 or below disables this). Up is the complement of down for textured blocks. Repeated use of one filter on images of different shapes gives the same results as a fresh filter; images smaller than the block or outputs of another shape are rejected.",
 ["inputs","configurations","histories"],"all image and block sizes, contents, options, pixel types and call sequences on one filter",
 "Block layout depends on remainders of image size by block size in each axis and on neighbour clipping; tests compare only two options on one image size and never check which block a pixel used.",
 [S+"threshold_block_filters.h",S+"binary_ops.cpp"],[("layout","ThresholdBlockCommon::process/selectBlockSize/computeStatistics"),("mean","ThresholdBlockMean"),("otsu","ThresholdBlockOtsu"),("min-max","ThresholdBlockMinMax")])
p("C16","Binary logic and morphology match their definition on every pixel",
 "For every pair of binary images of equal shape, the and/or operations give at each pixel the logical and/or of the inputs, also when the output is one of the inputs; images of different shape are rejected with the output unchanged. Erosion gives 1 exactly where a pixel and all four of its neighbours are 1, dilation exactly where a pixel or any of its four neighbours is 1, pixels outside the image counting as 0; the whole output image is determined by the input for every shape, including empty and one-pixel-wide images.",
 ["inputs"],"all binary images of all shapes, including aliasing of output with input for the logic operations and arbitrary previous output contents",
 "Edge pixels and degenerate shapes depend on loop limits; the tests look only at the centre pixel of 3x3 images.",
 [S+"binary_ops.cpp",S+"binary_ops.h",S+"sanity_checks.cpp"],[("logic","BinaryImageOps::logicAnd/logicOr"),("morphology","BinaryImageOps::erode4/dilate4"),("shape check","checkSameShape")])
p("C17","Statistics and fills cover exactly the image's pixels",
 "Minimum, maximum, sum, mean and histogram are those of exactly the pixels of the image for every pixel type, including all-negative images, and do not modify it. Filling sets every pixel (every band), border filling sets exactly the pixels within the given distance of an edge (all pixels if the distance reaches the image size), and random filling gives values inside the requested range; none of them changes anything outside the image.",
 ["inputs"],"all shapes, values and pixel types, owned images whose storage is larger than the image, and sub-images",
 "Wrong extent or wrong initial extremum only shows for views, reshaped images or negative values; tests use whole non-negative images.",
 [S+"image_statistics.h",S+"image_misc_ops.h"],[("extrema and sums","ImageStatistics"),("fills","ImageMiscOps::fill/fill_border/fill_uniform")])
p("C18","The Java bridge hands every array back and runs the operation on its contents",
 "For every native image operation called from Java (thresholds, blurs, convolutions, contours), on success, when the operation rejects its arguments and when native memory runs out at any point, each Java array obtained by the bridge is released exactly once with the pointer it was obtained with, and no other Java call is made while arrays are held in a critical section. Outputs are committed and equal what the C++ operation gives on the same pixels, offset, stride, kernel, flags and parameters; the contents of input arrays, and output pixels outside the view, are unchanged. After a call which ran out of memory the handle works as before, no handle exists if there was no memory for it, and no memory is left behind once it is destroyed.",
 ["histories","inputs","fault_sequences"],"all native entry points, integer and float images, whole images and sub-images, all parameters, succeeding and rejected calls, every request for memory refused",
 "No test loads the bridge; missing releases and wrong commit modes are invisible unless the virtual machine copies arrays, and error paths need failing calls.",
 [J+"JNIBoofCPP.cpp",J+"JNIBoofCPP.h",J+"NativeGlobalFixed.cpp",J+"NativeGlobalOtsu.cpp",J+"NativeLocalMean.cpp",J+"NativeBlockMean.cpp",J+"NativeBlockMinMax.cpp",J+"NativeBlockOtsu.cpp",J+"NativeImageBlurOps.cpp",J+"NativeImageConvolve.cpp",J+"NativeImageConvolveNormalized.cpp",J+"NativeChang2004.cpp"],[("acquire/release","GetPrimitiveArrayCritical/ReleasePrimitiveArrayCritical pairs"),("parameter mapping","nativeinit/nativeprocess, borderJavaToCpp, extractKernel*")])
p("C19","Native contour and filter handles keep their settings and transfer all results",
 "A contour finder created from Java starts with 4-connectivity, no minimum and the largest Java int as maximum, and after any history of setting and reading minimum size, maximum size, save-internal flag and connect rule the getters return the last value set and processing uses those settings. After processing, every blob is reported to Java exactly once, in order, with its id, external contour index and internal contour indices, and the packed point storage on the Java side holds exactly the native contours. Handles are created with the requested parameters, and destroying one frees it once and clears the contour handle.",
 ["histories","inputs"],"all histories of init/configure/process/destroy over several live handles and images",
 "Needs a history of calls across the bridge with a Java-side peer; nothing in the test suite calls it.",
 [J+"NativeChang2004.cpp",J+"JNIBoofCPP.cpp",J+"JNIBoofCPP.h"],[("settings","setMinContour/getMinContour/... natives"),("result transfer","native_process, copy_into_java, WrapJGrowQueue_I32"),("lifecycle","native_init/native_destroy")])
p("C20","Convolution kernels have the documented weights",
 "Table kernels are all ones; mean kernels of floating type have equal weights adding to one. Gaussian kernels of floating type, 1D and 2D, are proportional to the Gaussian of the given sigma centred on the kernel, symmetric, and add up to one; width is derived from sigma when not positive and sigma from the radius when not positive, by the documented formulas; integer Gaussian kernels are the float weights divided by the larger of the smallest weight and 1/100 of the largest, truncated. Kernel containers keep width, origin and weights through construction, reshaping and copying, reject an origin outside the kernel at construction, and report correct sum, minimum, maximum and absolute extremes.",
 ["inputs","histories"],"all widths (odd and even), sigmas, element types and kernel histories",
 "Formulas must hold for every width/sigma pair and both parities; tests check a few fixed kernels.",
 [S+"convolve_kernels.h"],[("factories","FactoryKernel::table1D/mean1D/gaussian1D/gaussian2D/normalize/float_to_int"),("containers","Kernel1D/Kernel2D/KernelBase")])
p("C21","Relative and fixed lengths resolve as documented",
 "A fixed length resolves to itself whatever the total; a relative length (non-negative fraction) resolves to fraction*total but never below its minimum length. The integer forms round non-negative lengths half up, a negative resolved length gives -1 from the integer form, exactly one of the relative and fixed predicates holds, and a configuration is rejected as invalid exactly when both length and fraction are negative.",
 ["inputs"],"all lengths, fractions and totals",
 "Boundary behaviour (zero fraction, minimum dominating, halves, negatives) is a statement over all number triples; tests check a few.",
 [S+"config_types.cpp",S+"config_types.h"],[("resolution","ConfigLength::compute/computeI/getLengthI"),("validity","ConfigLength::checkValidity")])
p("C22","Calls running in several threads give what each gives on its own",
 "Different threads may use the library at the same time as long as no call writes an object which another running call uses: each thread has its own outputs, work images, finders, filters and containers, while input images (also overlapping views of one image), kernels, border objects, histograms and containers which are only read may be shared. Whatever the interleaving of such calls, each returns and writes exactly what it would if it ran alone, and no call writes, even for a moment, into memory which another call may be using: there is no hidden shared state in convolution, blurs, thresholds and their filters, contour finding, binary operations, statistics, conversions, kernel creation, random fills and containers. The same holds of the native methods called from several Java threads, each with its own environment, Java objects and handles.",
 ["schedules","inputs"],"all interleavings of calls with separate outputs in any number of threads, over shared read-only inputs, and all inputs of these calls",
 "The tests run in a single thread. A work array or cache made static or mutable, or an input changed for a moment and put back, leaves every single-threaded result as it was and only shows under a particular interleaving of two calls.",
 [S+"convolve.h",S+"image_blur.h",S+"contour.cpp",S+"binary_ops.cpp",S+"threshold_block_filters.h",S+"convolve_kernels.h",S+"image_border.h",S+"packed_sets.h",J+"JNIBoofCPP.cpp",J+"NativeChang2004.cpp"],[("work arrays of running sums","ConvolveImageMean::vertical, BlurImageOps"),("state of filters and finders","ThresholdBlock, LinearContourLabelChang2004"),("shared inputs","ImageBorder::get, KernelBase, Gray views"),("native helpers","extractInfo*/extractConfig*, wraps of Java images")])
p("C23","A call which runs out of memory fails cleanly; all memory is given back once",
 "When memory runs out at any point of a library call (creating, reshaping, copying and assigning images of all layouts, arrays, kernels and packed sets, changing band counts, and every image operation, filter and contour search) the call fails with std::bad_alloc, or gives its usual result. What it only reads is unchanged, and every object it works on stays sound: it holds all the elements which the shape or size it reports promises, can be used again (the next call which gets the memory it asks for gives what it gives on fresh objects) and can be destroyed. Once the objects are destroyed, everything a call has asked for has been given back exactly once, also after calls which succeeded or were rejected and when an owning image becomes a view of another one.",
 ["fault_sequences","histories"],"every allocation of every call failing, alone and in histories of several calls, over all inputs",
 "No test lets an allocation fail. Memory given back before its replacement is there, a shape changed before the storage, or what was already acquired being forgotten all leave every run with enough memory as it was.",
 [S+"image_types.h",S+"base_types.h",S+"packed_sets.h",S+"convolve_kernels.h",S+"contour.cpp",S+"image_blur.h",S+"threshold_block_filters.h"],[("storage replaced when growing","Gray::reshape, Interleaved::reshape/setNumberOfBands, GrowArray::grow_array/resize"),("several blocks in one call","Planar::Planar/reshape/setNumberOfBands, PackedSet::_add_element"),("shape after storage","Kernel1D/Kernel2D::reshape/operator="),("ownership","Gray/Interleaved::operator=, destructors")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
