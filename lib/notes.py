"""technique and level note per property (used by tools/mkmanifest.py)"""
T = "model-based verification: TLA+ specification checked with TLC; "
NOTES = {
    "C04": (T + "storage mechanism refines the list-of-lists spec (exhaustive), TLC-generated operation histories replayed into PackedSet, "
            "recorded histories validated against the spec",
            "exhaustive for the mechanism model up to 4-5 elements, 3 sets, block sizes 1-3; all histories of 6-7 operations (sampled when replayed) "
            "and random/long histories with up to 9000 elements on the real container; not a proof for unbounded histories"),
    "C05": (T + "capacity mechanism refines the plain-list spec (exhaustive), TLC-generated histories replayed into GrowArray of 8 element types, "
            "recorded histories validated against the spec",
            "exhaustive for the mechanism model with capacity 2-3; all histories of 3-4 operations on two arrays (sampled when replayed) and random "
            "histories on the real class"),
    "C06": (T + "window/ownership model (exhaustive), TLC-generated histories of view/reshape/copy/assign/duplicate/write replayed into Gray "
            "of 7 pixel types, recorded histories validated against the spec",
            "exhaustive model for root images up to 2x2 with nested views; all histories of 3-4 operations on two images (sampled when replayed) and "
            "random histories on five images with caller memory as canary; AddressSanitizer on"),
    "C07": (T + "band addressing model (exhaustive), TLC-generated histories replayed into Interleaved, random histories of Interleaved and "
            "Planar validated against the spec",
            "all histories of 3-4 operations with 2 bands (sampled) and random histories with 0-4 bands of 7 pixel types; band averages exact for "
            "8/16 bit and float pixels"),
    "C01": (T + "single-pass algorithm model and component/root lemmas (exhaustive), recorded label images of the real finder validated against "
            "the component definition through checked certificates",
            "all images of at most 9 pixels (thorough: 16) under both rules, random structured images up to 14x14 and large ones up to 130x130"),
    "C02": (T + "algorithm model (exhaustive), recorded contours of the real finder validated against boundary/hole/closed-walk specification, "
            "size limits against the complete contours",
            "all images of at most 9 pixels (thorough: 15) under both rules with limits around contour lengths, random structured images and large "
            "ones with contours of several thousand points (several storage blocks)"),
    "C03": (T + "two-round algorithm model with the cached bordered copy (exhaustive), TLC-generated histories replayed into one finder and random "
            "histories, all validated against the spec with canary memory around views",
            "all histories of 3-4 steps over 5 shapes (sampled) and random histories of up to 10 images of up to 60x60"),
    "C13": (T + "per-pixel threshold rules and window means specified, decision model explored exhaustively, recorded thresholding of every pixel "
            "type validated against the spec",
            "every value/threshold pair of small ranges exhaustively in the model; on the real code all images of at most a few pixels and random "
            "images, views and radii for 7 pixel types, with canary memory around views"),
    "C14": (T + "Otsu search specified as a maximisation over all splits, scan mechanism model checked against it, recorded thresholds of random and "
            "exhaustive small histograms/images validated against the spec",
            "all histograms with 4-5 bins and small counts in the model; all small histograms and random ones up to 256 bins on the real code; "
            "ties are accepted within a relative tolerance of 1e-6"),
    "C15": (T + "block layout and local block statistics specified, layout model checked exhaustively (each pixel in exactly one block, neighbours "
            "clamped), recorded block thresholds validated against the spec",
            "all layouts up to 12 pixels per side in the model; random images/views of 7 pixel types with all block widths, scales, directions and "
            "local/global modes; float statistics with a tolerance, pixels whose decision is inside the tolerance are not judged"),
    "C16": (T + "pixelwise logic and morphology definition and algorithm model (inner + border strips) checked exhaustively, recorded results of "
            "the real functions validated against the spec",
            "all binary images up to 3x4 (thorough 4x4) for every operation and random ones up to 40x40 incl. views and pre-shaped outputs"),
    "C17": (T + "fold definitions of the statistics and fills specified, row-walk model checked exhaustively, recorded statistics and fills of the "
            "real functions validated against the spec",
            "all windows of small roots in the model; all small images and random images, views and borders of 7 pixel types on the real code"),
    "C09": (T + "convolution sums specified through the border rules, region model (inner part and strips write every pixel once) checked "
            "exhaustively, recorded convolutions of the real fast, straightforward and inner-only functions validated against the spec",
            "all shapes up to 9x9 and kernels in the region model; random images, views, kernels (odd, even, any origin, wider than the image), 20 "
            "pixel type pairs on the real code, exact comparison at every pixel"),
    "C10": (T + "border rules specified as step laws of a walking reader (exhaustive), recorded reads of the real border objects validated "
            "against the spec",
            "all coordinates within twice the image size for all shapes up to 6x6 (thorough 9x9), random images, views and coordinates up to the 32 "
            "bit limits, all pixel types"),
    "C11": (T + "normalised sums specified, tap model of the border strips checked exhaustively, recorded normalised convolutions validated "
            "against the spec",
            "all line lengths up to 7 (thorough 12) with all kernels in the tap model; random images, views, kernels and origins of 7 pixel types on "
            "the real code; integers exact, reals within 1/512"),
    "C12": (T + "two-pass window means and normalised Gaussian sums specified, running-sum model checked exhaustively, recorded blurs and the "
            "Gaussian kernels they use validated against the spec",
            "all lines up to 6 (thorough 9) pixels in the running-sum model; random images, views, radii, widths and sigmas of 7 pixel types on the "
            "real code; non-negative integers exact, reals within a small tolerance"),
    "C20": (T + "kernel containers specified as weight lists (TLC-generated histories replayed, random histories validated); Gaussian weights "
            "specified by exact integer geometry and logarithms, model of symmetry and default formulas checked exhaustively",
            "all histories of 2-3 operations on two kernels, random histories on four; weights of widths up to 45 (1D) and 11 (2D), all sigmas in "
            "eighths up to 9, logarithms to 4e-5; integer kernels to one unit exactly except within 4e-5 of a step"),
    "C21": (T + "length resolution specified in exact integers, its lemmas (bounds, monotone, nearest) checked exhaustively, recorded results of "
            "all small and random configurations validated against the spec",
            "all lengths/fractions/totals on a grid of quarters and 64ths in model and code, random ones up to millions"),
    "C22": (T + "interleaved calls over a shared memory specified (each gives what it gives alone, what is shared stays) and checked exhaustively on a model with work cells; "
            "TLC-generated schedules are forced on real calls, which stop in the library's callbacks, and free running threads are recorded under the race detector; "
            "both logs validated against the spec",
            "model: 2-3 calls of 2-3 steps; code: every schedule of 2 threads x 5 (7) and 3 x 3 (4) stops sampled, up to 4 free threads x 12 calls of 24 operations, 5 pixel types; the same schedules on native calls (stops at every call into Java) and free Java threads"),
    "C23": (T + "storage of images, planar images and packed sets modelled request by request, each of which may be refused (exhaustive; designs with three "
            "known flaws are refuted); TLC-generated histories of calls given or refused memory are replayed, and every request of every call is refused "
            "once on the real code; the logs (result, soundness, inputs, what is left) validated against the spec",
            "model: 2 gray images, up to 3 bands, 4 blocks; code: 38 operations (all of C22's and creation, reshaping, copying and assignment of every object) of 5 pixel "
            "types, every request up to 16 (60) per call, histories of 4-5 calls; native methods not included"),
    "C08": (T + "window walk model (exhaustive placements), TLC-generated placements and random ones driven through 40 operations, each recorded "
            "on views in canary memory and on stand-alone images and validated against the spec",
            "all placements of windows up to 3x3 (sampled when replayed) with every operation, random placements up to 26x26, 7 pixel types; "
            "storage images are placed in canary memory too"),
    "C18": (T + "acquire/release protocol and memory model of copied or pinned arrays checked exhaustively, recorded calls of all natives under a "
            "recording virtual machine validated against the protocol, the parameter mapping and the direct C++ result",
            "all orders, shared arrays and failure points in the model; random images, sub-images in shared arrays, kernels and parameters of all "
            "natives, succeeding, rejected and with each request for memory refused once, with copied and pinned arrays"),
    "C19": (T + "handle mechanism (reused addresses, destroying twice) refines independent settings, result transfer model, both exhaustive; "
            "TLC-generated histories of two handles replayed and random histories of five validated",
            "all histories of 5 (thorough 6) operations on two handles (sampled when replayed); random histories of contour finders and all "
            "thresholds, images large enough for several blocks of points"),
}
