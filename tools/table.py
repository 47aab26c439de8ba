TB = "Trusts rustc's front end (type checking, monomorphisation, MIR construction), the engine in /verif/engine and its models of the functions without a body (rayon, allocator, vector intrinsics). x86-64 code paths of the default and of the full nightly feature set; NEON and WASM code is not compiled on this machine and not covered."
NB = "the analysis that would decide it is not built yet"

P("C01", "Vector code runs only on CPUs whose support for it was detected",
  "Whatever CPU the library runs on, code that needs an optional instruction-set extension is executed only after the library detected at run time that the CPU has that very extension. On a CPU lacking an extension the library takes a path that does not use it, so no resize can hit an illegal instruction.",
  ["configurations", "inputs", "programs"], "every CPU feature combination, every pixel format, filter, workload strategy, threading policy and image geometry, and both feature sets of the crate",
  "Tests run on one machine that has every extension, so a kernel behind the wrong detection always works there.",
  ["src/plane_u8.rs", "src/rgba_u8.rs", "src/dispatch_group_u8.rs", "src/dispatch_group_u16.rs", "src/handler_provider.rs", "src/image_store.rs", "src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/alpha_handle_f32.rs"],
  [("run-time detection guarding the choice of kernel", "is_x86_feature_detected! in the dispatchers of every pixel format"), ("kernels compiled for one extension", "#[target_feature] functions in src/sse, src/avx2, src/avx512")],
  claim=("interprocedural flow analysis of feature facts over monomorphic MIR", "proof",
    "Every call of a target-feature function and every vector intrinsic reachable from the public API is an obligation, discharged only when the needed features are implied on all paths to it (branch facts, boolean dataflow through locals, fields, captures, parameters and returns, function pointers). " + TB))

P("C02", "Parallel work stays inside the pool the threading policy asks for",
  "Under the single-thread policy no operation uses another thread. Under the other policies parallel work runs only inside the pool created for that very call, never on the process-wide pool, and only with operations whose result cannot depend on scheduling. The library starts no threads of its own and keeps no pool between calls.",
  ["configurations", "schedules", "inputs"], "every pixel format, threading policy, bit depth, image geometry and interleaving",
  "Tests compare pixels, which are the same whichever thread computes them, and sample one schedule of one geometry.",
  ["src/threading_policy.rs", "src/dispatch_group_u8.rs", "src/dispatch_group_u16.rs", "src/dispatch_group_f32.rs", "src/dispatch_group_ar30.rs", "src/nearest_sampler.rs", "src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/alpha_handle_f32.rs"],
  [("pool created per call from the policy", "src/threading_policy.rs"), ("parallel iteration inside install, sequential twin otherwise", "pool.install(..) in every dispatcher")],
  claim=("interprocedural execution-context analysis over monomorphic MIR, with abstract interpretation of the drivers under the single-thread policy", "proof",
    "Every parallel-iterator call site is an obligation: it must be reachable only through a closure handed to a pool's install and be on the list of scheduling-independent operations; no static holds a pool; under the single-thread policy the drivers hand no pool to any step. " + TB))

P("C03", "Results depend only on the arguments of the call",
  "A call's outcome and output pixels are a function of its arguments alone. Nothing is remembered between calls, and neither the environment, the clock, files, other threads, randomised hashing, uninitialised memory nor the addresses of objects can influence a result.",
  ["histories", "schedules", "programs"], "every sequence of calls in one process, any number of threads calling concurrently",
  "Unit tests call an operation once from a fresh state; hidden state shows only in particular histories or interleavings.",
  ["src/lib.rs", "src/scaler.rs", "src/image_store.rs", "src/threading_policy.rs", "src/alpha_handle_u8.rs"],
  [("no mutable statics, locks or caches", "whole crate"), ("machine parallelism read only to size a pool", "src/threading_policy.rs")],
  claim=("effect analysis: reachable statics, thread-locals and external calls", "proof",
    "Every static reachable from the API must be immutable and free of interior mutability, and every call leaving the analysed code must not observe or change process state. " + TB))

KRN = "Drivers, filter passes, alpha steps, nearest sampler, weight generation and every row handler (SSE, AVX2, AVX-512, portable) are interpreted abstractly from their MIR with symbolic sizes, strides, lengths, filter windows and bit depths, each under the contract that every caller is checked to keep; no input is sampled. "

P("C04", "No image geometry makes the library touch memory outside its buffers",
  "For every pair of images the library accepts, of any width, height, row stride, buffer length, pixel format and filter, every memory access stays inside the source, destination or temporary buffer it is meant for. Safe callers can never cause undefined behaviour.",
  ["inputs", "configurations"], "all image sizes, strides, buffer lengths, pixel formats, filters, bit depths, policies and CPU features",
  "Unchecked vector loads and stores are only exercised by a few sizes; the dangerous ones are remainders of unusual widths and padded rows.",
  ["src/scaler.rs", "src/filter_weights.rs", "src/sse", "src/avx2", "src/avx512", "src/nearest_sampler.rs", "src/image_store.rs"],
  [("sizes checked before pixels are touched", "src/image_store.rs validate and src/scaler.rs"), ("loop bounds and remainders of each kernel", "src/sse, src/avx2, src/avx512")], claim=("abstract interpretation of MIR over linear constraints on symbolic sizes, with checked contracts between drivers, passes and row handlers", "proof",
    KRN + "Every load, store, vector access, unchecked slice and pointer offset is an obligation: it must stay inside the allocation or slice its pointer comes from. " + TB))

P("C05", "Row strides are honoured and row padding is never written",
  "Pixel (x, y) of an image is always read from or written to row y at the image's own row stride. Bytes of a destination row beyond its last pixel are never changed by any operation.",
  ["inputs", "configurations"], "all strides at least as large as a row, for source and destination independently, all operations",
  "Nearly all tests use tightly packed images.",
  ["src/scaler.rs", "src/nearest_sampler.rs", "src/image_store.rs", "src/colors", "src/dispatch_group_u8.rs"],
  [("stride() of each store used for row addressing", "dispatchers and kernels")], claim=("abstract interpretation of MIR: row addresses and destination writes expressed in rows and columns of symbolic strides", "proof",
    KRN + "Every write to a destination image must fall into the pixels of a row at the stride of that image, and every call of a row handler must hand it the same rows of source and destination at their own strides. " + TB))

DRV = "Every public operation is an abstract-interpretation root: the drivers, the dispatch and the containers are executed over symbolic sizes, strides, buffer lengths, depths and options (linear arithmetic over polynomials), with the kernels, the weight generation, the alpha kernels and the row loops of the dispatchers as recorded events. What those events do inside is not part of this check. "

P("C06", "Rejected requests return an error and leave the destination untouched",
  "Every resize request that cannot be served (an image with a zero dimension, a buffer whose length differs from what its stride and height say, a stride smaller than a row, an unsupported bit depth in an operation that depends on it, sizes whose arithmetic would overflow) returns the matching error, and ordinary valid requests are accepted. A call that returns an error has not changed any destination sample.",
  ["inputs", "histories"], "all invalid combinations of sizes, strides, buffer lengths and bit depths, and every public resize operation",
  "Tests only try valid images.",
  ["src/scaler.rs", "src/image_store.rs", "src/support.rs", "src/resize_ar30.rs", "src/pic_scale_error.rs", "src/colors"],
  [("validation ahead of any work", "generic_resize in src/scaler.rs, resize_ar30_impl in src/resize_ar30.rs, every scaler in src/colors"), ("geometry of a container", "validate in src/image_store.rs")],
  claim=("path-sensitive abstract interpretation of the drivers over symbolic geometry (typestate: untouched until accepted)", "proof",
    DRV + "Obligations: for each kind of invalid request, every feasible return is an error of the matching kind; every return with an error has no write event into the destination on its path; each operation has a successful return for ordinary valid requests, and none of its returns for them is an error. " + TB))

P("C07", "Resizing to the same size is an exact copy",
  "When source and destination have the same width and height every destination sample equals the source sample at the same position, whatever filter, workload, threading policy, strides or alpha option is used.",
  ["inputs", "configurations"], "all pixel values, formats, strides and options",
  "Tests check a few resizes between different sizes.",
  ["src/scaler.rs", "src/image_store.rs", "src/resize_ar30.rs", "src/colors"],
  [("early return copying rows", "src/scaler.rs, src/resize_ar30.rs, src/colors"), ("row-wise copy honouring both strides", "copied_to_mut in src/image_store.rs")],
  claim=("path-sensitive abstract interpretation of the drivers over symbolic geometry, restricted to equal sizes", "proof",
    DRV + "Obligations: with equal sizes every successful return has exactly one event that writes the destination, the row-wise copy of the whole source, and the copy routine itself moves row y of the source to row y of the destination, whole rows, at each image's own stride. " + TB))

P("C08", "Alpha is unpremultiplied exactly when it was premultiplied",
  "When an operation is asked to handle alpha, the colours are multiplied by alpha before the first filter pass and divided by it after the last one, both or neither, on every path; they are left alone only where the library's own test of the source image says that it needs no alpha handling. Both steps work on the image being resized with its own bit depth, and reach every pixel of it: each colour is made from itself and the alpha of its own pixel, and alpha itself is kept. Without the request, and for formats without alpha, neither step is done.",
  ["inputs", "configurations"], "all alpha contents, formats with and without alpha, resize directions, threading policies and options",
  "Tests use mostly opaque images where both steps are the identity.",
  ["src/scaler.rs", "src/image_store.rs", "src/colors", "src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/alpha_handle_f32.rs", "src/avx2", "src/sse"],
  [("alpha workflow", "generic_resize_with_alpha in src/scaler.rs"), ("hand-over to the alpha kernels", "AssociateAlpha and UnassociateAlpha in src/image_store.rs"), ("the alpha kernels", "src/alpha_handle_*.rs and alpha_*.rs in src/avx2 and src/sse")],
  claim=("path-sensitive abstract interpretation of the drivers (typestate of the image being resized: straight or premultiplied) and of the alpha kernels (which samples each stored sample is made from)", "proof",
    DRV + "Obligations on every successful return of every operation: premultiplication and unpremultiplication are paired, in order around the filter passes, on the right images, over all of their pixels, at the same bit depth, exactly when requested. In the alpha kernels every store of a sample is examined, vector intrinsics included: a colour depends on itself and the alpha of its pixel and on nothing else, alpha is stored as it was read, and all pixels are stored. Stores the analysis loses (counted in the evidence; only in AVX-512 kernels on this tree) are not alarms. The arithmetic of the alpha kernels and the exactness of the opacity test are not decided. " + TB))

P("C17", "A resize is exactly one filter pass per changed dimension",
  "A resize between different sizes filters each dimension that changes exactly once, horizontally for the width and vertically for the height, with weights generated by the requested filter for exactly that pair of sizes, and leaves a dimension that does not change alone. Each pass takes all of the image the previous step left and the last one fills the caller's destination; nothing else touches the destination. The nearest filter uses the nearest sampler over the full image instead. The destination keeps the bit depth of the request.",
  ["inputs", "configurations"], "all pairs of sizes, filters, formats, bit depths, strides, threading policies and workload strategies, and every public resize operation",
  "Tests try a handful of sizes, most of them changing both dimensions with tightly packed images; a swapped size, a skipped pass or a temporary of the wrong height hides in the other combinations.",
  ["src/scaler.rs", "src/image_store.rs", "src/resize_ar30.rs", "src/nearest_sampler.rs"],
  [("pipeline of passes and temporaries", "generic_resize and generic_resize_with_alpha in src/scaler.rs, resize_ar30_impl in src/resize_ar30.rs"), ("weights of a pass", "generate_weights in src/scaler.rs")],
  claim=("path-sensitive abstract interpretation of the drivers over symbolic geometry (dataflow between passes)", "proof",
    DRV + "Obligations on every successful return for every ordering of the four sizes: which passes ran, on which images, with which weights, sizes, strides, lengths and depth, and that each result is what the next step reads. " + TB))

P("C09", "Every output sample combines the right source samples of its own channel",
  "An output sample of a filter pass over planar or interleaved images is the sum over the filter window of weight k times the source sample k steps after the window start, of the same channel and of the same row or column; every k below the size of the window takes part once and no other sample contributes. Each row is filtered with the source rows, the window and the weights that belong to it. This holds in every vector width, remainder and row group. (The packed 10-bit formats are not meant here.)",
  ["inputs", "configurations"], "all positions, widths, windows, channel counts and CPU features",
  "Images in tests have little contrast between neighbouring pixels and channels, and tolerances hide a swapped tap.",
  ["src/sse", "src/avx2", "src/avx512", "src/convolve_naive_f32.rs", "src/handler_provider.rs", "src/dispatch_group_u8.rs", "src/dispatch_group_u16.rs", "src/dispatch_group_f32.rs", "src/dispatch_group_f16.rs"],
  [("convolution kernels", "src/sse, src/avx2, src/avx512 and portable code"), ("row loops of the passes", "src/dispatch_group_*.rs")],
  claim=("lane-level value-flow analysis of MIR: abstract interpretation with symbolic tap series per vector lane", "proof",
    KRN + "In the row handlers every vector lane and scalar is a constant, a source sample (byte offset), a weight (offset), or a sum of products given by the offset of its tap 0 and by arithmetic progressions of taps; shuffles, unpacks, casts, multiplies, horizontal adds and loops are followed exactly. At every store into the destination the place, the source offset, the row and the exact cover of [0, size) by the taps are obligations; in the passes, the rows, window and weights each handler is given. Stores whose value is lost (portable half-float passes) are counted and bounded by floors; 106 of 106 default and 142 of 154 full-feature handlers are followed to every sample. Arithmetic is taken as exact: widths, rounding and clamping are not judged. " + TB))

P("C10", "Samples of limited bit depth never exceed their range",
  "Every sample a resize writes into a 16-bit image of bit depth d is at most 2 to the power d minus 1, whatever the filter overshoots, if the samples of the source are: each value is clamped on both sides to the range of the destination's own bit depth after it has been computed, in every vector width, remainder and row group, and when colours are divided by their alpha. (Packed 10-bit formats and conversions to other colour spaces are not meant here.)",
  ["inputs", "configurations"], "all pixel values, bit depths, widths, filters with overshoot and CPU features",
  "Overshoot needs particular edges, filters and depths below 16, and a wrapped or oversized sample in one remainder column goes unnoticed.",
  ["src/dispatch_group_u16.rs", "src/sse", "src/avx2", "src/avx512", "src/saturate_narrow.rs", "src/mixed_storage.rs", "src/alpha_handle_u16.rs"],
  [("clamp to the bit depth", "u16 row handlers, SaturateNarrow, MixedStorage"), ("division by alpha", "src/alpha_handle_u16.rs, src/sse/alpha_u16.rs, src/avx2/alpha_u16.rs")],
  claim=("range analysis by abstract interpretation of MIR: clamp facts per scalar and vector lane", "proof",
    KRN + "In every u16 row handler with a bit depth and in the u16 alpha division, each scalar and vector lane carries two facts: not negative, not above 2^depth - 1; computations drop them, clamps, unsigned minima and saturating conversions establish them, moves keep them; 16-bit signed minima count only where the pass hands over at most 12 bits. Every sample stored must carry both, and each pass must hand over the depth of its destination. Assumed: source samples in range, overshoot below 8 times the range, no 32-bit overflow. " + TB))

P("C11", "The source image is never modified",
  "No resize operation writes to the buffer of its source image.",
  ["inputs", "configurations"], "all operations and inputs",
  "Tests do not compare the source afterwards, and unsafe pointer casts escape the type system.",
  ["src/scaler.rs", "src/image_store.rs"],
  [("shared borrow of the source; premultiplication into a temporary", "src/scaler.rs")], claim=("write-capability flow analysis over monomorphic MIR", "proof",
    "Every cast, transmute, union and foreign call in reachable library code is an obligation: none may create write access out of a value that grants none, so memory behind the shared reference to the source cannot be written. " + TB))

P("C12", "Every destination sample is written",
  "A resize that returns success has assigned every sample of every pixel of the destination image; no sample keeps its previous content.",
  ["inputs", "configurations"], "all sizes, formats, directions, policies and CPU features",
  "Tests start from zeroed destinations and few sizes; forgotten rows or remainder columns hide there.",
  ["src/dispatch_group_u8.rs", "src/dispatch_group_u16.rs", "src/dispatch_group_f32.rs", "src/dispatch_group_ar30.rs", "src/nearest_sampler.rs", "src/sse", "src/avx2"],
  [("row groups and remainders", "dispatchers and kernels")], claim=("abstract interpretation of MIR with a coverage lattice of written columns and completed rows", "proof",
    KRN + "At every return of a row handler all pixels of its rows, at every return of a pass or step all rows, and at every successful return of an entry point the whole destination must have been written. " + TB))

P("C13", "Scalers apply their settings; colour scalers convert back what they converted",
  "A scaler working in another colour space converts the source into it before resizing and the result back afterwards with the inverse conversion of the same transfer function, channel layout and white point, on every path that resizes. The filter, threading policy, workload and multithreading options given to a scaler when it is made or by a setter are the ones used by the resize it performs; a new scaler works on one thread until told otherwise.",
  ["inputs", "configurations", "histories"], "all scalers, channel layouts, transfer functions, options and sequences of setter calls",
  "Round trips with matching errors on both sides cancel in tests of flat images, and tests leave most options at their defaults.",
  ["src/colors", "src/scaler.rs"],
  [("forward and inverse conversion pairs", "src/colors/*.rs"), ("constructors and setters", "src/scaler.rs, src/colors/*.rs")],
  claim=("path-sensitive abstract interpretation of the colour scalers and of constructors and setters", "proof",
    DRV + "Obligations: on every successful return that resizes, one forward conversion of the whole source into a temporary, one resize by the inner scaler with the settings held, one inverse conversion (same parameters, matching pair of the table of conversions of colorutils_rs) into the whole destination; each setter changes its setting alone and each constructor stores what it was given. The conversions themselves belong to another crate. " + TB))

P("C14", "Public codes and filter numbers are distinct and total",
  "Each error kind has its own numeric code, distinct from success. Converting a 32-bit number into a filter never fails, distinct known numbers give distinct filters and all others one common filter. Every filter has its own description, a kernel function and a positive support. The numbers of the byte orders are distinct.",
  ["inputs"], "all error kinds, all filters and all 32-bit numbers",
  "Tests do not enumerate them.",
  ["src/pic_scale_error.rs", "src/sampler.rs", "src/ar30.rs"],
  [("code()", "src/pic_scale_error.rs"), ("From<u32> and get_resampling_filter", "src/sampler.rs")],
  claim=("abstract evaluation of the conversions over every variant and over the partition of all 32-bit numbers", "proof",
    "The functions are evaluated abstractly for each enum variant, and for all numbers at once by splitting on the branches they take. " + TB))

P("C15", "Image containers describe exactly the buffer they hold",
  "A container is created only for a buffer large enough for its geometry, reports the size, stride and bit depth it was created with, and its copies and immutable snapshots hold the same pixels with the same geometry, a copy never sharing memory with the original. A stride of zero means tightly packed rows.",
  ["inputs"], "all lengths, sizes, strides, channel counts and element types",
  "Tests build a few containers of matching size.",
  ["src/image_store.rs"],
  [("constructors and copies", "src/image_store.rs")],
  claim=("abstract interpretation of every container function over symbolic geometry", "proof",
    "Every constructor, accessor and copying function of both containers for 3 element types and 4 channel counts, for borrowed and owned buffers with strides and without: the returned value's fields, buffer length and identity are compared with what the arguments entail. " + TB))

P("C16", "No accepted request panics",
  "No operation on images that pass validation panics, divides by zero or aborts, whatever the sizes, strides, filter and option values.",
  ["inputs", "configurations"], "all inputs",
  "Panics hide in remainders and degenerate sizes.",
  ["src/scaler.rs", "src/filter_weights.rs", "src/colors"],
  [("validation and bounds", "src/scaler.rs")], claim=("abstract interpretation of MIR: reachability of panics, failed assertions and bad ranges", "proof",
    KRN + "Every panic, assertion, checked index, range slice, division and unwrap reachable from an entry point is an obligation: it must be unreachable for valid images. Float code is entered too. " + TB))

NUM = "it quantifies over the numeric result of rounded arithmetic on run-time pixel values; no sound static argument in reach bounds the accumulated rounding of the fixed-point and float kernels tightly enough to decide it, and running the kernels is another technique"
P("C90", "Vector and portable kernels agree within rounding",
  "For the same input every CPU-specific kernel gives the result of the portable one up to the documented rounding of the chosen workload strategy.",
  ["inputs", "configurations"], "all pixel values, geometries and CPU features",
  "Tests run only the kernels of one CPU.", ["src/sse", "src/avx2", "src/avx512"], [("kernels per CPU", "src/sse, src/avx2, src/avx512")], na=NUM)
P("C91", "Constant images stay constant",
  "Resizing an image of one constant colour gives the same colour everywhere, up to one unit of rounding.",
  ["inputs", "configurations"], "all colours, sizes and filters",
  "Tests check a few colours and sizes.", ["src/filter_weights.rs", "src/scaler.rs"], [("normalised weights", "src/scaler.rs")], na=NUM)
P("C92", "Premultiplying and unpremultiplying is accurate to one unit",
  "Premultiplied colours are the rounded product of colour and alpha, and unpremultiplied colours the rounded quotient clamped to the range, to within one unit.",
  ["inputs"], "all colour and alpha pairs",
  "Tests check few values.", ["src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs"], [("fixed-point approximations", "alpha kernels")], na=NUM)
