import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
U="modules/utils/include/litiv/utils/"
p("C01","Worker pool runs every accepted task exactly once and delivers its outcome",
 "A worker pool executes every task it accepted exactly once, on one of its own worker threads, and hands the task's return value or the exception it threw to the future returned at queueing time. Tasks start in the order they were queued (so a one-worker pool runs them strictly in order), and destroying the pool first completes every accepted task, whatever the number of workers and queueing threads. No task outcome depends on how threads interleave, and no interleaving causes a data race or a hang.",
 ["schedules","histories"],"every number of workers (fixed or chosen at run time), every set of concurrent producers, every interleaving of queueing, execution, failure and destruction",
 "The unit tests queue a fixed handful of tasks from one thread and only sample the schedules the scheduler happens to produce; they never race producers, throwing tasks and destruction.",
 [U+"cxx.hpp"],[("task queue guarded by mutex + condition variable; packaged_task futures; destructor sets stop flag, notifies and joins",U+"cxx.hpp: WorkerPool")],
 ["queueTask()/future.get() at the client boundary","task bodies (side effects counted per task id)"],[dict(name="m_qTasks",meaning="tasks accepted but not started",where=U+"cxx.hpp")])
p("C02","Counting semaphore and scoped unlocking never lose or invent permits",
 "A counting semaphore never lets more holders in than permits were made available, never loses a wake-up, and its reported count always equals permits released minus permits acquired. A scoped unlock leaves the lock held by the caller again on every exit path. All its operations may be called from any threads without data races.",
 ["schedules","histories"],"every interleaving of wait, try-wait, notify and count by any number of threads",
 "Tests use at most a few threads on a fixed script, without a race detector.",
 [U+"cxx.hpp"],[("mutex + condition variable around the counter",U+"cxx.hpp: Semaphore"),("RAII re-lock",U+"cxx.hpp: unlock_guard")],["wait/try_wait/notify/count results","number of threads inside the guarded region"])
p("C03","Text output is complete, exact and never interleaved",
 "Formatting a message gives exactly the characters the C printf rules give, whatever the length of the result. A message sent through the framework's guarded streams or its atomic print reaches the stream exactly once and contiguously, even when many threads write concurrently, and a message above the configured verbosity is not written at all. Errors raised by failed internal checks carry their complete message verbatim, and an error raised while a message is being composed propagates to the caller while logging goes on.",
 ["inputs","schedules"],"every format result length (including around internal buffer sizes), every verbosity level, every interleaving of writing threads",
 "Tests format a few short strings and write from at most a few threads; lengths at buffer boundaries and interleavings are not covered.",
 [U+"cxx.hpp","modules/utils/src/cxx.cpp"],[("vsnprintf into a local buffer with retry on overflow","modules/utils/src/cxx.cpp: putf, safe_print"),("stream guard holding a global mutex",U+"cxx.hpp: ostream_guard")],["returned strings","bytes captured from the stream"])
p("C04","Small-buffer containers, lookup tables and heap helpers behave as value types",
 "The static/dynamic buffer and lookup-table containers always hold, for plain (trivially copyable) values, exactly the values last stored, across any sequence of construction, copy, move, assignment, resize, element access and swap, for buffers living in their static storage as well as on the heap. Two containers never share storage, out-of-range checked accesses are refused with an exception, and no operation reads or writes memory it does not own.",
 ["histories","inputs"],"every sequence of container operations over every mix of static and heap sizes",
 "Unit tests run a few fixed operation sequences without a memory-error detector; copies and moves of small buffers, and use after the source died, are never exercised.",
 [U+"cxx.hpp"],[("pointer to static or heap storage selected by size",U+"cxx.hpp: AutoBuffer"),("precomputed table over a value range",U+"cxx.hpp: LUT")],["element reads","size()/capacity queries","thrown exceptions"],[dict(name="m_pBufferPtr",meaning="current storage",where=U+"cxx.hpp")])
p("C05","Matrix archives round-trip and damaged ones are refused",
 "A matrix written to a file in any of the supported archive formats reads back with the same dimensions, type and values (text formats within their printed precision), for every type, dimensionality and memory layout, and a list of matrices packed into one and unpacked again gives back the same list. A truncated or damaged archive is reported by an exception and never makes the reader touch memory outside the matrix it returns.",
 ["inputs","fault_sequences"],"every matrix type/size/layout and every truncation or corruption of a stored archive",
 "Tests round-trip a few well-formed continuous matrices; no test feeds a damaged archive or a sub-view of a larger matrix.",
 ["modules/utils/src/opencv.cpp",U+"opencv.hpp"],[("archive writer/reader with a small header","modules/utils/src/opencv.cpp: lv::write, lv::read"),("packing with size bookkeeping","modules/utils/src/opencv.cpp: lv::packData, lv::unpackData")],["matrices returned by read/unpack","exceptions","sanitizer reports"])
p("C06","Image helpers match their definitions on any matrix layout",
 "Matrix shifting, comparison, size and type descriptors, channel/colour conversion, sub-pixel lookup, colour-map rendering and key-point/region filtering give the result their documentation defines for every input, including sub-views of larger matrices and coordinates on or outside the image border. They never modify their inputs and never access memory outside the matrices they are given.",
 ["inputs"],"every matrix size, type, layout (continuous or sub-view) and every coordinate",
 "Tests use a few continuous matrices and interior coordinates, without a memory-error detector.",
 [U+"opencv.hpp","modules/utils/src/opencv.cpp"],[("bounds tests and row-stepping",U+"opencv.hpp: isEqual, getSubPix, validateKeyPoints; modules/utils/src/opencv.cpp: shift")],["returned matrices","sanitizer reports"])
p("C07","Distance and bit-count primitives are exact for every value",
 "Every distance (L1, squared L2, L2, colour distortion, Hamming, gray-magnitude, earth-mover) and every bit-counting primitive returns the value of its mathematical definition for every pair of inputs of every supported type, including the extremes of the type's range, and for every array length. Integer distances never overflow (32-bit squared sums excepted when they exceed 64 bits); each distance is zero on equal inputs, and all but the colour distortion (which is relative to its second argument: the norm of the part of the first colour orthogonal to the second, zero when both are grey) are symmetric.",
 ["inputs"],"all values of all supported element types, all channel counts and array lengths, with and without masks",
 "Tests sample a handful of values per type and only a few channel counts; overflow at the extremes of wide types is not reached.",
 [U+"math.hpp"],[("typed overloads with widened accumulators",U+"math.hpp: L1dist, L2sqrdist, L2dist, cdist, hdist, gdist, popcount, EMDL1dist")],["returned distances","undefined-behaviour reports"])
p("C08","Numeric helpers satisfy their defining equations",
 "Matrix inversion, determinant, linear interpolation, value ranges, nearest-neighbour lookup and Gaussian mixtures satisfy their defining equations within rounding: a matrix times its computed inverse is the identity and singular matrices are refused, ranges start and end exactly where asked, lookups return a closest element, mixture weights sum to one and an assigned component is one of maximal likelihood. Results depend only on the inputs, not on the order of learning or on earlier use of the object.",
 ["inputs","histories"],"all well-conditioned and singular matrices, all ranges, all sample sets",
 "Tests check a few fixed examples and a single learned mixture.",
 [U+"math.hpp"],[("LU decomposition with pivoting, interpolation and mixture learning",U+"math.hpp: invertMatrix, determinant, interp1, linspace, find_nn_index, GMM")],["returned values"])
p("C09","Vectorised helpers agree with their scalar definition",
 "Every SIMD helper (horizontal sums, minima, maxima, absolute differences, lane copies, fills) returns bit-for-bit what the scalar definition gives for every lane content. It touches exactly the bytes its contract names.",
 ["inputs"],"every lane content, every alignment allowed by the contract",
 "Tests sample a few vectors per helper and use no memory-error detector.",
 [U+"simd.hpp"],[("SSE/AVX intrinsics",U+"simd.hpp")],["returned scalars/vectors","guard bytes around buffers"])
F="modules/features2d/"
p("C10","LBSP descriptors follow their pattern definition in every variant",
 "A local binary similarity descriptor is, at every valid pixel, the 16-bit word whose bits say whether each pattern neighbour differs from the reference value by more than the threshold (absolute, or relative to the reference value), independently for each channel. The dense, key-point, single-pixel, lookup-based and reference-image variants all agree with it, the reported descriptor distance is the Hamming distance, and images, key points or regions too close to the border are trimmed rather than read out of bounds.",
 ["inputs","configurations"],"every image content, size and channel count, every threshold mode and value, every set of key points",
 "Tests compare two variants on a few images with one threshold.",
 [F+"src/LBSP.cpp",F+"include/litiv/features2d/LBSP.hpp"],[("fixed 16-neighbour double-cross pattern with SIMD lookup",F+"include/litiv/features2d/LBSP.hpp")],["descriptors returned by compute/compute2/static functions"])
p("C11","Dense self-similarity descriptors are finite, normalised and variant-independent",
 "For every supported image, dense descriptors have the documented size and layout, contain only finite values, and have unit norm where normalisation is promised; key-point variants give the dense map's value at that pixel. Computing a descriptor does not modify the image and gives the same result again, whatever was processed before by the same object or thread.",
 ["inputs","histories","configurations"],"every image content (flat, saturated, noise), size and depth, every parameter set, every call history on one object",
 "Tests check stored outputs on a couple of natural images; flat regions, reuse after a different image size and tiny images are not covered.",
 [F+"src/DASC.cpp",F+"src/LSS.cpp"],[("recursive/guided filtering with normalisation",F+"src/DASC.cpp"),("local correlation surface binned in log-polar cells",F+"src/LSS.cpp")],["descriptor maps","sanitizer reports"])
p("C12","Mutual information follows from the true joint histogram",
 "Joint histograms count every pixel pair exactly once, so their entries sum to the number of pixels and their marginals equal the single-image histograms; sparse and dense forms hold the same counts. Mutual information computed from them is non-negative, symmetric in its two images, equals the entropy when an image is compared with itself and is zero against a constant image, and histogram reuse from earlier calls never changes a result.",
 ["inputs","histories"],"every pair of images, every quantisation, ROI, and every history of calls sharing histogram storage",
 "Tests compare a few pairs; conservation, symmetry and reuse over call histories are not checked.",
 [F+"src/MI.cpp",U+"math.hpp",U+"opencv.hpp"],[("joint histogram accumulation and entropy sums",U+"opencv.hpp: calcJointHist, calcMutualInfo")],["histograms and scores returned"])
p("C13","Shape-context descriptors count each contour point in its cell",
 "A shape-context descriptor is the (normalised) log-polar histogram of where contour points lie relative to its key point: it is non-negative, finite, has the documented size, and is unchanged when the whole shape and the key point are translated together. With absolute radii, dense maps, region-restricted and key-point variants agree, and the cost map used to compare descriptors is symmetric with a zero diagonal.",
 ["inputs","configurations"],"every binary shape, every key-point set, every parameter set",
 "Tests check stored outputs for a few shapes.",
 [F+"src/SC.cpp"],[("contour extraction, angle/radius binning, EMD cost map",F+"src/SC.cpp")],["descriptor maps","sanitizer reports"])
I="modules/imgproc/"
p("C14","Masked filters, counts and integral images equal their definitions",
 "Masked median and binary-median filtering, binary consensus, histogram counts, median values, (masked, binary) integral images, local-maximum tests, Gaussian-mixture helpers, thinning and non-maximum suppression give at every pixel the result of their definition over the valid pixels of the window, for every image size, kernel and mask, including empty masks and windows cut by the border. Thinning only removes pixels, is idempotent and (default method) keeps every connected shape connected; suppression keeps only local maxima.",
 ["inputs"],"every image, mask, kernel size and image size including smaller than the kernel",
 "Tests check a few images; empty masks, borders and memory accesses are not covered.",
 [I+"src/imgproc.cpp",I+"include/litiv/imgproc.hpp"],[("window loops with per-thread buffers, integral-image differences",I+"src/imgproc.cpp")],["output images","sanitizer reports"])
p("C15","Affinity maps hold the patch distance for every in-range disparity",
 "An affinity map gives, for every pixel and disparity whose pixels lie in the image and the regions of interest, the distance between the two patches or descriptors (averaged over the valid part of the window where documented), and the invalid marker everywhere else. The result does not depend on thread scheduling or earlier calls and is zero for a patch compared with itself.",
 ["inputs","schedules","histories"],"every image/descriptor pair, patch size, disparity set (negative, repeated, out of range), region of interest",
 "Tests compare one configuration with a stored result.",
 [I+"src/imgproc.cpp"],[("OpenMP loops over rows, columns and offsets",I+"src/imgproc.cpp: computeImageAffinity, computeDescriptorAffinity")],["affinity maps"])
p("C16","Edge detectors give nested binary masks independent of history",
 "For every image, an edge mask at a threshold contains only 0 and 255, has the size of the image, and holds exactly the pixels that are gradient maxima across the edge and linked to one above the threshold, so that the mask at a higher threshold is a subset of the mask at a lower one and a straight step is reported at its location. The soft output is the combination of all threshold masks, and a detector gives the same answer for an image whatever images (of whatever size) it processed before, without modifying its input.",
 ["inputs","histories","configurations"],"every image size, content, channel count, pyramid depth, threshold and call history",
 "Tests run each detector on one or two images with default settings.",
 [I+"src/EdgeDetectorLBSP.cpp",I+"src/EdgeDetectorCanny.cpp"],[("non-maximum suppression and hysteresis with re-used buffers",I+"src/EdgeDetectorLBSP.cpp")],["edge masks","sanitizer reports"])
V="modules/video/src/"
p("C17","Background subtractors stay consistent over any frame sequence",
 "Every background subtractor (CPU implementations), fed any sequence of one- or three-channel frames, learning rates, resets, re-initialisations and region-of-interest changes, returns a mask of the frame's size holding only 0 and 255, leaves the frame untouched and never accesses memory outside its model. Up to the documented mask clean-up, a pixel that none of the values seen so far can match is foreground and one that every sample of its model matches is background; a still uniform scene gives an empty mask, background images stay within the values seen, a lasting change is absorbed, nothing outside the region of interest influences the model, and invalid input is refused without side effects. A re-initialised object behaves exactly like a new one.",
 ["histories","inputs","configurations"],"every frame sequence, image size and channel count, region of interest, learning rate and re-initialisation point, for all algorithms",
 "The video module has no tests at all.",
 [V+"BackgroundSubtractorViBe.cpp",V+"BackgroundSubtractorPBAS.cpp",V+"BackgroundSubtractorLOBSTER.cpp",V+"BackgroundSubtractorSuBSENSE.cpp",V+"BackgroundSubtractorPAWCS.cpp",V+"BackgroundSubtractionUtils.cpp"],
 [("per-pixel sample/word models indexed through ROI lookup tables",V+"BackgroundSubtractionUtils.cpp: initialize_common")],["masks, background images","sanitizer reports"])
D="modules/datasets/"
p("C18","Asynchronous precaching returns exactly the packets of direct loading",
 "Packets obtained through the asynchronous loader are identical to the ones the loading function returns for that index, for every access order (sequential, repeated, backward, random, past the end), every cache size, and every start/stop/restart point. A packet handed out stays valid and unchanged until the next request, an error in the loading function is reported to a requester exactly once, the loading function is never called concurrently with itself, and no access order causes a hang, a data race or an invalid memory access.",
 ["schedules","histories","fault_sequences"],"every request sequence, packet size mix, cache size, stop/restart point and loader failure point",
 "Tests request packets sequentially with one cache size; restart, backward jumps, failures and packets used after stopping are not covered.",
 [D+"src/utils.cpp",D+"include/litiv/datasets/utils.hpp"],[("circular pre-cache buffer filled by a worker, mutex + condition variables",D+"src/utils.cpp: lv::DataPrecacher")],["getPacket() results","loader call log"],[dict(name="m_oLastReqPacket",meaning="packet handed out last",where=D+"include/litiv/datasets/utils.hpp")])
p("C19","Asynchronous writer stores every accepted packet exactly once",
 "Every packet accepted by the asynchronous writer is passed to the storing function exactly once with the content it had when queued, a packet queued again under the same index before being stored may replace the earlier one but is never lost, and the number of bytes waiting never exceeds the configured limit. With one writing thread, waiting packets are stored in index order. Stopping or destroying the writer first stores everything accepted (also what is queued while it stops); a failure in the storing function is reported to the caller when stopping and never ends the process.",
 ["schedules","histories","fault_sequences"],"every number of producers and writer threads, packet sizes, queue limits, repeated indices and storing failures",
 "Tests queue a few packets with one worker; multiple workers, repeated indices and failures are not covered.",
 [D+"src/utils.cpp",D+"include/litiv/datasets/utils.hpp"],[("ordered queue guarded by a mutex, workers waking on a condition variable",D+"src/utils.cpp: lv::DataWriter")],["storing-function call log","queue() return values"],[dict(name="m_mQueue",meaning="packets accepted, not yet stored",where=D+"include/litiv/datasets/utils.hpp")])
p("C20","Dataset batches deliver each packet and count each output exactly once",
 "A dataset work batch delivers each of its packets, with matching input and ground truth, identically in synchronous and precached mode; every output pushed is counted once, saved under its own name (or the failure to save it reported), evaluated against the ground truth of the same index and can be loaded back identical. Group totals equal the sums over their batches, reports list averages over the processed batches, skipped groups hold nothing, a batch can be destroyed at any time, and processing can be started, stopped and restarted any number of times. (Inputs whose names differ only by extension are not supported.)",
 ["histories","schedules","configurations"],"every directory layout, packet count, processing order, start/stop/reset history",
 "Tests run one straight-through pass over a small custom dataset.",
 [D+"src/utils.cpp",D+"include/litiv/datasets/utils.hpp",D+"src/eval.cpp",D+"src/datasets.cpp"],[("packet counters, promises, output archiver and evaluator mix-ins",D+"include/litiv/datasets/utils.hpp")],["packets, counters, saved files, metrics"])
p("C21","Evaluation counters and scores account for every pixel",
 "Binary classification evaluation assigns each pixel to exactly one of true/false positive/negative or don't-care, according to the mask, ground-truth and region values, so the counters always add up to the number of pixels; coloured error masks show the same decision and inputs of mismatched size or type are refused. Accumulating over several frames or merging accumulators gives the same totals as one big evaluation, averages over batches weigh each batch as documented, scores equal their formulas within rounding and lie in their range (also for very large counts), and stereo disparity errors count exactly the valid pixels.",
 ["inputs","histories","configurations"],"every mask/ground truth/region content and layout, every accumulation order, counts up to 64 bits",
 "Tests check a few small masks; non-continuous regions, huge counters and merge orders are not covered.",
 [D+"src/metrics.cpp",D+"include/litiv/datasets/metrics.hpp"],[("counter structs with additive accumulation",D+"src/metrics.cpp")],["counter values","scores"])
p("C22","Boundary matching is a near-maximum one-to-one correspondence within range",
 "Boundary evaluation matches detected and reference edge pixels one to one, only within the allowed distance, and never matches a pixel that is not an edge. The number of matches is maximum for small sets and otherwise within 2 pixels plus 5% of the maximum (the matcher adds random outlier arcs), so a mask compared with itself scores perfectly up to that slack. Counters at each threshold equal the counts of the thinned detection at or above it, scores and areas follow their definition, and concurrent evaluations do not influence each other.",
 ["inputs"],"every pair of edge masks, image sizes and distance limits",
 "The matcher itself is never tested directly.",
 ["3rdparty/bsds500/src",D+"src/impl/BSDS500.cpp"],[("assignment problem with outliers","3rdparty/bsds500: match, csa, kofn")],["match maps and counters","sanitizer reports"])
p("C23","Random sampling helpers stay in bounds and cover their pattern",
 "Positions produced by the neighbour and sample-pattern helpers always lie inside the image minus the requested border, stay within the pattern's radius of the centre where the border allows, and reach every pattern position with non-zero weight over the random values.",
 ["inputs"],"every centre position, border, image size and random value",
 "Tests check a few positions.",
 [U+"opencv.hpp"],[("weighted pattern tables with clamping",U+"opencv.hpp: getSamplePosition, getNeighborPosition")],["returned coordinates"])
p("C24","Image warping and optical flow satisfy their identities",
 "An image warp sends every control point that lies on its grid to its counterpart and, when the control points are related by a translation, a rotation or (similarity mode) a scaling, applies that transformation to the whole image, scaled by the requested ratio; coincident or identical control points are handled like any others. Remapping by an offset map takes each pixel from its offset position (border rule included), temporal differences compare each pixel with its flow-displaced counterpart, and optical flow is zero between identical images, recovers the shift of a textured image, is finite, has the size of its input and does not depend on earlier calls, on other threads or on uninitialised memory. Invalid or mismatched inputs are refused and no memory outside the images is accessed, whatever their size.",
 ["inputs","configurations"],"every image size/content, control point set (also degenerate), offset map, flow preset, input kind and call history",
 "Warping and flow have at most one example test.",
 [I+"src/imwarp.cpp",I+"src/imgproc.cpp","3rdparty/ofdis"],[("piecewise-affine/rigid deformation; dense inverse search","modules/imgproc/src/imwarp.cpp; 3rdparty/ofdis")],["warped images and flow maps","sanitizer reports"])
p("C25","File-system and platform helpers report what is on disk",
 "File and directory listings contain exactly the entries on disk (sorted, filtered as asked), directory creation reports existence truthfully, path helpers add separators exactly once, and numeric/string helpers (digit counts, splitting, permutation/sorting indices) agree with their definition for every input.",
 ["inputs","configurations"],"every directory content (empty, nested, unusual names), every filter list, every string or number",
 "Tests create one or two files and check a few strings.",
 ["modules/utils/src/platform.cpp",U+"platform.hpp",U+"cxx.hpp"],[("directory traversal with filters","modules/utils/src/platform.cpp")],["returned lists and values"])
p("C26","Built-in dataset loaders present exactly what is on disk",
 "For the built-in dataset layouts (CDnet 2012/2014, Wallflower, PETS2001, BSDS500, LITIV-bilodeau2014, and VAP-trimodal2016 without undistortion), creating the dataset yields one work batch per sequence of the requested categories. Packet i holds frame i of the sequence (colour, grayscale or depth as the category demands; scaled, aligned or mirrored as requested), its ground truth is the annotation of that very frame (none if the frame is not annotated), masks stay binary, regions of interest and disparity ranges are those of the dataset files, and archived results carry the names the dataset's own tools expect. Sequences with missing or inconsistent pieces are refused.",
 ["inputs","configurations"],"every number of sequences, frames and annotations, creation order of the files, loader option and access order",
 "No test loads any of the built-in layouts.",
 [D+"include/litiv/datasets/impl",D+"src/utils.cpp"],[("per-dataset parseData/getRaw overrides filling path lists and index maps",D+"include/litiv/datasets/impl")],["loaded packets, indices, regions, file names, refusals"])
p("C27","Display windows and progress bars show what they are given",
 "For each request a display helper shows one image made of equal tiles in the requested row/column order: each holds its image converted to 8-bit colour over the documented range of its depth (black when empty), with its label and the cursor drawn over it. The whole keeps its proportions and never exceeds the configured maximum size, and the caller's images are never modified. Every mouse event reaches the user's callback once, with its position and its position relative to the tile; album browsing follows the keys with wrap-around and ends on escape, space toggles continuous updates, the window is gone and the debug storage readable once the helper is destroyed, and malformed requests are refused. A progress bar is only redrawn with increasing completion and no more often than its refresh rate, its width and marks follow the completion, and its drawings are never interleaved with one another or with guarded log messages, whatever the number of threads.",
 ["inputs","schedules"],"every image list (sizes, depths, channels, layouts), maximum size, sequence of requests, mouse events and keys; every thread interleaving of bar updates",
 "No test can open a window or look at the terminal output.",
 ["modules/utils/src/opencv.cpp",U+"opencv.hpp",U+"console.hpp"],[("tile composition over OpenCV windows; progress bar under the log mutex","modules/utils/src/opencv.cpp: DisplayHelper; "+U+"console.hpp: ProgressBarManager")],["images given to the window system, callbacks, recorded terminal output"])
p("C28","Virtual PTZ geometry follows the pinhole model",
 "Conversions between image positions and pan/tilt angles of the virtual PTZ module follow the pinhole camera model for every view direction, field of view and image size: the image centre maps to the view direction, angles stay in (-180,180] and [0,180], converting to angles and back returns the same pixel, and targets at 90 degrees or more of the view direction are reported as not visible. The ground truth translator maps points and boxes of a reference view to the panorama and to any other view accordingly. Invalid sizes, angles and fields of view are refused.",
 ["inputs"],"every image size, view direction, field of view, pixel position or target direction, box",
 "The module has no test at all.",
 ["modules/vptz/src/virtualptz.cpp","modules/vptz/include/litiv/vptz"],[("view rotations and perspective projection","modules/vptz/src/virtualptz.cpp: PTZPointXYtoHV, PTZPointHVtoXY, GTTranslator")],["returned angles, positions, boxes and refusals"])
p("C29","Virtual PTZ cameras and tracker evaluations report what happened",
 "A virtual PTZ camera returns the property values it was given (pan angles wrapped into (-180,180]; read-only, out-of-range or non-finite values refused), shows the part of the panorama that lies in its view direction, and plays frames at the pace of the simulated clock, each in order and none past the end; cameras are independent of one another. An evaluation reports, for each processed frame, the ground truth and tracker boxes in the current view, and its summary (frames tested, overlap, centre distance, time out of view) is the one that follows from them, with every ratio in [0,1].",
 ["inputs","histories"],"every panorama type, property history, playback delay, number of cameras and tracker behaviour",
 "The module has no test at all.",
 ["modules/vptz/src/virtualptz.cpp","modules/vptz/include/litiv/vptz"],[("camera state over a textured sphere; evaluation accumulators","modules/vptz/src/virtualptz.cpp: Camera, Evaluator")],["property values, rendered views, frame positions, result files"])
p("C30","OpenGL/GLSL code computes what the CPU definitions compute",
 "With an OpenGL context, matrices sent to textures and pixel buffers come back bit for bit, for every size, supported type and update history, and nothing outside the destination is written. A GLSL pipeline hands out, for every frame, the output of that very frame with its index, and shows input and output as they are. Every shader source the library hands out builds and computes the library's CPU definition of the same operation (distances, descriptors, medians, transposition, random generators, neighbour positions within the frame), the GLSL evaluator counts exactly what the CPU evaluator counts, and the GLSL LOBSTER subtractor keeps the guarantees of background subtractors (binary masks, no foreground in a static scene, large changes detected, model refreshed as asked). Shader objects report their state truthfully, uniforms read back as set, and sources that do not build, uninitialized use and mismatched inputs are refused; no call leaves an OpenGL error behind.",
 ["inputs","histories"],"every image size, format, operation history, shader input and frame sequence",
 "No test opens an OpenGL context.",
 ["modules/utils/src/opengl-draw.cpp","modules/utils/src/opengl-imgproc.cpp","modules/utils/src/opengl-shaders.cpp","modules/utils/src/opengl.cpp","modules/video/src/BackgroundSubtractorLOBSTER.cpp",D+"src/utils.cpp"],[("texture and pixel buffer transfers, double-buffered compute pipeline, generated shader sources","modules/utils/src/opengl-imgproc.cpp: GLImageProcAlgo; modules/utils/src/opengl-shaders.cpp")],["fetched textures, buffers and pixels, counters, masks, OpenGL errors"])
with open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
