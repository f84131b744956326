import glob, os
REPO = os.environ.get("VERIF_REPO", "/repo")
def _src(mod, skip=()):
    """sources of a module, as the repository's own build finds them (cuda/opengm/gl-only sources cannot be built here)"""
    return sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + "/modules/%s/src/*.cpp" % mod) if os.path.basename(f) not in {"cuda.cpp"} | set(skip))
U = "modules/utils/src/"
MODULES = {
 "cxx": [U+"cxx.cpp"],
 "vptz": ["modules/vptz/src/virtualptz.cpp"],
 "platform": [U+"platform.cpp"],
 "utils": [U+"cxx.cpp", U+"opencv.cpp", U+"platform.cpp"],
 "utilsgl": [U+"opengl.cpp", U+"opengl-draw.cpp", U+"opengl-imgproc.cpp", U+"opengl-shaders.cpp"],
 "features2d": _src("features2d"),
 "imgproc": _src("imgproc", {"SLIC.cpp", "SegmMatcher.cpp"}),
 "video": _src("video"),
 "datasets": _src("datasets") + ["modules/datasets/src/impl/BSDS500.cpp"],
 "bsds500": ["3rdparty/bsds500/src/csa.cpp", "3rdparty/bsds500/src/kofn.cpp"],
 "ofdis": ["3rdparty/ofdis/src/" + f for f in ("ofdis.cpp", "oflow.cpp", "patch.cpp", "patchgrid.cpp", "refine_variational.cpp", "fdf/opticalflow_aux.cpp", "fdf/image.c", "fdf/solver.c")],
}
_S = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_clockwait", "pthread_cond_timedwait",
      "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv"]
WRAP = ["-Wl,--wrap=" + s for s in _S]
# longest compilations first
WEIGHT = {"utils.cpp": 14, "opencv.cpp": 10}
# same sources, configured for a processor without SSE4/AVX/POPCNT: exercises the fallback code
NOSSE = {k: "OFF" for k in ("USE_SSE4_1", "USE_SSE4_2", "USE_POPCNT", "USE_AVX", "USE_AVX2")}
BINS = {
 "pool": dict(modules=["cxx"], harness=["pool.cpp"], link=WRAP),
 "sem": dict(modules=["cxx"], harness=["sem.cpp"], link=WRAP),
 "text": dict(modules=["cxx"], harness=["text.cpp"], link=WRAP),
 "containers": dict(modules=["cxx"], harness=["containers.cpp"]),
 "fs": dict(modules=["cxx", "platform"], harness=["fs.cpp"]),
 "math_dist": dict(modules=["utils"], harness=["math_dist.cpp"]),
 "math_dist_nosse": dict(modules=["utils"], harness=["math_dist.cpp"], config=NOSSE),
 "math_num": dict(modules=["utils"], harness=["math_num.cpp"]),
 "math_simd": dict(modules=["utils"], harness=["math_simd.cpp"]),
 "math_simd_nosse": dict(modules=["utils"], harness=["math_simd.cpp"], config=NOSSE),
 "matio": dict(modules=["utils"], harness=["matio.cpp"]),
 "imghelp": dict(modules=["utils"], harness=["imghelp.cpp"]),
 "display": dict(modules=["utils"], harness=["display.cpp"], link=WRAP),
 "sampling": dict(modules=["utils"], harness=["sampling.cpp"]),
 "lbsp": dict(modules=["utils", "features2d"], harness=["lbsp.cpp"]),
 "lbsp_nosse": dict(modules=["utils", "features2d"], harness=["lbsp.cpp"], config=NOSSE),
 "dense": dict(modules=["utils", "features2d"], harness=["dense.cpp"]),
 "mi": dict(modules=["utils", "features2d"], harness=["mi.cpp"]),
 "sc": dict(modules=["utils", "features2d"], harness=["sc.cpp"]),
 "filters": dict(modules=["utils", "features2d", "imgproc"], harness=["filters.cpp"]),
 "affinity": dict(modules=["utils", "features2d", "imgproc"], harness=["affinity.cpp"]),
 "edges": dict(modules=["utils", "features2d", "imgproc"], harness=["edges.cpp"]),
 "precache": dict(modules=["utils", "features2d", "imgproc", "datasets", "bsds500"], harness=["precache.cpp"], link=WRAP),
 "writer": dict(modules=["utils", "features2d", "imgproc", "datasets", "bsds500"], harness=["writer.cpp"], link=WRAP),
 "batches": dict(modules=["utils", "features2d", "imgproc", "datasets", "bsds500"], harness=["batches.cpp"], link=WRAP + ["-lstdc++fs"]),
 "dsimpl": dict(modules=["utils", "features2d", "imgproc", "datasets", "bsds500"], harness=["dsimpl.cpp"], link=["-lstdc++fs"]),
 "bsds": dict(modules=["utils", "features2d", "imgproc", "datasets", "bsds500"], harness=["bsds.cpp"], link=WRAP),
 "metrics": dict(modules=["utils", "features2d", "imgproc", "datasets", "bsds500"], harness=["metrics.cpp"]),
 "flow": dict(modules=["utils", "features2d", "imgproc", "ofdis"], harness=["flow.cpp"]),
 # the OpenGL/GLU/GLFW/GLEW calls are answered by a small software renderer inside the harness
 "vptz": dict(modules=["vptz"], harness=["vptz.cpp"], config=dict(USE_GLSL="ON", USE_GLFW="ON"), flags=["-fsanitize=float-cast-overflow"], link=["-fsanitize=float-cast-overflow", "-lGLU", "-lGL", "-lGLEW", "-lglfw"]),
 # real OpenGL calls, answered by Mesa's software renderer through an off-screen context opened in the harness
 "glsl": dict(modules=["utils", "utilsgl", "features2d", "imgproc", "video", "datasets", "bsds500"], harness=["glsl.cpp"], config=dict(USE_GLSL="ON", USE_GLFW="ON"), link=["-Wl,--wrap=glewInit", "-lEGL", "-lGLU", "-lGL", "-lGLEW"]),
 "bgs": dict(modules=["utils", "features2d", "imgproc", "video"], harness=["bgs.cpp"]),
}
PROPS = {
 "C01": dict(runs=[("pool", "tsan", ".*"), ("pool", "asan", ".*")], tsan_frac=0.5,
   technique="execution log of every task (exactly-once, outcome, thread, order) over seeded producer/worker/destruction races, plus race detector",
   rule="distinct execution orders of tasks / accept-refuse outcomes seen by the execution log (a case counts when at least one task ran)"),
 "C02": dict(runs=[("sem", "tsan", ".*"), ("sem", "asan", ".*")], tsan_frac=0.6,
   technique="holder/permit conservation monitor over seeded thread histories, plus race detector",
   rule="distinct histories by acquisition/refusal counts, peak holders and hand-off shapes"),
 "C03": dict(runs=[("text", "tsan", "fmt_threads|print_threads|verbosity_threads|nested_errors"), ("text", "asan", ".*")],
   technique="byte-exact comparison with vsnprintf over lengths, offline parser of the recorded output stream of racing writers, plus race detector",
   rule="distinct result lengths x format shapes, distinct writer interleavings recorded in the stream, verbosity/level pairs"),
 "C04": dict(runs=[("containers", "asan", ".*")],
   technique="model-based monitor of random operation histories (value model, storage disjointness, alignment) under memory-error detectors",
   rule="distinct operation histories (trace text) and table configurations"),
 "C25": dict(runs=[("fs", "asan", ".*")],
   technique="differential monitor of helper results against independent definitions over generated directory trees, strings and numbers",
   rule="distinct directory contents x filters, strings, numbers and vectors"),
 "C07": dict(runs=[("math_dist", "asan", ".*"), ("math_dist_nosse", "asan", "bits|.*exhaustive")],
   technique="differential monitor against 128-bit/extended-precision definitions over value extremes and all 8-bit pairs, under undefined-behaviour detectors",
   rule="distinct input arrays (content hash) per type and channel count"),
 "C08": dict(runs=[("math_num", "asan", ".*")],
   technique="monitor of defining equations (residuals in extended precision, density formula, weight sums, history independence) over generated inputs",
   rule="distinct matrices, tables, ranges and sample sets by content"),
 "C09": dict(runs=[("math_simd", "asan", ".*"), ("math_simd_nosse", "asan", ".*")],
   technique="lane-by-lane differential monitor against scalar loops with guard bytes under memory-error detectors",
   rule="distinct lane contents (content hash)"),
 "C05": dict(runs=[("matio", "asan", ".*")],
   technique="round-trip monitor over generated matrices and destinations, fault injection on stored archives (truncation, corruption, full device) judged by an independent header parser, under memory-error detectors",
   rule="distinct matrix shapes x formats and packed lists"),
 "C06": dict(runs=[("imghelp", "asan", ".*")],
   technique="differential monitor against per-pixel definitions on continuous matrices and sub-views with untouched-parent checks, under memory-error detectors",
   rule="distinct shapes/layouts x parameters, colours and coordinates"),
 "C23": dict(runs=[("sampling", "asan", ".*")],
   technique="exhaustive enumeration of random indices per sampled centre/border/size with bounds, radius and draw-count monitors",
   rule="distinct centre/border/size/pattern configurations"),
 "C10": dict(runs=[("lbsp", "asan", ".*"), ("lbsp_nosse", "asan", "dense|single|threshold_exhaustive")],
   technique="differential monitor against the documented pattern (all variants, all value/reference/threshold triples) under memory-error detectors, with and without SSE4",
   rule="distinct image contents x threshold modes with at least one bit set"),
 "C11": dict(runs=[("dense", "asan", ".*")],
   technique="differential monitor of dense descriptors against double-precision re-computations, fresh-object and variant cross-checks over call histories, under memory-error and undefined-behaviour detectors",
   rule="distinct parameter sets x images with non-degenerate compared entries"),
 "C12": dict(runs=[("mi", "asan", ".*")],
   technique="conservation and differential monitors on joint histograms (sums, marginals, every occupied cell) and mutual-information identities over shared-storage call histories, under memory-error detectors",
   rule="distinct image pairs x histogram configuration"),
 "C13": dict(runs=[("sc", "asan", ".*")],
   technique="differential monitor of shape-context histograms against direct per-contour-point binning, translation and call-history monitors, metric checks on the cost map, under memory-error detectors",
   rule="distinct parameter sets x shapes x call sequences"),
 "C14": dict(runs=[("filters", "asan", ".*")],
   technique="differential monitor of every output pixel against window-by-window definitions; topology and idempotence monitors for thinning, maximality monitors for suppression, under memory-error detectors",
   rule="distinct images x masks x kernels by content hash"),
 "C15": dict(runs=[("affinity", "asan", ".*"), ("affinity", "tsan", "threads")],
   technique="differential monitor of every map entry against patch-by-patch distances over disparity sets, regions, thread counts, call histories and concurrent callers, plus race detector",
   rule="distinct input pairs x configurations with at least one valid entry"),
 "C16": dict(runs=[("edges", "asan", ".*")],
   technique="differential monitor of every mask against gradient pyramid / maxima / hysteresis definitions over image sizes, channel counts and detector histories; nesting and location monitors, under memory-error detectors",
   rule="distinct image sequences per detector configuration with at least one edge pixel"),
 "C18": dict(runs=[("precache", "tsan", ".*"), ("precache", "asan", ".*")], tsan_frac=0.5,
   technique="online checker of every packet against the loading function over random request/start/stop/failure histories, re-reading handed-out packets while the worker goes on, loader call log (no overlap, errors reported once), plus race and memory-error detectors",
   rule="distinct request/start/stop/failure histories in which at least one packet was obtained"),
 "C19": dict(runs=[("writer", "tsan", ".*"), ("writer", "asan", ".*")], tsan_frac=0.5,
   technique="offline checker of the storing-function log (exactly-once, content at queueing time, newest version kept, order, byte limit, error conservation) over seeded producer/writer/stop/failure races, plus race and memory-error detectors",
   rule="distinct histories by configuration and recorded storing order"),
 "C21": dict(runs=[("metrics", "asan", ".*")],
   technique="conservation monitor: every pixel of every evaluated frame recounted independently, merges in random orders and trees compared with recounts, scores recomputed in extended precision, plus memory-error detector",
   rule="distinct counter outcomes with all four classes present, distinct merge trees and error lists"),
 "C20": dict(runs=[("batches", "asan", ".*"), ("batches", "tsan", "parallel|segm")], tsan_frac=0.5,
   technique="model-based monitor: generated directory trees and random start/stop/reset/precache/push/load histories, every packet, saved file, counter, metric and report compared with a reference model, plus race and memory-error detectors",
   rule="distinct operation histories with at least two processing runs, distinct parallel runs over several batches"),
 "C22": dict(runs=[("bsds", "asan", ".*"), ("bsds", "tsan", "parallel")], tsan_frac=1.0,
   technique="reference-model monitor: match and edge counters of every threshold compared with maximum one-to-one matchings computed by augmenting paths, scores recomputed from counters, concurrent evaluations under the race detector, all under memory-error detectors",
   rule="distinct counter outcomes (matches and edge pixels per threshold) with at least one possible match"),
 "C17": dict(runs=[("bgs", "asan", ".*")],
   technique="envelope monitor: from the observed frames the checker bounds the values each pixel's model can hold and derives which pixels must or must not be foreground and the range of the background image; twin and re-initialized objects compared bit for bit, all under memory-error detectors",
   rule="distinct frame histories with at least one pixel that must be foreground and one that must be background"),
 "C26": dict(runs=[("dsimpl", "asan", ".*")],
   technique="reference-model monitor: miniature datasets written in the documented layouts (shuffled file creation, partial ground truth, subsets, damage) and loaded through the real loaders; every packet, ground truth, region, index, name and refusal compared with what was written, under memory-error detectors",
   rule="distinct dataset configurations loaded, distinct kinds of damage refused"),
 "C28": dict(runs=[("vptz", "asan", "angles-of-pixels|pixels-of-angles|refusals|translator|attached")],
   technique="differential monitor against an independent extended-precision pinhole model (values, ranges, round trips, refusals, boxes) under undefined-behaviour and float-overflow detectors",
   rule="distinct views x pixels/targets/boxes"),
 "C29": dict(runs=[("vptz", "asan", "camera|playback|evaluation")],
   technique="model-based monitor of camera histories on a software renderer answering the OpenGL calls (state, rendered pixels against the panorama, simulated clock) and offline recomputation of every written evaluation result, under memory-error detectors",
   rule="distinct operation histories of cameras, playbacks and evaluations"),
 "C27": dict(runs=[("display", "asan", ".*"), ("display", "tsan", "bars_threads")], tsan_frac=1.0,
   technique="recording stand-ins for the window system: every shown image compared tile by tile with its definition, mouse and key events checked once each; offline parser of the recorded terminal output of racing progress bars and log messages, plus race and memory-error detectors",
   rule="distinct display/mouse/key histories, album walks, refused requests and recorded terminal outputs"),
 "C24": dict(runs=[("flow", "asan", ".*"), ("flow", "plain", "flow_any")],
   technique="differential monitor of every warped/remapped pixel against the transformation that defines it; identity, shift, repeatability (other heap contents, threads, histories) and finiteness monitors on optical flow, under memory-error detectors",
   rule="distinct images x control points / offsets / presets"),
 "C30": dict(runs=[("glsl", "asan", ".*")],
   technique="differential monitor of the OpenGL/GLSL code, run on a software renderer, against CPU definitions (transfers, pipeline, shader arithmetic, evaluation counters, background model)",
   rule="distinct image sizes x formats x operation histories, shader inputs and frame sequences"),
}
