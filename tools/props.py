# One entry per property; gen.py turns them into properties.jsonl and MANIFEST.json.
def anc(files, *mech, **k):
    return dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **k)


PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, anchors, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors, note=note))


def na(id, title, statement, over, qtext, why, anchors, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors), reason))


prop("C01", "Multi-threaded pixel operations give the one-thread result",
     "Flips, channel extraction and assembly, pixel-type conversion, per-pixel functions and thresholds, cropping, nearest-neighbour and bicubic resizing, point drawing, elliptical Gaussian figures, 3-D cosine transforms, fisheye and perspective warps, image blending and difference-of-Gaussian octaves return exactly the pixels a single-threaded execution of the same operation returns, whatever the number of threads and however they are interleaved. "
     "Their operands are left unchanged, and no two threads ever touch the same memory unordered, nor does a result depend on memory that was never written.",
     ["schedules", "inputs", "configurations"], "all images, arguments, team sizes, loop schedules and thread interleavings",
     "The tests run each operation once, on whatever team size and interleaving the machine happens to give, on a few images; a lost update or race needs one particular interleaving and team size.",
     anc(["image_operations.h", "image.h", "base_types.h"], ("#pragma omp parallel for over disjoint rows/pixels", "image_operations.h: flip_*, getPlane, constructRGB/HSV/MultiChannel, convert_image, apply_each_pixel_openmp, apply_threshold_openmp, subimage2, resize_nearest_neighbor, copyResizeBicubic, draw_point, gaussianFigure2D, dct3/idct3, gaussian_fisheye, warp_perspective, create_stitched_image, SIFT_impl::generate_octave"),
         observe_at=["return values and operands of these functions"]),
     "27 scenarios; the real code runs under a seeded OpenMP runtime (team size, chunking, nesting, preemption at every instrumented access), is compared bit for bit with an independent definition of the result or with its own single-thread execution, and watched by a vector-clock race detector; memory never written is found by re-running seeds with another fill pattern.")

prop("C02", "Every execution policy gives the sequential result",
     "For every operation that takes an execution policy and is not a reduction (convolution, padding, splitting, cropping, pasting, transposing, Lanczos and bilateral/window/Gaussian filtering, warps, colour conversion, element-wise arithmetic and mathematical functions, nested element-wise transforms), a parallel policy returns exactly the result of the sequential policy (up to floating-point rounding where the operation itself sums in parallel). "
     "This holds for every splitting of the work and every interleaving, without data races, and the operands are left unchanged.",
     ["schedules", "inputs", "configurations"], "all inputs, execution policies, work splittings, worker counts and interleavings",
     "The tests call a few overloads with one policy on one machine; they neither choose the splitting nor compare policies under different interleavings.",
     anc(["image_operations.h", "basic_functions.h", "image.h"], ("std::execution policies forwarded to standard parallel algorithms and OpenMP loops", "image_operations.h: conv2, convolution, subimage, generate_padded_image, split_overlap, lanczos_resample, transpose, paste2D, warp_perspective, gaussian_fisheye, windowed_filter, bilateral_filter, imgaussfilt, rgb2hsv/hsv2rgb, pixelwiseOperation, abs, pow, replace; basic_functions.h: recursive_transform, apply_multichannel"),
         observe_at=["return values"]),
     "61 scenarios; libstdc++'s parallel algorithms run on a seeded task scheduler that picks the splitting, the stealing and every preemption; oracle: the sequential policy outside the simulation and, for most operations, an independent definition.")

prop("C03", "Parallel reductions count every element exactly once",
     "Sums, means, value counts, conditional counts, searches, histogram totals and probabilities, Otsu thresholds, sums of squares, variance, standard deviation, root mean square, Euclidean distances and Gaussian-parameter estimates computed with a parallel policy equal the sequential result: exactly when the arithmetic is exact, and up to rounding otherwise. "
     "This holds for every splitting of the data among workers and every interleaving.",
     ["schedules", "inputs", "configurations"], "all inputs, splittings, worker counts and interleavings",
     "A reduction that loses, duplicates or races on a partial result does so only for particular splittings and lengths; the tests use a handful of lengths and never control the splitting.",
     anc(["image_operations.h", "basic_functions.h", "histogram.h"], ("std::reduce / std::transform_reduce / OpenMP reductions with an identity start value", "image_operations.h: sum, mean, count, euclidean_distance, squared_euclidean_distance, estimate_gaussian_parameters_2d, otsu_threshold; basic_functions.h: recursive_count_if, recursive_find, recursive_for_each, recursive_transform_reduce, two_input_map_reduce, population_variance, square_sum, sum_first_element; histogram.h: getCountSum, to_probabilities_vector"),
         observe_at=["return values"]),
     "27 scenarios with integer-valued data so that every partial sum is exact and any lost or doubled element changes the result; iterative Gaussian estimation compared up to rounding over few iterations.")

prop("C04", "Channel-wise operations treat each channel once and report failures",
     "An operation applied to each channel of a colour, HSV or multi-channel image (or of two such images together) runs exactly once per channel and every channel of the result holds exactly what the operation gives for that channel alone, whatever order the channels' threads run in. "
     "An error raised for any channel, or a thread that cannot be started, reaches the caller as an exception; nothing is leaked, nothing hangs and no other channel's data is damaged.",
     ["schedules", "inputs", "fault_sequences"], "all images, channel counts, thread interleavings, failing channels and failing thread starts",
     "The tests apply a few operations to a few images and never fail a channel or a thread start, nor choose the order in which the channels run.",
     anc(["image_operations.h", "image.h", "base_types.h"], ("one std::async task per channel, joined through futures", "image_operations.h: apply_each (single image, two images, with and without index) for RGB, RGB_DOUBLE, HSV, MultiChannel; conv2, dct2/idct2, pow, multiplies, gaussian_fisheye, rotate built on it"),
         observe_at=["return values", "exceptions"]),
     "22 scenarios on the real std::async/futures running on simulated threads; per-channel operations that yield, fail or run slowly at seeded points; pthread_create fails at seeded calls; oracle: the operation applied to each channel serially.")

prop("C05", "Keypoints and matches are complete and ordered on every schedule",
     "Keypoint detection returns every local extremum that passes the filters and nothing else, in octave, scale and scan order; descriptor matching returns exactly the pairs that pass the ratio test (and the cross-check, where asked for), ordered by query index. "
     "Neither depends on the number of threads, the splitting of the work or the interleaving.",
     ["schedules", "inputs", "configurations"], "all images, descriptor sets, parameters, policies, team sizes and interleavings",
     "Lost or reordered keypoints need two threads to append at the same moment; tests print or count results of single runs.",
     anc(["image_operations.h"], ("per-row/per-query buffers merged in order", "image_operations.h: SIFT_impl::find_local_extrema, get_potential_keypoint, find_raw_matches, find_keypoint_matches, find_robust_matches"),
         observe_at=["return values"]),
     "5 scenarios; independent definitions of 3x3x3 extrema, ratio test and cross-check; every policy and team size under the seeded scheduler.")

prop("C06", "Random operations depend only on the caller's generator",
     "Operations that take a random generator (random real and integer images, robust homography estimation, homography between two images) are a function of their arguments and the generator's state alone: the same seed gives the same result and leaves the generator in the same state, whatever the threads, clocks and system entropy do, also with several clients at once. "
     "Random values always lie in the requested range.",
     ["schedules", "inputs", "configurations"], "all sizes, ranges, seeds, generators, interleavings, clocks and entropy",
     "A hidden dependence on entropy, time or thread order looks like ordinary randomness to a test that runs once.",
     anc(["image_operations.h"], ("generator passed by reference and drawn from in a fixed order", "image_operations.h: rand, randi, find_homography_robust, find_stitch_homography"),
         observe_at=["return values", "state of the generator passed in"]),
     "10 scenarios; clock, entropy and scheduler are the simulator's, so every hidden source differs from run to run; definitions drawn independently where the distribution fixes them.")

WSF = ["main.h"]
prop("C07", "A shared workspace is linearizable and hands out copies",
     "Storing, reading, removing, renaming, clearing and listing variables by several threads at once behaves as if the operations had been executed one after another in an order consistent with real time. "
     "A name means the same variable with or without surrounding quotes and blanks, and a value read is a snapshot that later operations on the workspace do not change.",
     ["schedules", "histories", "inputs"], "all histories of operations by any number of clients and all interleavings",
     "Tests are single-threaded; a missing or misplaced lock shows only in particular interleavings.",
     anc(WSF, ("variable map behind a shared mutex", "main.h: Workspace::store, retrieve, retrieve_any, remove, rename, clear, list_variables")),
     "Histories of 2-4 simulated clients are checked for linearizability against a map; the race detector watches every access.")

prop("C08", "A failed workspace operation changes nothing",
     "A workspace operation that fails, because memory runs out or because copying the value fails, throws to its caller and leaves every variable exactly as it was, with no stray names, no leaked memory and no lock left held. "
     "Other clients are neither disturbed nor blocked.",
     ["fault_sequences", "histories", "schedules"], "all histories and all points at which an allocation or copy can fail",
     "Tests never fail an allocation.",
     anc(WSF, ("strong exception guarantee of the variable map", "main.h: Workspace")),
     "Every allocation of an operation is a possible failure point chosen by the seed, followed by comparison with the reference map and with the heap before the operation.")

prop("C09", "transform_container is all-or-nothing under every policy",
     "Transforming a container with a command runs the command exactly once per element and stores the results in element order, the same for every execution policy. "
     "If the command fails or throws for any element the failure is reported, the output variable, the input container and all other variables keep their values and no temporary variable remains; other clients of the workspace are not disturbed.",
     ["schedules", "inputs", "fault_sequences"], "all containers, policies, failing elements, failing allocations and interleavings",
     "The tests do not run the command under parallel policies with failing elements, and cannot choose the interleaving.",
     anc(WSF, ("temporaries per element in the shared workspace", "main.h: handlers::transform_container, CommandRegistry::execute")),
     "Real registry and handler with commands that succeed, report, throw, run out of memory or store another type at seeded elements; vector, deque and list containers; failing allocations under the sequential policy.")

prop("C10", "Writers report success only for complete files",
     "Writing an image as BMP, PNM (P1, P2, P3), double or HSV bitmap, CSV or LaTeX reports success exactly when the file on disk afterwards is complete and holds the image and nothing else (nothing of an older file of that name); when opening, writing, flushing or closing fails, the disk is full or memory runs out, failure is reported. "
     "A write that fails leaks no memory, leaves no file handle open and touches no other file, and a request that is rejected does not touch the existing file.",
     ["fault_sequences", "inputs"], "all images and all sequences of storage and memory failures",
     "Tests write to a healthy disk; none fails a write, a close or an allocation.",
     anc(["image_io.cpp", "image_io.h", "image_operations.h"], ("stdio/ofstream writers that check every transfer and the close", "image_io.cpp: bmp_write, double_image::write, hsv_write; image_io.h: pnm::write, csv/print_with_latex_to_file"),
         observe_at=["return values and exceptions of the writers", "file contents"]),
     "Real libstdc++ streams and glibc stdio on an in-memory disk with write errors, full disk, failing open and close (losing the tail); files are judged by an independent parser.")

prop("C11", "Readers return what the file says or fail",
     "Reading a BMP, PNM, double or HSV bitmap or CSV file returns exactly the image the file encodes, or fails; a missing, truncated, corrupted, malformed or unreadable file never yields invented pixels and never crashes, hangs, reads outside its buffers or runs other programs. "
     "The same holds when a read fails part way or memory runs out, and nothing is leaked or left open.",
     ["inputs", "fault_sequences"], "all file contents, truncations, corruptions, read failures and allocation failures",
     "Tests read a few well-formed files from a healthy disk.",
     anc(["image_io.cpp", "image_io.h"], ("readers validate headers and every transfer", "image_io.cpp: bmp_read, double_image::read, hsv_read; image_io.h: pnm::read, csv reader"),
         observe_at=["return values and exceptions of the readers"]),
     "Files are generated, then truncated, bit-flipped, edited and read through a disk that fails; an independent parser decides what the file says; uninitialised memory is exposed by changing fill patterns.")

prop("C12", "Images survive a write and a read exactly",
     "An image written and read back in the same format is exactly the image written (to the precision the format states), also when system calls transfer fewer bytes than asked or are interrupted, when an older, longer file is overwritten, when the file was produced by another conforming program, and when several clients write and read different files at the same time. "
     "The bytes written depend only on the image.",
     ["inputs", "fault_sequences", "schedules"], "all images and formats, all patterns of short and interrupted transfers, all interleavings of clients",
     "The tests round-trip a few images on a disk that always transfers everything at once.",
     anc(["image_io.cpp", "image_io.h"], ("readers and writers of each format", "image_io.cpp, image_io.h"), observe_at=["read(write(image))", "file bytes"]),
     "Round trips over random images of all row paddings under short transfers and EINTR; encoder and parser written independently; clients on simulated threads.")

prop("C13", "Saved workspaces reload exactly, whatever fails or crashes",
     "Saving a workspace and loading it into another restores every saved image exactly; whatever is reported as saved or loaded is, and success is reported only if everything was. "
     "After a crash or storage failure at any point, loading gives each variable either a value it was saved with or nothing, never an invented one, one bad file does not keep the others from loading, and saving again repairs the bundle; a save that overlaps with other clients stores one state the workspace was really in.",
     ["crash_points", "fault_sequences", "schedules", "histories"], "all workspaces, crash points, storage failures and concurrent changes (bundle directory fresh or previously written with the same variable types)",
     "Tests neither crash the process nor fail the disk, and save from one thread.",
     anc(["main.h", "image_io.cpp"], ("one file per variable in a bundle directory", "main.h: handlers::save_workspace, load_workspace"), observe_at=["messages", "files", "loaded variables"]),
     "5 scenarios on the in-memory disk: healthy, failing and crashing at a seeded mutation with only durable (possibly torn) data surviving, damaged files, concurrent writers.")

prop("C14", "A session does what its commands say and survives every failure",
     "In an interactive session or a command-line run, every command and every pipeline has exactly the effect its stages describe on the variables and files it names: a pipeline gives what running its stages one by one through named variables gives, and a result never contains data of an earlier command. "
     "A command that fails (bad arguments, missing variable or file, unsupported type, full or failing disk, memory exhausted) says so, hands no data to later stages of its pipeline, leaves every other variable as it was and the session running; no input line ever terminates the session.",
     ["histories", "inputs", "fault_sequences"], "all command sequences, pipelines, argument lists, disk faults and allocation failures",
     "The repository's tests never run the command interpreter; the defects need a sequence (an earlier pipeline's leftovers), a failure in the middle of a pipeline, or an argument combination no one samples.",
     anc(["main.cpp", "main.h", "image_io.cpp"], ("read-eval loop and pipeline execution with intermediate variables", "main.cpp: main, command registrations; main.h: CommandRegistry, PipelineOptimizer, MetaTransformHandler, handlers::*"),
         observe_at=["terminal output", "variables (via print, write and save_workspace)", "files written"]),
     "5 scenarios run the whole program (main() included) on a simulated terminal and disk: random sessions and one-shot command lines against a reference interpreter, with disk faults, allocation failures and failing stages, and arbitrary lines for survival.")

prop("C19", "Plug-ins: every command is there, and no code outlives its library",
     "Every plug-in module in a scanned directory (at start or by load_plugins, once or repeatedly) that can be loaded is loaded and reported, and from then on each of its commands works like a built-in one, alone, in pipelines and in transform_container: abs, max, min, sum, add, subtract and replace give exactly the described result under every execution policy. "
     "A module that cannot be loaded, has no entry point or fails while registering is skipped without affecting the others; no plug-in replaces a command that exists. "
     "Whatever fails (module, disk, memory) and whatever the session does until its end, no code or data of a plug-in - a command, or a value one of its commands stored - is used, copied or destroyed after its library was unloaded, no library is unloaded more often than it was loaded, and an unreadable plug-in directory does not end the program.",
     ["histories", "fault_sequences", "inputs"], "all sets of modules, sequences of commands and loads, loader, disk and allocation failures",
     "The tests load no plug-in at all; the defects need a failing module, a failing disk at start, memory running out in the middle of a registration, or a value of a plug-in alive at exit.",
     anc(["main.cpp", "dynamic_loader.h", "main.h", "plugin_math.cpp", "plugin_math_add.cpp", "plugin_replace.cpp"], ("library handles held until exit, first registration of a name wins", "main.cpp: load_plugins, main; dynamic_loader.h: DynamicLibrary; main.h: CommandRegistry::register_command, handlers::abs, max, min, sum, add, subtract, replace"),
         observe_at=["terminal output", "variables and files", "calls of the dynamic loader"]),
     "4 scenarios run the whole program with its real plug-ins on a simulated dynamic loader that knows at every moment which library is mapped; toy plug-ins register guard objects that report any use after unloading. Sessions are checked by the reference interpreter of C14.")

prop("C15", "Timers measure elapsed time whatever the clock does",
     "A timer's elapsed time equals the time that really passed since it was started: it is never negative, never decreases while running, and is unaffected by the wall clock being stepped forwards or backwards, by other timers or by other threads.",
     ["fault_sequences", "histories", "schedules"], "all histories of timer use and all wall-clock steps",
     "A test cannot step the system clock.",
     anc(["timer.h"], ("monotonic clock", "timer.h: Timer")),
     "The simulator owns both clocks; wall-clock jumps are injected at seeded moments and readings are compared with the true simulated time.")

prop("C17", "Progress reports are serial, increasing and truthful",
     "While a windowed filter or a single-image bilateral filter runs with a progress callback, the callback is never entered by two threads at once, the reported fractions are strictly increasing within (0, 1], no report is ahead of the work completed, and the last report comes within one reporting step of the end. "
     "The filter's result is the same as without a callback.",
     ["schedules", "inputs", "configurations"], "all images, windows, policies, worker counts and interleavings",
     "Reports overtake each other only in particular interleavings.",
     anc(["image_operations.h"], ("atomic counter and mutex around the callback", "image_operations.h: windowed_filter, bilateral_filter"), observe_at=["callback invocations"]),
     "The callback yields to the scheduler and checks every invocation against the count of pixels actually completed.")

prop("C16", "Image operations are re-entrant and keep no hidden state",
     "Any number of threads may run image operations at the same time on shared read-only inputs: each call gives exactly the result it gives alone, without data races, and the shared inputs are left unchanged. "
     "No call leaves anything behind that changes the result of a later call with other arguments.",
     ["schedules", "histories", "inputs"], "all combinations and sequences of operations, shared inputs and interleavings of their callers",
     "The tests call one operation at a time, from one thread, mostly once per process.",
     anc(["image_operations.h", "image.h", "basic_functions.h", "histogram.h"], ("operations without shared mutable state (no caches, static tables or globals)", "image_operations.h: arithmetic, colour conversion, channel access, resizing, transforms, filters, drawing, histograms, keypoint descriptors"), observe_at=["return values"]),
     "About two hundred and ten operations with changing parameters; one to four clients run seeded sequences of them on shared images of equal and differing sizes; results compared with the same calls made alone in a process of their own; buffers are also reused with other contents; vector-clock race detector.")

prop("C18", "Image operations survive running out of memory",
     "When memory runs out at any point inside an image operation (copying, assignment, arithmetic, channel access, conversion, cropping, joining, resizing, transforms, drawing, histograms, octaves, perspective warps, blending, keypoint detection), the caller gets an exception, never a wrong result or a terminated program; operands are unchanged, nothing is leaked and the operation can be repeated. "
     "Assigning to an image is all or nothing: its size always fits its pixels. (Filters whose work runs inside a standard execution policy are outside: the C++ standard terminates there.)",
     ["fault_sequences", "inputs", "schedules"], "all operations listed, all inputs and every allocation that can fail",
     "Tests never fail an allocation.",
     anc(["image.h", "image_operations.h"], ("exception safety of Image and of the operations, also inside OpenMP regions and channel tasks", "image.h: Image; image_operations.h"), observe_at=["exceptions", "operands", "heap"]),
     "The simulator's allocator fails a seeded allocation (once or from then on) during each of about a hundred and eighty operations; operands, results, heap balance and a repetition are checked.")

na("C90", "Transforms invert each other on every input",
   "The 2-D and 3-D cosine transforms, the discrete Fourier transform and the colour-space conversions followed by their inverses return the original image up to floating-point rounding.",
   ["inputs"], "all images", "The tests try a few images.",
   anc(["image_operations.h"], ("closed-form transforms", "image_operations.h: dct2/idct2, dct3/idct3, dft2/idft2, rgb2hsv/hsv2rgb")),
   "A pure function of its input on one thread: no schedule, time, I/O or fault takes part, so deterministic simulation would only be random input testing under another name (its schedule-dependent side, that all interleavings agree, is C01/C02).")
na("C91", "Linear algebra and homography estimation are mathematically correct",
   "Matrix products, inverses, decompositions and the estimated homographies satisfy their defining equations up to rounding for every well-conditioned input.",
   ["inputs"], "all well-conditioned matrices and point sets", "The tests try a few matrices.",
   anc(["linear_algebra.h", "image_operations.h"], ("direct numerical algorithms", "linear_algebra.h")),
   "Single-threaded pure numerics: nothing for a simulated scheduler or fault injector to vary.")
na("C92", "Pixel arithmetic and interpolation are numerically accurate",
   "Resampling and filtering approximate their continuous definitions within the documented error for every image.",
   ["inputs"], "all images and parameters", "The tests compare a few outputs.",
   anc(["image_operations.h"], ("interpolation kernels", "image_operations.h: copyResizeBicubic, lanczos_resample")),
   "Accuracy against the continuous definition does not depend on schedule, time, I/O or faults; that every schedule gives the same pixels is C01/C02.")
