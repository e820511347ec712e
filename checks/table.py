COMMON_STUBS = [
    "OpenMP runtime (libgomp) -> seeded team/worksharing runtime", "TBB task scheduler under libstdc++ parallel algorithms -> seeded task scheduler",
    "pthread scheduling, futex, clock, entropy, heap -> simulator", "file system below /simfs -> in-memory disk with faults"]
COMMON_ASSUMPTIONS = [
    "sampling, not enumeration: a clean batch is evidence over the seeds run",
    "sequentially consistent interleavings at instrumented memory accesses; unordered conflicting accesses are reported as races",
    "code inside precompiled libstdc++/libc is not instrumented (its calls into the kernel and pthreads are)"]
PROPS = {}


def P(id, src, quick, thorough, real, **k):
    PROPS[id] = dict(src=src, quick=quick, thorough=thorough, real=real, **k)


P("C01", ["c01.cpp"], 40000, 3000000, ["image_operations.h OpenMP pixel operations", "image.h", "basic_functions.h"])
P("C02", ["c02a.cpp", "c02b.cpp", "c02c.cpp", "c02d.cpp", "c02e.cpp"], 55000, 2000000, ["image_operations.h execution-policy overloads", "basic_functions.h", "image.h"])
P("C03", ["c03a.cpp", "c03b.cpp"], 40000, 2000000, ["image_operations.h reductions and distances", "basic_functions.h recursive reductions", "histogram.h"])
P("C04", ["c04.cpp"], 40000, 2000000, ["image_operations.h channel-wise application and the operations built on it", "libstdc++ std::async, futures"])
P("C05", ["c05.cpp"], 10000, 600000, ["image_operations.h keypoint detection (SIFT) and descriptor matching"])
P("C06", ["c06.cpp"], 12000, 600000, ["image_operations.h random images, robust homography estimation, stitching"])
RED = ["-DTINYDIP_SIM_REDUCED_TYPES"]
P("C07", ["c07.cpp"], 60000, 3000000, ["main.h Workspace"], repo=["image_io.cpp"], flags=RED)
P("C08", ["c08.cpp"], 60000, 3000000, ["main.h Workspace"], repo=["image_io.cpp"], flags=RED)
P("C09", ["c09.cpp"], 40000, 2000000, ["main.h transform_container, CommandRegistry, Workspace"], repo=["image_io.cpp"], flags=RED)
P("C10", ["c10.cpp"], 60000, 3000000, ["image_io.cpp/.h writers (bmp, pnm, dbmp, hsv, csv)", "print_with_latex_to_file", "libstdc++ file streams, glibc stdio"], repo=["image_io.cpp"])
P("C11", ["c11.cpp"], 80000, 4000000, ["image_io.cpp/.h readers (bmp, pnm, dbmp, hsv, csv)", "libstdc++ file streams, glibc stdio"], repo=["image_io.cpp"])
P("C12", ["c12.cpp"], 40000, 2000000, ["image_io.cpp/.h readers and writers", "libstdc++ file streams, glibc stdio"], repo=["image_io.cpp"])
P("C13", ["c13.cpp"], 40000, 2000000, ["main.h save_workspace/load_workspace, Workspace", "image_io.cpp", "libstdc++ std::filesystem"], repo=["image_io.cpp"], flags=RED)
P("C15", ["c15.cpp"], 40000, 1000000, ["timer.h", "libstdc++ chrono"])
P("C17", ["c17.cpp"], 20000, 800000, ["image_operations.h windowed_filter, bilateral_filter"])
P("C16", ["c16.cpp", "c16a.cpp", "c16b.cpp", "c16c.cpp", "c16d.cpp", "c16e.cpp"], 14000, 2000000, ["image_operations.h, image.h, basic_functions.h, histogram.h: about two hundred and ten operations"])
P("C18", ["c18.cpp", "c16a.cpp", "c16b.cpp", "c16c.cpp", "c16d.cpp"], 40000, 2000000, ["image.h", "image_operations.h operations and arithmetic"])
P("C14", ["c14.cpp"], 16000, 600000, ["main.cpp and main.h: read-eval loop, pipelines, optimizer, all built-in commands", "image_io.cpp", "image_operations.h"], repo=["main.cpp", "image_io.cpp"], flags=RED,
  repo_opt="-O0", repo_flags=["-Dmain=td_main"])
DL = ["-Dmain=td_main"] + ["-D%s=sim_%s" % (f, f) for f in ("dlopen", "dlsym", "dlclose", "dlerror")]
P("C19", ["c19.cpp"], 40000, 600000, ["main.cpp: load_plugins, read-eval loop, program start and end", "dynamic_loader.h", "plugin_math.cpp, plugin_math_add.cpp, plugin_replace.cpp and their commands in main.h", "image_io.cpp"],
  repo=[("main.cpp", DL), "image_io.cpp"] + [(f + ".cpp", ["-Dregister_plugin_commands=reg_" + f]) for f in ("plugin_math", "plugin_math_add", "plugin_replace")], flags=RED, repo_opt="-O0",
  stub=["dlopen, dlsym, dlclose, dlerror -> simulated loader"])
