"""Build recipes of the simulation harnesses and the per-property settings of check.py."""

CXX_DEFS = ["-DSTRICT_ERROR_EXCEPTIONS", "-DSTRICT_REMOVE_NODISCARD"]

# id, element type, alignment, part of the quick tier
ARRAY_INSTANCES = [
    (0, "int", "Aligned", True),
    (1, "double", "Unaligned", True),
    (2, "unsigned long", "Aligned", True),
    (3, "long", "Unaligned", False),
    (4, "float", "Aligned", False),
    (5, "long double", "Unaligned", False),
]


_ARR_COST = {"api2": 29, "apix": 26, "view": 17, "api1": 17, "alg1": 22, "alg2": 16, "iter": 16, "slc": 20, "d1": 11, "misc": 10, "d3": 9.7,
             "d2": 8, "big": 8}
_ARR_CALLS = ("api2", "apix", "api1", "d1", "misc", "d3", "d2", "big")
_ARR_QUERY = ("alg1", "alg2", "d1", "d2", "d3")
_QUAD = ["-DSTRICT_QUAD_PRECISION"]


def _array_exe(name, inst, defs, groups, repo, sim, units):
    """Units and link of one array executable; inst: (id, type, alignment); groups: the steps it takes.

    Returns its links entry."""
    quad = any(i[1] == "__float128" for i in inst)
    common = ["-std=gnu++20", "-I" + repo, "-I" + sim, "-g0"] + defs + (_QUAD if quad else [])
    cl = ["clang++", "-O1", "-fsanitize=address"] + common
    gc = ["g++", "-O0", "-fsanitize=address"] + common
    if quad:
        cl = ["g++", "-O1", "-fsanitize=address"] + common
        gc = None
    objs = []

    def add(src, obj, cmd, cost, fb=None):
        units.append({"src": src, "obj": obj, "cmd": cmd, "cost": cost, "fallback": fb})
        objs.append(obj)

    pre = "" if name == "arrays" else name + "_"
    for src, c in (("core", 3), ("alloc", 1), ("asserts", 1)):
        add(src + ".cpp", pre + src + ".o", cl, c)
    ilist = "-DSIM_INSTANCES(X)=" + " ".join("X(%d)" % i[0] for i in inst)
    add("h_arrays_main.cpp", pre + "main.o", cl + [ilist], 2)
    stubs = [g for g in _ARR_COST if g not in groups]
    for i, t, af in inst:
        d = ["-DSIM_ID=%d" % i, "-DSIM_T=" + t, "-DSIM_AF=spp::" + af]
        if t == "double" and af == "Unaligned":
            d += ["-DSTRICT_ENABLE_EIGEN", "-isystem", "/usr/include/eigen3"]
        fb = gc + d if gc else None
        add("h_arrays_inst.cpp", pre + "i%d_run.o" % i, cl + d + ["-DSIM_RUN"], 4, fb and fb + ["-DSIM_RUN"])
        if stubs:
            e = ["-DSIM_STUB"] + ["-DSTUB_" + g for g in stubs]
            add("h_arrays_inst.cpp", pre + "i%d_stubs.o" % i, cl + d + e, 3, fb and fb + e)
        for g in _ARR_COST:
            if g in groups:
                body = "apib" if g == "apix" and t == "bool" else g
                e = ['-DSIM_LIST="arrays_i_%s.inc"' % g, '-DSIM_BODY="arrays_g_%s.inc"' % body]
                add("h_arrays_inst.cpp", pre + "i%d_%s.o" % (i, g), cl + d + e, _ARR_COST[g],
                    [f + e for f in ([fb] if fb else [])] + ([cl + d + e + ["-DSIM_NO_SAME"]] if g in ("alg1", "alg2") else []))
    link = ["g++" if quad else "clang++", "-fsanitize=address"]
    return (name, link, objs, ["-lquadmath"] if quad else [])


def arrays(prop, tier, repo, sim):
    inst = [i[:3] for i in ARRAY_INSTANCES if tier == "thorough" or i[3]]
    units = []
    groups = _ARR_CALLS + (("view",) if prop in ("C06", "C08") else ())
    return units, [_array_exe("arrays", inst, CXX_DEFS, groups, repo, sim, units)]


NODIS = ["-DSTRICT_REMOVE_NODISCARD"]


def arrays_assert(prop, tier, repo, sim):
    """The default build: errors by assert(), which is replaced by sim/assertshim/assert.h."""
    inst = [i[:3] for i in ARRAY_INSTANCES if tier == "thorough" or i[3]]
    defs = NODIS + ["-DSIM_ASSERTS", "-I" + sim + "/assertshim"]
    units = []
    return units, [_array_exe("arrays_assert", inst, defs, _ARR_CALLS, repo, sim, units)]


def arrays_conf(prop, tier, repo, sim):
    shim = ["-DSIM_ASSERTS", "-I" + sim + "/assertshim"]
    off = ["-DSTRICT_DEBUG_OFF"]
    confs = [("arrays_release", [(0, "int", "Aligned")], off + ["-DNDEBUG"]),
             ("arrays_default", [(1, "double", "Unaligned")], shim),
             ("arrays_nodebug", [(2, "unsigned long", "Aligned")], off + ["-DSTRICT_ERROR_EXCEPTIONS"]),
             ("arrays_bool", [(6, "bool", "Unaligned")], ["-DSTRICT_ERROR_EXCEPTIONS"]),
             ("arrays_quad", [(7, "__float128", "Aligned")], ["-DSTRICT_ERROR_EXCEPTIONS"])]
    if tier == "thorough":
        confs += [("arrays_ndebug", [(3, "long", "Unaligned")], ["-DNDEBUG"])]
    units = []
    return units, [_array_exe(n, i, NODIS + d, _ARR_CALLS + ("view",), repo, sim, units) for n, i, d in confs]


def arrays_query(prop, tier, repo, sim):
    inst = [i[:3] for i in ARRAY_INSTANCES if tier == "thorough" or i[3]] + [(6, "bool", "Unaligned")]
    units = []
    return units, [_array_exe("arrays_query", inst, CXX_DEFS, _ARR_QUERY, repo, sim, units),
                   _array_exe("arrays_query_quad", [(7, "__float128", "Aligned")], CXX_DEFS, _ARR_QUERY, repo, sim, units)]


# id, element type, alignment
STREAM_INSTANCES = [
    (0, "int", "Aligned"), (1, "double", "Unaligned"), (2, "unsigned long", "Aligned"), (3, "bool", "Unaligned"),
    (4, "long double", "Aligned"), (5, "float", "Unaligned"), (6, "long", "Aligned"), (7, "unsigned", "Unaligned"),
]


def streams(prop, tier, repo, sim):
    common = ["-std=gnu++20", "-I" + repo, "-I" + sim, "-g0"] + CXX_DEFS
    cl = ["clang++", "-O1", "-fsanitize=address"] + common
    gc = ["g++", "-O0", "-fsanitize=address"] + common
    gq = ["g++", "-O1", "-fsanitize=address", "-DSTRICT_QUAD_PRECISION"] + common
    base = ["core", "alloc", "vfs"]
    units = [{"src": b + ".cpp", "obj": b + ".o", "cmd": cl, "cost": 2} for b in base]

    def exe(name, insts, cmd, fb, link, libs):
        units.append({"src": "h_streams_main.cpp", "obj": name + "_main.o", "cost": 1,
                      "cmd": cmd + ["-DSIM_INSTANCES(X)=" + " ".join("X(%d)" % i[0] for i in insts)]})
        objs = [b + ".o" for b in base] + [name + "_main.o"]
        for i, t, af in insts:
            d = ["-DSIM_ID=%d" % i, "-DSIM_T=" + t, "-DSIM_AF=spp::" + af]
            units.append({"src": "h_streams_inst.cpp", "obj": "%s_i%d.o" % (name, i), "cmd": cmd + d,
                          "fallback": fb + d if fb else None, "cost": 5})
            objs.append("%s_i%d.o" % (name, i))
        return (name, link, objs, libs)

    lc = ["clang++", "-fsanitize=address"]
    links = [exe("streams", STREAM_INSTANCES[:5] if tier != "thorough" else STREAM_INSTANCES, cl, gc, lc, []),
             exe("streams_off", STREAM_INSTANCES[:2], cl + ["-DSTRICT_DEBUG_OFF"], gc + ["-DSTRICT_DEBUG_OFF"], lc, []),
             exe("streams_quad", [(8, "__float128", "Aligned")], gq, None, ["g++", "-fsanitize=address"],
                 ["-lquadmath"])]
    return units, links


RANDOM_INSTANCES = [
    (0, "int", "Aligned"), (1, "double", "Unaligned"), (2, "unsigned long", "Aligned"), (3, "bool", "Unaligned"),
    (4, "float", "Aligned"), (5, "long double", "Unaligned"), (6, "long", "Aligned"), (7, "unsigned", "Unaligned"),
]


def random_h(prop, tier, repo, sim):
    common = ["-std=gnu++20", "-I" + repo, "-I" + sim, "-g0"] + CXX_DEFS
    cl = ["clang++", "-O1", "-fsanitize=address"] + common
    gc = ["g++", "-O0", "-fsanitize=address"] + common
    gq = ["g++", "-O1", "-fsanitize=address", "-DSTRICT_QUAD_PRECISION"] + common
    tm = ["-Wno-builtin-macro-redefined", "-D__TIME__=sim_time"]
    base = ["core", "alloc", "entropy"]
    units = [{"src": b + ".cpp", "obj": b + ".o", "cmd": cl, "cost": 2} for b in base]

    def exe(name, insts, cmd, fb, link, libs):
        units.append({"src": "h_random_main.cpp", "obj": name + "_main.o", "cost": 1,
                      "cmd": cmd + ["-DSIM_INSTANCES(X)=" + " ".join("X(%d)" % i[0] for i in insts)]})
        objs = [b + ".o" for b in base] + [name + "_main.o"]
        for i, t, af in insts:
            d = ["-DSIM_ID=%d" % i, "-DSIM_T=" + t, "-DSIM_AF=spp::" + af] + tm
            units.append({"src": "h_random_inst.cpp", "obj": "%s_i%d.o" % (name, i), "cmd": cmd + d,
                          "fallback": fb + d if fb else None, "cost": 5})
            objs.append("%s_i%d.o" % (name, i))
        return (name, link, objs, libs)

    links = [exe("random", RANDOM_INSTANCES[:5] if tier != "thorough" else RANDOM_INSTANCES, cl, gc,
                 ["clang++", "-fsanitize=address"], []),
             exe("random_quad", [(8, "__float128", "Aligned")], gq, None, ["g++", "-fsanitize=address"],
                 ["-lquadmath"])]
    return units, links


def timer_h(prop, tier, repo, sim):
    cmd = ["clang++", "-O1", "-std=gnu++20", "-I" + repo, "-I" + sim, "-g0"] + CXX_DEFS
    gc = ["g++", "-O0", "-std=gnu++20", "-I" + repo, "-I" + sim, "-g0"] + CXX_DEFS
    units = [{"src": b + ".cpp", "obj": b + ".o", "cmd": cmd, "cost": 2} for b in ("core", "alloc", "clock")]
    units.append({"src": "h_timer.cpp", "obj": "h_timer.o", "cmd": cmd, "fallback": gc, "cost": 4})
    return units, [("timer", ["clang++"], [u["obj"] for u in units])]


# id, element type, alignment, part of the quick tier
THREAD_INSTANCES = [
    (0, "int", "Aligned", True), (1, "double", "Unaligned", True), (2, "unsigned long", "Aligned", False),
    (3, "float", "Unaligned", False), (4, "long double", "Aligned", False), (5, "long", "Unaligned", False),
]


def threads_h(prop, tier, repo, sim):
    # The compiler reports every memory access of the library and of the libstdc++ templates it uses to
    # sim/thr.cpp, which is linked in place of the thread sanitizer's runtime.
    common = ["-std=gnu++20", "-O1", "-I" + repo, "-I" + sim, "-g0"] + CXX_DEFS
    ts = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    units = [{"src": "core.cpp", "obj": "core.o", "cmd": ["clang++"] + common, "cost": 2},
             {"src": "thr.cpp", "obj": "thr.o", "cmd": ["g++", "-fno-builtin"] + common, "cost": 2}]

    def exe(name, insts, cmd, fb, libs):
        units.append({"src": "h_threads_main.cpp", "obj": name + "_main.o", "cost": 1,
                      "cmd": ["clang++"] + common + ["-DSIM_INSTANCES(X)=" + " ".join("X(%d)" % i[0] for i in insts)]})
        objs = ["core.o", "thr.o", name + "_main.o"]
        for i in insts:
            d = ["-DSIM_ID=%d" % i[0], "-DSIM_T=" + i[1], "-DSIM_AF=spp::" + i[2]]
            units.append({"src": "h_threads_inst.cpp", "obj": "%s_i%d.o" % (name, i[0]), "cmd": cmd + common + ts + d,
                          "fallback": fb + common + ts + d if fb else None, "cost": 6})
            objs.append("%s_i%d.o" % (name, i[0]))
        return (name, ["g++", "-rdynamic"], objs, libs + ["-pthread", "-ldl"])

    insts = [i for i in THREAD_INSTANCES if tier == "thorough" or i[3]]
    links = [exe("threads", insts, ["clang++"], ["g++"], []),
             exe("threads_quad", [(8, "__float128", "Aligned")], ["g++", "-DSTRICT_QUAD_PRECISION"], None, ["-lquadmath"])]
    return units, links


def arrays_iter(prop, tier, repo, sim):
    inst = [i[:3] for i in ARRAY_INSTANCES if tier == "thorough" or i[3]]
    units = []
    return units, [_array_exe("arrays_iter", inst, CXX_DEFS, ("iter", "d1", "d2", "d3"), repo, sim, units)]


def arrays_slice(prop, tier, repo, sim):
    inst = [i[:3] for i in ARRAY_INSTANCES if tier == "thorough" or i[3]] + [(6, "bool", "Unaligned")]
    units = []
    return units, [_array_exe("arrays_slice", inst, CXX_DEFS, ("slc", "d1", "d2", "d3"), repo, sim, units)]


# name, instances, compiler, extra flags
NUM_EXES = [
    ("num", [(0, "int"), (1, "double"), (2, "unsigned long")], "clang++", ["-fsanitize=address", "-DSTRICT_ERROR_EXCEPTIONS"]),
    ("num_default", [(3, "float"), (4, "bool"), (5, "unsigned")], "clang++", ["-fsanitize=address", "-DSIM_ASSERTS", "SHIM"]),
    ("num_release", [(6, "long"), (7, "long double")], "g++", ["-DNDEBUG", "-DSTRICT_DEBUG_OFF", "-DSIM_NOREJECT"]),
    ("num_quad", [(8, "__float128")], "g++", ["-fsanitize=address", "-DSTRICT_ERROR_EXCEPTIONS", "-DSTRICT_QUAD_PRECISION"]),
]


def num_h(prop, tier, repo, sim):
    units, links = [], []
    for name, inst, cxx, flags in NUM_EXES:
        if prop == "C27":
            inst = [i for i in inst if i[1] in ("float", "double", "long double", "__float128")]
        common = ["-std=gnu++20", "-I" + repo, "-I" + sim, "-g0"] + NODIS + [
            "-I" + sim + "/assertshim" if f == "SHIM" else f for f in flags]
        cmd = [cxx, "-O1"] + common
        fb = None if name == "num_quad" else ["g++" if cxx == "clang++" else "clang++", "-O0"] + common
        objs = []
        for b in ("core", "alloc", "asserts"):
            units.append({"src": b + ".cpp", "obj": name + "_" + b + ".o", "cmd": cmd, "cost": 2})
            objs.append(name + "_" + b + ".o")
        units.append({"src": "h_num_main.cpp", "obj": name + "_main.o", "cost": 2,
                      "cmd": cmd + ["-DSIM_INSTANCES(X)=" + " ".join("X(%d)" % i[0] for i in inst)]})
        objs.append(name + "_main.o")
        for i, t in inst:
            d = ["-DSIM_ID=%d" % i, "-DSIM_T=" + t]
            units.append({"src": "h_num_inst.cpp", "obj": "%s_i%d.o" % (name, i), "cmd": cmd + d,
                          "fallback": fb and fb + d, "cost": 20})
            objs.append("%s_i%d.o" % (name, i))
        san = ["-fsanitize=address"] if "-fsanitize=address" in flags else []
        links.append((name, [cxx] + san, objs, ["-lquadmath"] if name == "num_quad" else []))
    return units, links


HARNESSES = {"arrays_slice": arrays_slice, "num": num_h, "arrays_iter": arrays_iter, "arrays_query": arrays_query, "arrays_assert": arrays_assert, "arrays_conf": arrays_conf, "threads": threads_h, "arrays": arrays, "streams": streams, "random": random_h, "timer": timer_h}

_ARR_REAL = ["Array1D/Array2D/FixedArray1D/FixedArray2D, slices, expressions and algorithms of /repo/strictpp",
             "libstdc++ streams and containers used by the library"]
_ARR_STUB = ["global operator new/delete (tracking allocator with injected failures; ASan heap underneath)",
             "operand callables (throw on the simulator's command)"]
_ARR_ASSUME = ["element types int, double, unsigned long (thorough: also long, float, long double); "
               "bool and __float128 elements are not driven here",
               "operands that alias the target of an element-wise assignment are not generated: the library "
               "documents no aliasing guarantee"]


def _arr(rule, level="exploration", seconds=(22, 420)):
    return {"harness": "arrays", "seconds": seconds, "level": level, "rule": rule, "real": _ARR_REAL,
            "stub": _ARR_STUB, "assumptions": _ARR_ASSUME}



def _str(rule, level="exploration", seconds=(24, 420)):
    return {"harness": "streams", "seconds": seconds, "level": level, "rule": rule,
            "real": ["array_IO.hpp, strict_IO.hpp and the arrays of /repo/strictpp, with and without STRICT_DEBUG_OFF, "
                     "and with STRICT_QUAD_PRECISION", "libstdc++ iostreams, libc number conversion, libquadmath"],
            "stub": ["stream buffers (chunked delivery, errors)", "fopen/read/write/writev/fclose below std::fstream "
                     "(errors, short and interrupted transfers) over scratch files on tmpfs",
                     "global operator new/delete"],
            "assumptions": ["the C locale", "texts with tokens whose meaning is ambiguous (\"1-2\", \"-1\" for an "
                            "unsigned element, underflow, overflow to infinity in __float128) may be accepted or rejected",
                            "quick tier: int, double, unsigned long, bool, long double, __float128; "
                            "thorough: also float, long, unsigned"]}


def _rnd(rule, level="exploration", seconds=(20, 420)):
    return {"harness": "random", "seconds": seconds, "level": level, "rule": rule,
            "real": ["random.hpp, semi_random.hpp, shuffle and the arrays of /repo/strictpp",
                     "std::mt19937, the standard distributions and std::shuffle of libstdc++"],
            "stub": ["std::random_device (simulated entropy: counting, random, constant, alternating, failing)",
                     "__TIME__ (simulated build second)"],
            "assumptions": ["bounds whose difference is exactly representable (otherwise rounding in the standard "
                            "distribution may reach past the upper bound)",
                            "quick tier: int, double, unsigned long, bool, float, __float128; thorough: also long double, "
                            "long, unsigned"]}


def _num(rule, seconds=(24, 420), assumptions=()):
    return {"harness": "num", "seconds": seconds, "level": "exploration", "rule": rule,
            "real": ["strict_val, strict_math, strict_literals, error_tools, array_ops, array_stable_ops and the arrays of "
                     "/repo/strictpp, in four build configurations (exceptions; default assert(); release with NDEBUG and "
                     "STRICT_DEBUG_OFF; quadruple precision)", "libm and libquadmath"],
            "stub": ["global operator new/delete (tracking allocator with injected failures)",
                     "assert() in the default configuration (unwinds to the simulator)"],
            "assumptions": ["operations whose builtin counterpart has undefined behaviour (signed overflow, shifts past the "
                            "width, conversions out of range) are not performed"] + list(assumptions)}


def _thr(rule, seconds=(24, 420)):
    return {"harness": "threads", "seconds": seconds, "level": "exploration", "rule": rule,
            "real": ["all of /repo/strictpp, instrumented, on real threads run one at a time",
                     "the libstdc++ templates it instantiates (streams, strings, vectors, sort, random engines), instrumented"],
            "stub": ["the thread scheduler and the locks (simulated)", "global operator new/delete (injected failures)",
                     "std::random_device (simulated entropy per thread)", "the console under std::cout (recorded)"],
            "assumptions": ["memory is sequentially consistent: an access that could behave otherwise is a data race and is "
                            "reported as such", "spp::format and spp::array_format are set before the threads start",
                            "precompiled parts of libstdc++, libc and libquadmath are race-free as documented; what they "
                            "read and write through the usual memory and formatting functions is tracked"]}


PROPERTIES = {
    "C01": _arr("random histories of 3-60 calls on three 1-D and three 2-D arrays; every allocating call is "
                "repeated with its k-th allocation failing (once or persistently) for k=1,2,.. until it "
                "succeeds; a case is one injected failure, distinct by (shapes of all arrays, operation, "
                "operand form, failing allocation)", "fault_enumeration"),
    "C02": _arr("random histories interleaved with invalid calls (out-of-range, negative, oversized, "
                "mismatched, unordered), some while memory is exhausted; a case is one invalid call, distinct "
                "by (shapes of all arrays, call variant, outcome, memory fault)"),
    "C03": _arr("random histories whose operands throw at the k-th element for k=1,2,..; a case is one thrown "
                "operand, distinct by (shapes of all arrays, operation, throwing element)", "fault_enumeration"),
    "C04": _arr("random histories of calls, half of them with failing allocations and throwing operands, "
                "compared after every step with a vector model; a case is one step, distinct by (shapes of all "
                "arrays, operation, operand form, fault)"),
    "C05": _arr("random histories of calls, half of them with failing allocations and throwing operands, "
                "compared after every step with a matrix model; a case is one step, distinct by (shapes of all "
                "arrays, operation, operand form, fault)"),
    "C06": _arr("random histories under mixed faults (failing allocations by count and by size, throwing "
                "operands, invalid calls) with every allocation tracked; a case is one step, distinct by "
                "(shapes of all arrays, operation, fault, outcome)"),
    "C07": _arr("random histories of moves, swaps and steals performed while every allocation fails; a case is "
                "one such call, distinct by (shapes of all arrays, operation)"),
    "C08": _arr("random histories of views and expressions kept alive while their arrays change, evaluated "
                "through five access paths, some evaluations aborted by faults; a case is one evaluation or "
                "write, distinct by (shapes, view kind, access path, fault)"),
    "C21": dict(_arr("random histories interleaved with invalid calls (out-of-range, negative, oversized, mismatched, "
                     "unordered), some while memory is exhausted, in the build that reports errors by assert(); a case is "
                     "one invalid call, distinct by (shapes of all arrays, call variant, outcome, memory fault)"),
                harness="arrays_assert", stub=_ARR_STUB + ["assert() (unwinds to the simulator instead of aborting)"]),
    "C22": dict(_arr("random histories of calls and of views over changing arrays, half of them with failing allocations and "
                     "throwing operands, compared after every step with sequence and matrix models, in each build "
                     "configuration; a case is one step, distinct by (shapes of all arrays, operation, operand form, fault)",
                     seconds=(30, 420)),
                harness="arrays_conf", stub=_ARR_STUB + ["assert() in the default configuration"]),
    "C23": dict(_arr("random histories of calls on arrays with queries in between - reductions, extrema, norms, products, "
                     "polynomials, predicates, comparisons, selections - on arrays, fixed arrays, slices and expressions, "
                     "some with throwing predicates or elements and failing allocations, some invalid; a case is one step, "
                     "distinct by (shapes of all arrays, query, operand form, fault)"),
                harness="arrays_query", assumptions=[
                    "small whole numbers, for which every order of summation gives the same result; roots and quotients "
                    "are compared to 13 digits (float: 5)",
                    "quick tier: int, double, unsigned long, bool, __float128; thorough: also long, float, long double"]),
    "C24": dict(_arr("random histories of calls on arrays with iterators in between: random walks of iterators over arrays, "
                     "rows, columns, slices and expressions, iterators kept while their array changes its size, some used "
                     "outside their range or on different arrays; a case is one step, distinct by (shapes of all arrays, "
                     "operation, kind of iterator, fault)"), harness="arrays_iter"),
    "C28": dict(_arr("random histories of calls on arrays with chains of up to three slices in between - of arrays, fixed arrays, "
                     "expressions, rows, columns, diagonals and matrices - read and written, the last one with any start, size and "
                     "stride up to the limits of the index type, some with failing allocations; a case is one chain, distinct by "
                     "(shapes of all arrays, operation, fault)"), harness="arrays_slice",
                assumptions=["quick tier: int, double, unsigned long, bool; thorough: also long, float, long double"]),
    "C25": _num("random programs of 4-50 steps on six numbers and three flags, values from zero to the edges of the type, "
                "infinities and NaNs, invalid calls and failing allocations in between; a case is one result, distinct by "
                "(operation, operands)"),
    "C26": _num("random histories of filling and updating three arrays and two matrices by element-wise expressions over "
                "arbitrary values, read back through five access paths, with failing allocations; a case is one expression, "
                "distinct by (operation, values)"),
    "C27": _num("random histories of building ill-conditioned data and running compensated and scaled algorithms and error "
                "metrics on it, with failing allocations; a case is one result, distinct by (algorithm, data)",
                assumptions=["results that overflow or underflow on the way are not compared"]),
    "C09": _str("random sequences of 1-D stream reads: generated texts of 0-40 tokens, a malformed token anywhere, "
                "random delivery, truncation, bit flips, lost blocks, stream errors and failed allocations; a case "
                "is one read, distinct by (delivered bytes, shape, verdict, outcome, delivery)"),
    "C10": _str("random sequences of 2-D stream reads: generated matrices with blank lines, ragged rows, malformed "
                "tokens, random delivery, truncation, bit flips, lost blocks, stream errors and failed allocations; "
                "a case is one read, distinct by (delivered bytes, shape, verdict, outcome, delivery)"),
    "C11": _str("random sequences of file reads on a simulated disk: open failures, I/O errors at any byte, short and "
                "interrupted reads, torn and damaged content, failed allocations; a case is one read, distinct by "
                "(content, verdict, outcome, delivery)"),
    "C12": _str("random sequences of file and stream writes: open failures, full disk and I/O errors at any byte, "
                "failing close, short and interrupted writes, failed allocations; a case is one write, distinct by "
                "(text, bytes stored, outcome, faults)"),
    "C13": _str("random arrays and formats written and read back under short and interrupted transfers and arbitrary "
                "delivery; a case is one round trip, distinct by (text, shape, delivery)"),
    "C14": _str("random sequences of scalar reads from one stream with malformed tokens, random delivery, truncation, "
                "damage and stream errors; a case is one read, distinct by (text, position, outcome, delivery)"),
    "C15": _thr("random programs of 2-4 threads printing arrays, expressions and scalars and writing to std::cout, an eighth "
                "of the calls with a failing allocation, under random, priority-based and every-access scheduling; a case is "
                "one run, distinct by (schedule, console text)"),
    "C20": _thr("random programs of 2-4 threads building, assigning, editing, slicing, reducing, sorting, printing, reading, "
                "shuffling and mis-using arrays of their own and reading shared ones, an eighth of the calls with a failing "
                "allocation, under random, priority-based and every-access scheduling; a case is one run, distinct by "
                "(schedule, results)"),
    "C16": {"harness": "timer", "seconds": (10, 180), "level": "exploration",
            "rule": "random histories of creating, copying, restarting and reading five timers and timing statements while "
                    "simulated time passes (0 ns to years), the system clock jumps both ways and the reader is preempted "
                    "around a clock reading; a case is one reading, distinct by (value, system clock) or printed line",
            "real": ["Util/timer.hpp of /repo/strictpp and STRICT_TIME", "std::chrono arithmetic of libstdc++"],
            "stub": ["std::chrono::steady_clock, system_clock and the C time functions (simulated clocks)",
                     "std::cout's stream buffer (recorded)"],
            "assumptions": ["the monotonic clock of the platform is monotonic"]},
    "C17": _rnd("random sequences of fills, scalar draws and random expressions over bounds including equal, one-sided, "
                "extreme and tiny ones, under counting, random, constant and alternating entropy and failing devices; "
                "a case is one call, distinct by (call form, bounds, outcome, numbers)"),
    "C18": _rnd("random sequences of shuffles of arrays and slices under varied and failing entropy; a case is one "
                "shuffle, distinct by (call form, outcome, order)"),
    "C19": _rnd("random sequences of semi-random fills, draws and expressions, repeated after other calls, for every "
                "build second 0-9 and ordinary and extreme seeds; a case is one call, distinct by (call form, bounds, "
                "numbers)"),
}
