"""What each check builds and explores."""
from vlib import ALL, X86, ARM, MSA, MINI

ONE = "MIPS MSA (64- and 32-bit) and 32-bit x86 run under qemu user emulation on a minimal run-time of our own, one thread per context"

MC = "interleavings: sequentially consistent executions plus bounded stale reads of atomics; races, use after free and heap overruns are violations"


def p01(c):
    specs = []
    for cfg in ALL:
        for mode in (0, 1, 2, 3):
            if (mode == 2 and cfg in X86) or (mode == 3 and cfg != 'armhf'):
                continue  # no such kernel on that back end
            if mode == 1 and cfg in ("x86_sse4", "x86_avx2") and not c.thorough():
                continue  # same kernel as mode 0 there
            specs.append(dict(name="p01_%s_%d" % (cfg, mode), src="drivers/p01_product.cc", cfg=cfg,
                              flags=["-DMODE=%d" % mode] + (["-DHUGE_ROWS"] if cfg == "x86_sse4" and mode == 0 else [])))
        specs.append(dict(name="p01r_%s" % cfg, src="drivers/p01_ranges.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1"))
        if cfg not in X86:
            specs.append(dict(name="p01s_%s" % cfg, src="drivers/p01_ranges.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1", flags=["-DSIGNED_RANGES"]))
    for cfg in MINI + ["aarch64_dp"]:
        for mode in (0, 1):
            if cfg not in MSA and mode == 1 and not c.thorough():
                continue  # same kernel as mode 0 there
            specs.append(dict(name="p01_%s_%d" % (cfg, mode), src="drivers/p01_product.cc", cfg=cfg, opt="-O1",
                              flags=["-DMODE=%d" % mode] + ([] if c.thorough() else ["-DHEAVY_EMU"])))
        if cfg in ("msa64", "aarch64_dp") or c.thorough():
            specs.append(dict(name="p01r_%s" % cfg, src="drivers/p01_ranges.cc", cfg=cfg, opt="-O1"))
    c.build_all(specs)
    for s in specs:
        c.run_driver(s["name"])
    specs = [dict(name="p01q_%s" % cfg, src="drivers/p01_ranges.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1", flags=["-DSMALL_RANGES"])
             for cfg in (ALL if c.thorough() else ["x86_default", "armhf", "aarch64"])]
    c.build_all(specs)
    for s in specs:
        c.run_driver(s["name"])
    c.assumptions += ["ARM back ends run under qemu user emulation", ONE]


def p02(c):
    specs = []
    for cfg in ALL:
        for g in range(7) if cfg != "x86_avx2" or c.thorough() else (3, 6):  # AVX2 has the output code of x86_default
            specs.append(dict(name="p02_%s_%d" % (cfg, g), src="drivers/p02_output.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1",
                              flags=["-DGROUP=%d" % g, "-Wno-psabi"]))
    for cfg in MINI if c.thorough() else MSA[:1]:
        specs += [dict(name="p02_%s_%d" % (cfg, g), src="drivers/p02_output.cc", cfg=cfg, opt="-O1", flags=["-DGROUP=%d" % g]) for g in range(7)]
    c.build_all(specs)
    for s in specs:
        c.run_driver(s["name"])
    c.assumptions += ["stages that do not compile on a back end are not exercised there (int8 cast and per-channel exponent stage on SSE4.1 and MSA, truncating cast on SIMD)", ONE,
                      "accumulators for which the documented formula overflows int32 are outside the property"]


def modes(c, pre, src, quick_skip=(), opt=None):
    """One driver per back end and operand-range mode (only modes with a kernel of their own)."""
    specs = []
    for cfg in ALL:
        for mode in (0, 1, 2, 3):
            if (mode == 2 and cfg in X86) or (mode == 3 and cfg != 'armhf'):
                continue
            if not c.thorough() and (cfg, mode) in quick_skip:
                continue
            specs.append(dict(name="%s_%s_%d" % (pre, cfg, mode), src=src, cfg=cfg, opt=opt or ("-O2" if c.thorough() else "-O1"),
                              flags=["-DMODE=%d" % mode, "-Wno-psabi"]))
    specs.append(dict(name=pre + "_ndebug", src=src, cfg="x86_ndebug", opt="-O2" if c.thorough() else "-O1", flags=["-DMODE=0"]))
    for cfg in MINI + ["aarch64_dp"]:
        for mode in (0, 1):
            if mode == 0 or cfg in MSA or c.thorough():
                specs.append(dict(name="%s_%s_%d" % (pre, cfg, mode), src=src, cfg=cfg, opt="-O1", flags=["-DMODE=%d" % mode]))
    c.assumptions.append(ONE)
    return specs


SAME = [("x86_sse4", 1), ("x86_avx2", 1), ("x86_default", 1)]


def run_all(c, specs):
    c.build_all(specs)
    for s in specs:
        c.run_driver(s["name"])


def p03(c):
    run_all(c, modes(c, "p03", "drivers/p03_memory.cc", SAME))
    c.assumptions += ["reads of stride gaps inside an operand are visible only through their influence on the result"]


def p04(c):
    specs = modes(c, "p04", "drivers/p04_blocks.cc", SAME)
    for s in specs:
        s["units"] = True
    run_all(c, specs)


def p05(c):
    specs = [dict(name="p05_" + cfg, src="drivers/p05_tasks.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1",
                  flags=["-Wno-psabi"] + (["-DHUGE_ROWS"] if cfg == "x86_sse4" else [])) for cfg in ALL + ["x86_ndebug"]]
    c.build_all(specs + [dict(name="gemm", kind="mc", src="mcrt/scn/gemm.cc"), dict(name="gemm_ndebug", kind="mc", src="mcrt/scn/gemm.cc", flags=["-DNDEBUG"]), dict(name="gemm_sse4", kind="mc", src="mcrt/scn/gemm.cc", flags=["-msse4.1"])])
    for s in specs:
        c.run_driver(s["name"])
    c.run_mc("gemm_ndebug", "gemm_2_2", preempt=1, seconds=60)
    c.run_mc("gemm_sse4", "gemm_2", preempt=3 if c.thorough() else 1, seconds=900 if c.thorough() else 60)
    for s, q, t in [("gemm_2", 2, 5), ("gemm_2_2", 1, 3), ("gemm_blocks", 1, 3), ("gemm_3", 0, 2), ("gemm_grow", 0, 1)]:
        c.run_mc("gemm", s, preempt=t if c.thorough() else q, seconds=900 if c.thorough() else 60)
    if c.thorough():
        c.run_mc("gemm", "gemm_two_contexts", preempt=0, seconds=900)
    c.assumptions.append(MC)


def p06(c):
    sizes = [dict(name="p06_" + cfg, src="drivers/p06_sizes.cc", cfg=cfg) for cfg in ["x86_default", "x86_ndebug"] + (ARM if c.thorough() else ["aarch64"])]
    c.build_all([dict(name="pool", kind="mc", src="mcrt/scn/pool.cc"), dict(name="pool_ndebug", kind="mc", src="mcrt/scn/pool.cc", flags=["-DNDEBUG"])] + sizes)
    for s in sizes:
        c.run_driver(s["name"])
    for s, p in [("pool_2_2", 1000), ("pool_2_2_arr", 1000), ("pool_3", 1), ("pool_hist2", 1), ("pool_hist3", 1)]:  # release build
        c.run_mc("pool_ndebug", s, preempt=p, seconds=60)
    if not c.thorough():
        for s in ["pool_1", "pool_2", "pool_2_2", "pool_2_2_arr", "pool_destroy_idle"]:
            c.run_mc("pool", s, preempt=1000, spurious=1, seconds=60)
        c.run_mc("pool", "pool_alloc", preempt=4, seconds=60)
        for s, p in [("pool_3", 2), ("pool_3_arr", 2), ("pool_2_3", 1), ("pool_3_2", 1), ("pool_2_2_2", 3),
                     ("pool_hist2", 1), ("pool_hist3", 2), ("pool_4", 0), ("pool_4_arr", 0), ("pool_two_pools", 2), ("pool_alloc3", 1)]:
            c.run_mc("pool", s, preempt=p, seconds=60)
        for s in ["pool_5", "pool_2_5_3"]:
            c.run_mc("pool", s, preempt=0, spurious=0, seconds=60)
    else:
        for s in ["pool_1", "pool_2", "pool_2_2", "pool_2_2_arr", "pool_destroy_idle", "pool_alloc", "pool_2_2_2"]:
            c.run_mc("pool", s, preempt=1000, spurious=2, seconds=600)
        for s, p in [("pool_3", 4), ("pool_3_arr", 3), ("pool_2_3", 3), ("pool_3_2", 3), ("pool_hist2", 3), ("pool_hist3", 4),
                     ("pool_4", 2), ("pool_4_arr", 2), ("pool_two_pools", 3), ("pool_alloc3", 3), ("pool_5", 1), ("pool_2_5_3", 1), ("pool_6", 0)]:
            c.run_mc("pool", s, preempt=p, seconds=600)
    c.assumptions.append(MC)


def p07(c):
    c.build_all([dict(name="bc", kind="mc", src="mcrt/scn/blocking_counter.cc"), dict(name="bc_ndebug", kind="mc", src="mcrt/scn/blocking_counter.cc", flags=["-DNDEBUG"])])
    for s in ["bc_1x1_r3", "bc_2x1_r2", "bc_2x2"]:  # release build
        c.run_mc("bc_ndebug", s, preempt=1000, spurious=1, seconds=60)
    scn = ["bc_1x1_r3", "bc_1x3_r2", "bc_2x1_r2", "bc_2x2", "bc_3x1", "bc_late", "bc_zero"]
    for s in scn:
        c.run_mc("bc", s, preempt=1000, spurious=1, stale=3 if c.thorough() else 2, seconds=60 if not c.thorough() else 900)
    c.run_mc("bc", "bc_many_rounds", preempt=1000, seconds=60)
    c.run_mc("bc", "bc_grow", preempt=3 if c.thorough() else 2, seconds=900 if c.thorough() else 60)
    c.run_mc("bc", "bc_5x1", preempt=3 if c.thorough() else 1, stale=1, seconds=900 if c.thorough() else 60)
    if c.thorough():
        c.run_mc("bc", "bc_8x1", preempt=0, spurious=0, seconds=900)
    c.run_mc("bc", "bc_4x1", preempt=1000 if c.thorough() else 3, stale=1, seconds=60 if not c.thorough() else 900)
    c.assumptions.append(MC)


def p08(c):
    lib = ["eight_bit_int_gemm/eight_bit_int_gemm.cc"]
    specs = [dict(name="p08_" + cfg, src="drivers/p08_legacy.cc", cfg=cfg, extra=lib, opt="-O2" if c.thorough() else "-O1",
                  flags=["-Wno-psabi"] + (["-DHUGE_LD"] if cfg == "x86_default" else [])) for cfg in ALL + ["x86_ndebug"]]
    specs += [dict(name="p08_%s_meta" % cfg, src="drivers/p08_legacy.cc", cfg=cfg, extra=lib, opt="-O2" if c.thorough() else "-O1",
                   flags=["-Wno-psabi", "-DGEMMLOWP_USE_META_FASTPATH"]) for cfg in ARM]
    run_all(c, specs)
    c.assumptions += ["accumulators for which the documented formula overflows int32 are outside the property"]


def p09(c):
    c.build_all([dict(name="legacy" + n, kind="mc", src="mcrt/scn/legacy.cc", extra=["eight_bit_int_gemm/eight_bit_int_gemm.cc"], flags=f) for n, f in (("", []), ("_ndebug", ["-DNDEBUG"]))])
    T = c.thorough()
    c.run_mc("legacy_ndebug", "leg_pairs_1", preempt=1000, seconds=60)
    c.run_mc("legacy_ndebug", "leg_workers", preempt=0, seconds=60)
    sec = 1200 if T else 60
    c.run_mc("legacy", "leg_pairs_1", preempt=1000, seconds=sec)
    for s, q, t in [("leg_pairs_2", 2, 1000), ("leg_triples", 2, 1000), ("leg_workers", 0, 2), ("leg_workers_float", 0, 2),
                    ("leg_workers_both", 1, 2), ("leg_workers_resize", 1, 2)]:
        c.run_mc("legacy", s, preempt=t if T else q, seconds=sec)
    c.assumptions.append(MC)


WRAP = ["-Wl," + ",".join("--wrap=" + x for x in ("malloc", "free", "calloc", "realloc", "posix_memalign", "memalign", "aligned_alloc"))]


def p11(c):
    # assertions off: legal histories, refused allocations and impossible reservations only
    nd = ["-DNDEBUG"]
    run_all(c, [dict(name="p11_" + cfg, src="drivers/p11_allocator.cc", cfg=cfg, flags=WRAP) for cfg in ["x86_default"] + ARM] +
            [dict(name="p11_%s_ndebug" % cfg, src="drivers/p11_allocator.cc", cfg=cfg, flags=WRAP + nd) for cfg in (["x86_default"] + ARM if c.thorough() else ["x86_default"])])


def p12(c):
    run_all(c, [dict(name="p12_" + cfg, src="drivers/p12_scalar.cc", cfg=cfg, flags=["-Wno-psabi"]) for cfg in ["x86_default"] + ARM])


def p13(c):
    run_all(c, [dict(name="p13_" + cfg, src="drivers/p13_functions.cc", cfg=cfg, flags=["-Wno-psabi"]) for cfg in ["x86_default", "aarch64"]])


def p14(c):
    run_all(c, [dict(name="p14_%s_%d" % (cfg, g), src="drivers/p14_simd.cc", cfg=cfg, flags=["-Wno-psabi", "-DGROUP=%d" % g])
                for cfg, gs in (("x86_sse4", (0, 1)), ("x86_avx2", (0, 1, 2, 3)), ("aarch64", (0, 1)), ("armhf", (0, 1)),
                                ("msa64", (0, 1)), ("msa32", (0, 1)), ("wasm", (0, 1)), ("x86_32", (0, 1))) for g in gs])
    c.assumptions += ["MIPS MSA and 32-bit x86 under qemu user emulation, WebAssembly SIMD in node, on a minimal run-time of our own", "the 256-bit int32 type has eight lanes, all of which are compared"]


def p18(c):
    c.build_all([dict(name="profiling_ndebug", kind="mc", src="mcrt/scn/profiling.cc", flags=["-DGEMMLOWP_PROFILING", "-DNDEBUG"]),
                 dict(name="profiling", kind="mc", src="mcrt/scn/profiling.cc", flags=["-DGEMMLOWP_PROFILING"]),
                 dict(name="profiling_gemm", kind="mc", src="mcrt/scn/profiling.cc", flags=["-DGEMMLOWP_PROFILING", "-DWITH_GEMM"])])
    T = c.thorough()
    sec = 900 if T else 60
    for s in ["prof_exit", "prof_finish_during", "prof_start_during", "prof_unregistered"]:
        c.run_mc("profiling", s, preempt=1000 if T else 3, seconds=sec)
    for s in ["prof_exit", "prof_twice", "prof_reregister"]:  # release build
        c.run_mc("profiling_ndebug", s, preempt=3, seconds=sec)
    for s in ["prof_twice", "prof_handover", "prof_churn", "prof_reregister", "prof_abort", "prof_deep", "prof_tree"]:
        c.run_mc("profiling", s, preempt=1000, seconds=sec)
    c.run_mc("profiling", "prof_two", preempt=5 if T else 3, seconds=sec)
    c.run_mc("profiling_gemm", "prof_gemm", preempt=1 if T else 0, seconds=sec)
    c.assumptions += [MC, "destructors of thread-specific data run in every order; pthread_create stores the identifier before the thread starts, as glibc does"]


def p10(c):
    run_all(c, [dict(name="p10_" + cfg, src="drivers/p10_context.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1", flags=["-Wno-psabi"]) for cfg in ALL + ["x86_ndebug"]])


def p15(c):
    quick = dict(x86_default=range(8), x86_avx2=range(8), x86_sse4=(0, 1), aarch64=(0, 1, 3, 7), armhf=(0, 1, 7), msa64=range(8), msa32=(0,))
    run_all(c, [dict(name="p15_%s_%d" % (cfg, g), src="drivers/p15_formats.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1", flags=["-Wno-psabi", "-DGROUP=%d" % g])
                for cfg in ALL + MSA for g in (range(8) if c.thorough() else quick[cfg])] +
            [dict(name="p15k_" + cfg, src="drivers/p15_kernels.cc", cfg=cfg, units=True, opt="-O2", flags=["-Wno-psabi"]) for cfg in ALL + ["aarch64_dp"] + MINI])


def p16(c):
    T = c.thorough()
    o = "-O2" if T else "-O0"
    specs = [dict(name="p16_aarch64_%d" % g, src="drivers/p16_metagemm.cc", cfg="aarch64", opt=o, flags=["-Wno-psabi", "-DGROUP=%d" % g]) for g in range(9)]
    specs += [dict(name="p16_armhf_%d" % g, src="drivers/p16_metagemm.cc", cfg="armhf", opt="-O2" if T else "-O1", flags=["-Wno-psabi", "-DGROUP=%d" % g]) for g in range(9)]
    specs += [dict(name="p16_%s_legacy" % cfg, src="drivers/p16_metagemm.cc", cfg=cfg, opt="-O2", flags=["-Wno-psabi", "-DGROUP=9"]) for cfg in ARM]
    a = dict(name="p16_aarch64_legacy_asan", src="drivers/p16_metagemm.cc", cfg="aarch64", opt="-O0", static=False,
             flags=["-Wno-psabi", "-DGROUP=9", "-fsanitize=address", "-static-libasan"])
    c.build_all(specs + [a])
    for s in specs:
        c.run_driver(s["name"])
    c.run_driver(a["name"], ["--tier", "asan"])
    c.assumptions += ["depths up to 2048, the documented limit of the meta fast path", "scratch memory aligned to 64 bytes", "products and offsets for which the definition overflows int32 are outside the property"]


def p17(c):
    run_all(c, [dict(name="p17_" + cfg, src="drivers/p17_transform.cc", cfg=cfg, flags=["-Wno-psabi"]) for cfg in ARM])
    c.assumptions += ["the range of an 8-bit type starts at the lowest value of the type"]


def p19(c):
    wrap = [WRAP[0] + ",--wrap=pthread_create,--wrap=pthread_join"]
    specs = [dict(name="p19_" + cfg, src="drivers/p19_resources.cc", cfg=cfg, opt="-O2" if c.thorough() else "-O1",
                  extra=["eight_bit_int_gemm/eight_bit_int_gemm.cc"], flags=["-Wno-psabi"] + wrap) for cfg in ["x86_default", "x86_ndebug"] + ARM]
    c.build_all(specs + [dict(name="gemm", kind="mc", src="mcrt/scn/gemm.cc")])
    for s in specs:
        c.run_driver(s["name"])
    for s, q, t in [("gemm_2_2", 0, 2), ("gemm_grow", 0, 1)]:
        c.run_mc("gemm", s, preempt=t if c.thorough() else q, seconds=900 if c.thorough() else 60)
    c.assumptions.append(MC)


def p20(c):
    T = c.thorough()
    lib = ["eight_bit_int_gemm/eight_bit_int_gemm.cc"]
    fl = [("", []), ("_sse4", ["-msse4.1"]), ("_avx2", ["-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"])]
    c.build_all([dict(name="contexts" + n, kind="mc", src="mcrt/scn/contexts.cc", extra=lib, flags=f) for n, f in fl])
    sec = 900 if T else 60
    for n, _ in fl:
        for s in ["ctx_pairs", "ctx_triples", "ctx_two_each", "ctx_legacy"]:
            c.run_mc("contexts" + n, s, preempt=1000, seconds=sec)
    for n, _ in fl if T else fl[:2]:
        c.run_mc("contexts" + n, "ctx_workers_one", preempt=1 if T else 0, seconds=sec)
    c.run_mc("contexts", "ctx_handover", preempt=2 if T else 1, seconds=sec)
    for n, _ in fl if T else fl[1:2]:
        c.run_mc("contexts" + n, "ctx_workers_both", preempt=0, spurious=1 if T else 0, seconds=sec)
    c.assumptions.append(MC)


PLANS = {k.upper(): v for k, v in globals().copy().items() if len(k) == 3 and k[0] == "p" and k[1:].isdigit()}
