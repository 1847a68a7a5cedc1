"""Build configurations, and per property: crates needed, jobs per tier, and what counts as non-trivial."""

NIGHTLY = "nightly-2025-06-20"  # the newest installed toolchain that builds the "unstable" feature
HOOK = "--cfg simd_verif"
NO_BORROWS = "-Zmiri-disable-stacked-borrows"  # the aliasing rules are still experimental, and nobody promises them here
LEVEL_NAMES = ["scalar", "sse2", "ssse3", "sse4.1", "avx2"]
ALL_LEVELS = [0, 1, 2, 3, 4]
NATIVE = 255


def _c(features, rustflags="", profile="release", toolchain=None, target=None, build_std=False, miri=None):
    c = {"features": features, "rustflags": (HOOK + " " + rustflags).strip(), "profile": profile}
    if miri is not None:
        c["miri"] = miri
    if toolchain:
        c["toolchain"] = toolchain
    if target:
        c["target"] = target
    c["build_std"] = build_std or (target or "").startswith("wasm")
    return c


CONFIGS = {
    # run-time detection, steered to each instruction set through the hook
    "rel": _c(["detect"]),
    "dbg": _c(["detect"], profile="dbg"),
    # instruction set fixed at compile time
    "st0": _c([]),
    "alloc": _c(["alloc"]),
    "ssse3": _c(["alloc"], "-Ctarget-feature=+ssse3"),
    "sse41": _c(["std"], "-Ctarget-feature=+sse4.1"),
    "sse3": _c(["alloc"], "-Ctarget-feature=+sse3"),
    "avx": _c(["std"], "-Ctarget-feature=+avx"),
    "avx2": _c(["std"], "-Ctarget-feature=+avx2"),
    "avx2dbg": _c(["alloc"], "-Ctarget-feature=+avx2", profile="dbg"),
    "sse41det": _c(["detect"], "-Ctarget-feature=+sse4.1"),
    # with the operations of vsimd
    "relvs": _c(["detect", "vs"]),
    "o0vs": _c(["detect", "vs"], profile="dev"),
    "native": _c(["detect"], "-Ctarget-cpu=native"),
    "lto": _c(["detect"], profile="lto"),
    "all": _c(["unstable", "parallel", "detect"], toolchain=NIGHTLY),
    "alldbg": _c(["unstable", "parallel", "detect"], toolchain=NIGHTLY, profile="dbg"),
    # a failed allocation panics
    "oom": _c(["unstable", "detect"], "--cfg simd_oom", toolchain=NIGHTLY),
    "oomdbg": _c(["unstable", "detect"], "--cfg simd_oom", profile="dbg", toolchain=NIGHTLY),
    "unst": _c(["unstable"], toolchain=NIGHTLY),
    "unstavx2": _c(["unstable", "alloc"], "-Ctarget-feature=+avx2", toolchain=NIGHTLY),
    "size": _c(["detect"], "-Copt-level=s"),
    "o0": _c(["detect"], profile="dev"),
    "x86v4": _c(["detect"], "-Ctarget-cpu=x86-64-v4"),
    "wasm": _c(["alloc"], "-Cpanic=unwind", toolchain="nightly", target="wasm32-unknown-unknown"),
    "wasmsimd": _c(["alloc"], "-Cpanic=unwind -Ctarget-feature=+simd128", toolchain="nightly", target="wasm32-unknown-unknown"),
    # libFuzzer, with coverage and compare tracing
    "fuzz": _c(["detect"], "--cfg simd_fuzz -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
               "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table "
               "-Cllvm-args=-sanitizer-coverage-trace-compares -Clink-arg=@FUZZER@ -Clink-arg=-lstdc++", target="x86_64-unknown-linux-gnu"),
    "tsan": _c(["detect"], "-Zsanitizer=thread --cfg simd_tsan", toolchain="nightly", target="x86_64-unknown-linux-gnu", build_std=True),
    "asan": _c(["detect"], "-Zsanitizer=address --cfg simd_asan", toolchain=NIGHTLY, target="x86_64-unknown-linux-gnu"),
    # interpreted by Miri: undefined behaviour of any kind, and targets that this machine is not
    "miri86": _c(["detect"], "-Ctarget-feature=+avx2", toolchain="nightly", miri=NO_BORROWS),
    "mirineon": _c(["detect"], toolchain="nightly", target="aarch64-unknown-linux-gnu", miri=NO_BORROWS),
    "miri686": _c(["detect"], "-Ctarget-feature=+avx2", toolchain="nightly", target="i686-unknown-linux-gnu", miri=NO_BORROWS),
    "miris390x": _c(["detect"], toolchain="nightly", target="s390x-unknown-linux-gnu", miri=NO_BORROWS),
    "asanpar": _c(["unstable", "parallel", "detect"], "-Zsanitizer=address --cfg simd_asan", toolchain=NIGHTLY, target="x86_64-unknown-linux-gnu"),
}

ASSUMPTIONS = [
    "the models in harness/src/model.rs, written from RFC 4648, the WHATWG algorithm, the uuid documentation and the definition of Unicode scalar values, are right",
    "the compiler, the CPU and the operating system work as documented; instruction sets above AVX2 do not exist for this crate",
    "the hook (cfg simd_verif) only hides CPU features from run-time detection and changes nothing else",
]

# cases hold elements of this many bytes (for shrinking)
SHRINK_UNIT = {7: 4}


def job(cfg, level=NATIVE, shard=0, shards=1, scale=100, part="all", cmd="run", extra=()):
    return dict(cfg=cfg, level=level, shard=shard, shards=shards, scale=scale, part=part, cmd=cmd, extra=extra)


def spread(cfg, levels, shards, scale=100, part="all", only=None, cmd="run", extra=()):
    """All shards (or `only` that many, a different choice per level) at each level."""
    out = []
    for i, l in enumerate(levels):
        pick = range(shards) if only is None else [(i * 3 + k) % shards for k in range(only)]
        for s in pick:
            out.append(job(cfg, l, s, shards, scale, part, cmd, extra))
    return out


def order(jobs):
    """Interleaves so that the slow ones start first."""
    return jobs


def guided(tier, quick=40):
    """Coverage-guided search over the same predicate."""
    if tier == "quick":
        return [job("fuzz", l, i, 3, quick, "fuzz") for i, l in enumerate((4, 0, 2))]
    return [job("fuzz", l, i, 8, quick * 75, "fuzz") for i, l in enumerate((4, 0, 2, 3, 1, 4, 0, 2))]


def interpreted(tier, quick=(), part="small"):
    """Random short inputs in Miri."""
    if tier == "quick":
        return [job("miri86", l, i, 1000, 4 * 100, part) for i, l in enumerate(quick)]
    j = []
    for c, l in [("mirineon", NATIVE), ("miri686", 4)] + [("miri86", l) for l in (4, 2, 0, 3, 1)] + [("miri686", 2), ("miris390x", NATIVE)]:
        n = 6 if c == "mirineon" else 2
        j += [job(c, l, i, n, n, part) for i in range(n)]
    return j


def huge(tier):
    """More than 2^32 bytes. One process at a time needs up to 13 GB."""
    if tier == "quick":
        return [job("rel", 4, part="huge")]
    return spread("rel", [4, 2, 0], 1, part="huge") + [job("dbg", 4, part="huge"), job("avx2", NATIVE, part="huge")]


def standard(main=2, scale=200, side=8, extra_cfgs=(), thorough_scale=100, thorough_shards=8, without=(), fuzz=40, big=True):
    """Every instruction set through run-time detection in full; samples of the sweeps in the other builds."""
    def jobs(tier):
        if tier == "quick":
            j = spread("rel", [4, 3, 2, 1, 0], main, scale)
            j += spread("dbg", ALL_LEVELS, side, scale, only=1)
            for n, c in enumerate(["st0", "alloc", "ssse3", "sse41", "avx2", "wasmsimd"] + list(extra_cfgs)):
                if c in without:
                    continue
                j.append(job(c, NATIVE, n % side, side, scale))
            return (huge(tier) if big else []) + guided(tier, fuzz) + j
        j = spread("rel", [4, 3, 2, 1, 0], thorough_shards, thorough_scale)
        j += spread("dbg", ALL_LEVELS, thorough_shards, thorough_scale, only=2)
        j += spread("all", ALL_LEVELS, thorough_shards, thorough_scale, only=1)
        j += spread("lto", ALL_LEVELS, thorough_shards, thorough_scale, only=1)
        for c in ["st0", "alloc", "ssse3", "sse41", "avx2", "avx2dbg", "sse41det", "native", "unst", "unstavx2", "wasm", "wasmsimd"]:
            if c in without:
                continue
            j += spread(c, [NATIVE], thorough_shards, thorough_scale, only=2)
        return (huge(tier) if big else []) + guided(tier, fuzz) + interpreted(tier) + j
    return jobs


EVERY = ["b64", "b32", "hex", "uuid", "uni"]


def memory_jobs(tier):
    if tier == "quick":
        j = spread("rel", [4, 3, 2, 1, 0], 12, 100, only=6)
        j += spread("asan", [4, 2, 0], 12, 100, only=2)
        j += spread("dbg", [4, 1], 12, 100, only=1)
        j += spread("o0", [3, 4, 2, 0, 1], 16, 50, only=1)  # (an optimiser can narrow a load that is too wide)
        j += spread("wasmsimd", [NATIVE], 12, 100, only=4)
        for n, c in enumerate(["st0", "ssse3", "sse41", "avx2"]):
            j.append(job(c, NATIVE, n, 12))
        return interpreted(tier, (4, 2, 0, 3, 1)) + guided(tier) + j
    j = spread("rel", [4, 3, 2, 1, 0], 16)
    j += spread("asan", [4, 3, 2, 1, 0], 16)
    j += spread("dbg", ALL_LEVELS, 16, only=2)
    j += spread("o0", ALL_LEVELS, 32, only=2)
    for c in ["st0", "alloc", "ssse3", "sse41", "avx2", "avx2dbg", "native", "all", "unstavx2", "lto"]:
        j += spread(c, [NATIVE], 16, only=3)
    for c in ["wasm", "wasmsimd"]:
        j += spread(c, [NATIVE], 16)
    return guided(tier) + interpreted(tier) + j


def background_jobs(tier):
    if tier == "quick":
        j = spread("rel", [4, 3, 2, 1, 0], 12, 100, only=7)
        j += spread("dbg", ALL_LEVELS, 16, 100, only=1)
        j += spread("wasmsimd", [NATIVE], 12, 100, only=2)
        for n, c in enumerate(["st0", "ssse3", "sse41", "avx2"]):
            j.append(job(c, NATIVE, n, 12))
        return interpreted(tier, (4, 2, 0)) + guided(tier) + j
    return standard(thorough_shards=16)(tier)


def panic_jobs(tier):
    if tier == "quick":
        j = spread("dbg", [4, 3, 2, 1, 0], 4, 100)
        j += spread("rel", ALL_LEVELS, 4, 100, only=1)
        for n, c in enumerate(["st0", "ssse3", "sse41", "avx2dbg", "wasmsimd"]):
            j.append(job(c, NATIVE, n % 4, 4))
        j += spread("alldbg", [4], 8, 100, "par", only=2)
        return guided(tier) + j
    j = [job("dbg", 4, part="huge")] + spread("dbg", ALL_LEVELS, 16)
    j += spread("rel", ALL_LEVELS, 16, only=8)
    j += spread("alldbg", ALL_LEVELS, 16, only=2)
    j += spread("alldbg", [4, 3], 4, 100, "par")
    for c in ["st0", "alloc", "ssse3", "sse41", "avx2", "avx2dbg", "native", "lto", "wasm", "wasmsimd"]:
        j += spread(c, [NATIVE], 16, only=4)
    return guided(tier) + interpreted(tier) + j


def vector_jobs(tier):
    """The instruction set is chosen per operation, not by detection: no levels here."""
    if tier == "quick":
        j = spread("rel", [NATIVE], 8, 300) + spread("dbg", [NATIVE], 16, 100, only=6)
        for n, c in enumerate(["st0", "ssse3", "sse41", "avx2", "native"]):
            j += [job(c, NATIVE, (2 * n + k) % 16, 16) for k in range(2)]
        # other vector types, other intrinsics: every operation
        return spread("mirineon", [NATIVE], 8, 8, "small") + j + spread("wasmsimd", [NATIVE], 4, 50) + spread("unst", [NATIVE], 4, 25)
    j = spread("rel", [NATIVE], 32, 100) + spread("dbg", [NATIVE], 32, 25)
    for c in ["st0", "alloc", "ssse3", "sse41", "avx2", "avx2dbg", "sse41det", "native", "lto", "unst", "unstavx2", "asan", "wasmsimd"]:
        j += spread(c, [NATIVE], 32, 25, only=16)
    j += spread("wasmsimd", [NATIVE], 16, 100)
    for c in ["mirineon", "miri86", "miri686"]:
        j += spread(c, [NATIVE], 32, 100, "small")
    return j


# every build; at every instruction set where detection can be steered
DIFFERENT = ([("rel", l) for l in ALL_LEVELS] + [("dbg", l) for l in ALL_LEVELS] +
             [(c, NATIVE) for c in ("st0", "alloc", "ssse3", "sse41", "avx2", "avx2dbg", "sse41det", "native", "lto", "all", "unst", "unstavx2", "size", "wasm", "wasmsimd")])


def differential_jobs(tier):
    if tier == "quick":
        return ([job(c, l, s, 4, part="small") for c, l, n in (("mirineon", NATIVE, 3), ("miris390x", NATIVE, 1), ("rel", 4, 3)) for s in range(n)] +
                [job(c, l, s, 2) for c, l in DIFFERENT for s in range(2)])
    more = DIFFERENT + [("size", l) for l in ALL_LEVELS] + [("lto", l) for l in ALL_LEVELS] + [("all", l) for l in ALL_LEVELS] + [("asan", l) for l in ALL_LEVELS]
    return [job(c, l, s, 16) for c, l in more for s in range(16)] + [job(c, l, 0, 64) for c, l in DIFFERENT + [("o0", l) for l in ALL_LEVELS]] + [
        job(c, l, s, 4, part="small") for s in range(4) for c, l in (("mirineon", NATIVE), ("miris390x", NATIVE), ("miri686", NATIVE), ("miri686", 2), ("miri86", 4), ("rel", 4))]


def par_jobs(tier):
    if tier == "quick":
        return [job("all", 4, part="huge")] + spread("all", ALL_LEVELS, 4, 200) + spread("alldbg", [4, 1], 8, 100, only=2)
    return [job("all", 4, part="huge"), job("alldbg", 3, part="huge")] + spread("all", ALL_LEVELS, 8) + spread("alldbg", ALL_LEVELS, 8, only=2) + spread("asanpar", [4, 2], 8, only=2)


def race_jobs(tier):
    if tier == "quick":
        return (spread("rel", ALL_LEVELS, 2, 100) + spread("tsan", [4, 3, 2, 1, 0], 1, 300) + [job("native"), job("o0", 4, 0, 2), job("avx2", NATIVE, 0, 2)] +
                [job("all", l, 0, 4, 100, "par") for l in (4, 1)])
    return (spread("rel", ALL_LEVELS, 4) + spread("tsan", ALL_LEVELS, 4) + spread("native", [NATIVE], 4) + spread("o0", ALL_LEVELS, 8, only=1) + spread("dbg", ALL_LEVELS, 8, only=1) +
            spread("lto", ALL_LEVELS, 8, only=1) + spread("all", ALL_LEVELS, 16, only=1) + spread("all", ALL_LEVELS, 16, 100, "par", only=1))


def stepped_jobs(tier):
    if tier == "quick":
        j = spread("rel", [3, 2, 1, 0, 4], 32, 100, only=4) + spread("o0", [3, 2, 1, 0, 4], 128, 100, only=1) + spread("all", [2, 3, 1], 32, 100, only=1)
        j += [job(c, NATIVE, n, 32) for n, c in enumerate(["st0", "ssse3", "sse41", "avx2", "lto", "dbg", "sse3", "avx"])]
        return spread("o0vs", [NATIVE], 2, 20) + spread("relvs", [NATIVE], 2) + spread("relvs", ALL_LEVELS, 1) + j
    j = spread("rel", ALL_LEVELS, 8) + spread("o0", ALL_LEVELS, 8) + spread("dbg", ALL_LEVELS, 8, only=2) + spread("lto", ALL_LEVELS, 8, only=2) + spread("all", ALL_LEVELS, 8, only=2) + spread("size", ALL_LEVELS, 8, only=2)
    for c in ["alloc", "sse3", "ssse3", "sse41", "avx", "avx2", "sse41det", "unstavx2"]:
        j += spread(c, [NATIVE], 8, only=4)
    return spread("relvs", [NATIVE], 8, 1000) + spread("relvs", ALL_LEVELS, 1) + spread("o0vs", [NATIVE], 8, 200) + j


def growth_jobs(tier):
    if tier == "quick":
        return spread("rel", [4, 3, 2, 1, 0], 8, 300) + [job(c, NATIVE, n, 8, 300) for n, c in enumerate(["ssse3", "sse41", "avx2", "all"])]
    return spread("rel", ALL_LEVELS, 8) + spread("all", ALL_LEVELS, 8, only=2) + spread("lto", ALL_LEVELS, 8, only=2) + [job(c, NATIVE, s, 8) for s in range(4) for c in ["ssse3", "sse41", "avx2", "native"]]


def fault_jobs(tier):
    if tier == "quick":
        j = spread("oom", ALL_LEVELS, 4, 100, only=2) + [job("oomdbg", l, n, 16) for n, l in enumerate((4, 0))]
        return j + spread("rel", ALL_LEVELS, 8, 100, only=1) + [job(c, NATIVE, n, 16) for n, c in enumerate(["alloc", "ssse3", "sse41", "avx2", "dbg", "lto"])]
    j = spread("oom", ALL_LEVELS, 4) + spread("oomdbg", ALL_LEVELS, 8, only=2) + spread("rel", ALL_LEVELS, 4)
    for c in ["alloc", "ssse3", "sse41", "avx2", "avx2dbg", "dbg", "lto", "o0", "size", "native", "all"]:
        j += spread(c, [NATIVE], 16, only=2)
    return j


def p(features, rule, jobs, **kw):
    return dict(features=features, rule=rule, jobs=jobs, **kw)


MADE = ("cases are lengths swept exhaustively at the small end, lengths around powers of two and around every integer literal of "
        "the source, every value of single byte positions, buffer placements at both ends of guard pages and all alignments, then "
        "seeded random structured cases, coverage-guided mutations (libFuzzer), and where it applies inputs above 2^32 bytes; counted per distinct fingerprint (parameters and data) over all configurations; ")

PROPS = {
    "C01": p(["b64"], MADE + "non-trivial: the input is not empty", standard(scale=400)),
    "C02": p(["b64"], MADE + "texts are valid encodings, near-valid mutations (padding, trailing bits, one bad symbol anywhere) and noise; non-trivial: the text is not empty", standard(scale=150)),
    "C03": p(["b64"], MADE + "texts carry inserted ASCII whitespace, missing or surplus padding and foreign bytes; non-trivial: the text is not empty", standard(scale=200)),
    "C05": p(["b32"], MADE + "non-trivial: the input is not empty", standard(scale=400)),
    "C06": p(["b32"], MADE + "texts are valid encodings, near-valid mutations and noise; non-trivial: the text is not empty", standard(scale=150)),
    "C07": p(["hex"], MADE + "non-trivial: the input is not empty", standard(scale=600)),
    "C08": p(["hex"], MADE + "texts are valid, near-valid and noise, of even and odd length; non-trivial: the text is not empty", standard(scale=150)),
    "C09": p(["uuid"], MADE + "texts are the documented forms, near misses at every position with every byte, and noise; non-trivial: the text is not empty", standard(scale=500, big=False)),
    "C10": p(["uuid"], MADE + "non-trivial: the 16 bytes are not all equal", standard(scale=500, big=False)),
    "C11": p(["uni"], MADE + "one or several bytes >= 0x80 at every position; non-trivial: the input is not empty", standard(scale=300)),
    "C12": p(["uni"], MADE + "one or several non-scalars at every position, values around every boundary; non-trivial: the input is not empty", standard(scale=200)),
    "C13": p(["uni"], MADE + "non-trivial: at least four bytes", standard(scale=200)),
    "C18": p(["b64", "b32", "hex", "uuid", "uni"], MADE + "destinations from empty to twice the required size, and length queries up to usize::MAX; non-trivial: the input is not empty", standard(scale=300)),
    "C19": p(["b64", "b32", "hex"], MADE + "each text is decoded in place and out of place; non-trivial: the text is not empty", standard(scale=150, big=False)),
    "C20": p(["b64", "b32", "hex"], "all histories of up to 3 (thorough 4) steps over 12 steps, and random histories of up to 40 append/clear/reserve/shrink steps on one Vec and one String against a model; non-trivial: the history appends at least twice", standard(scale=300, without=("st0", "unst"), fuzz=5, big=False)),
    "C24": p(["b64", "b32", "hex", "uni"], MADE + "round trips and every kind of split; non-trivial: the input is not empty", standard(scale=150, big=False)),
    "C14": p(["vs"], "every operation (each immediate is one operation) on each instruction set: constants, all pairs of bytes, every byte value at every lane of each operand over three surroundings, then seeded random, boundary and operation-shaped operands; distinct by operation, instruction set and operands; non-trivial: the operands are not all zero", vector_jobs),
    "C15": p(["vs"], "every building block on each instruction set and vector width: constants, pairs, every byte value at every lane over three surroundings (one of them valid input), random operands with up to two foreign bytes; bulk swaps of every length to 200 units; slice, box, native-execution and table tools on random slices; distinct by block, instruction set and data; non-trivial: the data are not all zero", vector_jobs),
    "C17": p(EVERY, "seeded random calls of every public function (all forms, valid, near-valid and noise), generated identically for each build; a digest of outcome and bytes is compared between all builds and instruction sets; distinct by call and data, counted once over all builds; non-trivial: the input is not empty", differential_jobs, compare=True),
    "C23": p(EVERY, "histories of calls by 2 to 12 threads, each from a freshly forked process in which nothing has been called: the same calls released together, the same calls in different orders, different calls repeated, shared read-only sources; results are compared with the sequential model, and one build reports data races (ThreadSanitizer); distinct by history; non-trivial: at least two calls were in progress at the same time", race_jobs, workers=3, races=True),
    "C04": p(["b64"], "lengths around every parallelisation threshold (4096 x pool size), around powers of two and random, in pools of 1 to 16 (some of 24 to 100) threads, with destinations from too small to too large; non-trivial: the parallel path is taken", par_jobs),
    "C16": p(EVERY, MADE + "buffers end and start at inaccessible pages, are surrounded by canaries or are ASan blocks, owned results come from a checking allocator; non-trivial: the input is not empty", memory_jobs),
    "C21": p(EVERY, MADE + "every call is repeated over five different old contents of destination, heap and neighbouring memory; non-trivial: the input is not empty", background_jobs),
    "C25": p(EVERY, "every operation and form at every length to 150, then calls of any kind, executed one instruction at a time; every executed instruction of the program is decoded and its instruction set compared with the level that detection reports (or the build assumes); every vector operation on every instruction set as well; non-trivial: the input is not empty and instructions of the program were stepped", stepped_jobs),
    "C26": p(EVERY, "inputs of 256 KiB to 4 MB made of repeated generated units behind generated heads, for every operation and form; CPU time of the thread, number and size of allocations are measured; non-trivial: at least 64 KiB of input", growth_jobs),
    "C27": p(["b64", "b32", "hex"], "every owned form at every length to 300 (70 where a failure aborts), appends with no, just enough and just too little room, lengths to 3 MB, random calls; each allocation of each call is refused in turn, by unwinding in this process or by aborting in a forked one; histories of up to 30 appends to one Vec and one String in which allocations are refused; non-trivial: at least one allocation was refused", fault_jobs),
    "C22": p(EVERY, MADE + "inputs are valid, near-valid and noise with destinations of every relative size; non-trivial: the input is not empty", panic_jobs),
}

NOT_YET = {}
NOTE = ("Assumes the models are right and that the hook only hides CPU features. Decided for x86-64 and WebAssembly; NEON, i686 and big-endian "
        "builds are interpreted (Miri), mostly in the thorough tier.")
TECHNIQUES = {'C01': 'property-based testing: exhaustive length sweeps and random inputs against a scalar RFC 4648 reference model, on every instruction set',
 'C02': 'property-based testing: structured valid/near-valid/noise texts against a reference decoder, on every instruction set',
 'C03': 'property-based testing against an executable transcription of the WHATWG forgiving-base64 algorithm',
 'C04': 'differential property-based testing of par_encode against sequential encoding in generated thread pools',
 'C14': 'property-based testing of every vector operation against lane-wise scalar definitions',
 'C15': 'property-based testing of shared SIMD building blocks against scalar definitions',
 'C16': 'generated calls under guard pages, canaries, a checking allocator and AddressSanitizer',
 'C17': 'differential testing: digests of generated calls compared across builds and instruction sets',
 'C18': 'property-based testing of length functions and destination sizes against exact arithmetic',
 'C19': 'differential property-based testing of in-place against out-of-place decoding',
 'C20': 'stateful model-based testing: generated append histories on one Vec and one String against a model',
 'C21': 'metamorphic testing: the same call over different old memory contents',
 'C22': 'fuzzing with structured and noise inputs in builds with debug assertions and overflow checks; oracle: no panic, no crash',
 'C23': 'generated multi-thread schedules from fresh processes, results compared with the sequential model',
 'C25': 'generated calls executed one instruction at a time; oracle: the instruction set of every executed instruction against the level reported to the library',
 'C26': 'generated large inputs; oracle: linear limits on CPU time and allocations',
 'C27': 'fault injection: each allocation of generated calls and histories is refused in turn; oracle: standard allocation failure or the right result, containers as in a model',
 'C24': 'metamorphic property-based testing: round trips and splits'}
for _k, _v in PROPS.items():
    _v["technique"] = TECHNIQUES.get(_k, "property-based testing against a reference model, on every instruction set")
