"""Builds the simulators from /repo's working tree. Objects are cached by content, never by time stamp."""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
UCD = os.environ.get("SIM_UCD_DIR", "/usr/share/unicode")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src", "libunicode")
SIM = os.path.join(VERIF, "sim")


class BuildError(Exception):
    pass


_sha = {}
_lock = threading.Lock()


def sha_file(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size)
    with _lock:
        if key in _sha:
            return _sha[key]
    with open(path, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()
    with _lock:
        _sha[key] = h
    return h


def read_deps(depfile):
    try:
        text = open(depfile).read()
    except OSError:
        return None
    text = text.replace("\\\n", " ")
    return [w for w in text.split(":", 1)[1].split() if w]


def compile_one(cmd, src, obj):
    """cmd: compiler and flags, without -c/-o."""
    meta = obj + ".meta"
    full = cmd + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    try:
        m = json.load(open(meta))
        if m["cmd"] == full and os.path.exists(obj) and all(sha_file(p) == s for p, s in m["deps"].items()):
            return obj
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(meta):
        os.unlink(meta)
    r = subprocess.run(full, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
    # system headers are fixed; everything that can change lives in these trees
    deps = [d for d in read_deps(obj + ".d") or [] if not d.startswith("/usr/")]
    deps.append(src)
    with open(meta, "w") as f:
        json.dump({"cmd": full, "deps": {d: sha_file(d) for d in set(deps)}}, f)
    return obj


def run_all(pool, jobs):
    futs = [pool.submit(compile_one, *j) for j in jobs]
    return [f.result() for f in futs]


TABLEGEN = ["tablegen_main", "ucd_parser", "enum_generator", "ucd_api_generator", "case_norm_generator", "multistage_generator"]
LIB = ["capi", "case_mapping", "codepoint_properties", "convert", "emoji_segmenter", "grapheme_segmenter", "normalization",
       "word_segmenter", "scan", "script_segmenter", "utf8", "width", "simd_detector", "scan256", "scan512", "convert256", "convert512"]
GENERATED = ["ucd", "codepoint_properties_data", "codepoint_properties_names"]


def tablegen_sources():
    d = os.path.join(SRC, "tablegen")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def lib_sources():
    """The library's translation units, whatever they are called now."""
    known = {"codepoint_properties_loader", "benchmark", "test_main"} | set(GENERATED)
    out = []
    for f in sorted(os.listdir(SRC)):
        n, e = os.path.splitext(f)
        if e == ".cpp" and n not in known and not n.endswith("_test"):
            out.append(n)
    return out


def simd_flags(n):
    return {"scan256": ["-mavx2"], "convert256": ["-mavx2"], "scan512": ["-mavx512f", "-mavx512bw"],
            "convert512": ["-mavx512f", "-mavx512bw"], "convert": ["-msse4.1"]}.get(n, [])


def ucd_version():
    try:
        for l in open(os.path.join(REPO, "CMakeLists.txt")):
            if "LIBUNICODE_UCD_VERSION" in l and "set(" in l:
                import re
                m = re.search(r'"([0-9.]+)"', l)
                if m:
                    return m.group(1)
    except OSError:
        pass
    return "15.1.0"


def tablegen_flags():
    return ["-std=c++20", "-O0", '-DLIBUNICODE_UCD_VERSION="%s"' % ucd_version(), "-I" + os.path.join(REPO, "src")]


def generate(pool, jobs_beside=()):
    """Builds and runs the table generator; compiles `jobs_beside` at the same time."""
    odir = os.path.join(BUILD, "tablegen")
    jobs = [(["g++"] + tablegen_flags(), s, os.path.join(odir, os.path.basename(s) + ".o")) for s in tablegen_sources()]
    futs = [pool.submit(compile_one, *j) for j in jobs]
    beside = [pool.submit(compile_one, *j) for j in jobs_beside]
    objs = [f.result() for f in futs]
    key = hashlib.sha256("".join(sha_file(o) for o in objs).encode()).hexdigest()
    gen = os.path.join(BUILD, "gen")
    out = os.path.join(gen, "libunicode")
    stamp = os.path.join(gen, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        exe = os.path.join(odir, "tg")
        r = subprocess.run(["g++"] + objs + ["-o", exe], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking the table generator failed:\n" + r.stderr[-3000:])
        r = subprocess.run([exe, UCD, out], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("the table generator failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
        with open(stamp, "w") as f:
            f.write(key)
    return gen, [f.result() for f in beside]


def state_seam(obj, everything=True):
    """Collects the object's writable statics in one section, so that a simulated process can start afresh.
    Of a simulator's object, only those that come from the library's headers."""
    out = obj[:-2] + ".state.o"
    stamp = out + ".stamp"
    key = "3" + sha_file(obj)
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    heads = subprocess.run(["objdump", "-h", obj], capture_output=True, text=True).stdout
    args = []
    for l in heads.splitlines():
        w = l.split()
        if len(w) > 2 and w[0].isdigit() and (w[1].startswith(".bss") or w[1].startswith(".data")) and not w[1].startswith(".data.rel.ro") and ".DW.ref" not in w[1] \
                and (everything or "7unicode" in w[1]):
            args += ["--rename-section", w[1] + ("=simbss" if w[1].startswith(".bss") else "=simstate")]
    r = subprocess.run(["objcopy"] + args + [obj, out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("objcopy: " + r.stderr)
    with open(stamp, "w") as f:
        f.write(key)
    return out


def build(flavour, units, defines=(), cxx="g++", flags=(), libflags=None, per_lib=None, extra_libs=(), out="simbin", lib_skip=(), reboot=False, per_unit=None, fresh=False, variants=(), programs=(), link_flags=()):
    """Links main + pure + `units` (sim sources needing the library) with the library into build/<flavour>/<out>.
    variants: (name, library defines, unit, unit defines) for further builds of the library in the same program, under
    a namespace of their own; one that cannot be built that way is left out."""
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    libflags = list(flags if libflags is None else libflags)
    flags = list(flags)
    gen = os.path.join(BUILD, "gen")
    inc = ["-I" + gen, "-I" + os.path.join(REPO, "src"), "-I" + SIM]
    pure = ["common", "main", "ref", "text", "streams"]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as pool:
        beside = [([cxx, "-std=c++20"] + flags + (["-DSIM_FRESH"] if fresh and p == "main" else []) + ["-I" + SIM], os.path.join(SIM, p + ".cpp"), os.path.join(bdir, "sim_" + p + ".o")) for p in pure]
        _, pobjs = generate(pool, beside)
        jobs = []
        unit_obj = lambda u: os.path.join(bdir, "sim_" + u + "".join(sorted(defines)).replace("/", "_").replace('"', "") + ".o")
        libobjs = {unit_obj(u) for u in (per_unit or {})}
        for n in GENERATED:
            jobs.append(([cxx, "-std=c++20"] + libflags + inc, os.path.join(gen, "libunicode", n + ".cpp"), os.path.join(bdir, n + ".o")))
        for u in units:
            jobs.append(([cxx, "-std=c++20"] + list((per_unit or {}).get(u, flags)) + list(defines) + inc, os.path.join(SIM, u + ".cpp"), unit_obj(u)))
        for n in lib_sources():
            if n in lib_skip:
                continue
            f = list((per_lib or {}).get(n, libflags))
            libobjs.add(os.path.join(bdir, n + ".o"))
            jobs.append(([cxx, "-std=c++20"] + f + simd_flags(n) + ["-DLIBUNICODE_USE_INTRINSICS"] + inc, os.path.join(SRC, n + ".cpp"), os.path.join(bdir, n + ".o")))
        extra_jobs = []
        for name, vdefs, unit, udefs in variants:
            vdir = os.path.join(bdir, name)
            base = [cxx, "-std=c++20"] + libflags + ["-w", "-Dunicode=unicode_" + name] + list(vdefs)
            v = [(base + list(udefs) + inc, os.path.join(SIM, unit + ".cpp"), os.path.join(vdir, "sim_" + unit + ".o"))]
            v += [(base + inc, os.path.join(gen, "libunicode", n + ".cpp"), os.path.join(vdir, n + ".o")) for n in GENERATED]
            v += [(base + simd_flags(n) + inc, os.path.join(SRC, n + ".cpp"), os.path.join(vdir, n + ".o")) for n in lib_sources() if n not in lib_skip and n not in ("capi", "simd_detector")]
            extra_jobs.append([pool.submit(compile_one, *j) for j in v])
        for path, pdefs in programs:
            jobs.append(([cxx, "-std=c++20"] + flags + list(pdefs) + inc, path, os.path.join(bdir, "prog_" + os.path.basename(path) + ".o")))
        objs = run_all(pool, jobs)
        extras = []
        for v in extra_jobs:
            try:
                extras.append([f.result() for f in v])
                libobjs.update(extras[-1])
            except BuildError:
                pass
        if reboot:
            extras = [list(pool.map(state_seam, v)) for v in extras]
            objs = list(pool.map(lambda o: state_seam(o, o in libobjs), objs))
    exe = os.path.join(bdir, out)
    try:
        return link(cxx, flags + list(link_flags), pobjs + objs + [o for v in extras for o in v], extra_libs, exe)
    except BuildError:
        if not extras:
            raise
        return link(cxx, flags + list(link_flags), pobjs + objs, extra_libs, exe)


def link(cxx, flags, objs, extra_libs, exe):
    cmd = [cxx] + flags + objs + list(extra_libs) + ["-o", exe]
    key = hashlib.sha256((" ".join(cmd) + "".join(sha_file(o) for o in objs + [x for x in extra_libs if x.endswith(".o")])).encode()).hexdigest()
    stamp = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stderr[-6000:])
        with open(stamp, "w") as f:
            f.write(key)
    return exe


CORE = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-Wall", "-Wno-unknown-pragmas"]


def build_core(add, units):
    # one list object per set of scenarios
    return build("core", list(units) + ["list_core"], defines=["-DSIM_ADD=" + add], flags=CORE, out="sim_" + add, reboot=True, fresh=True)


VECTOR = ["_ZN7unicode6detail23scan_for_text_ascii_%dESt17basic_string_viewIcSt11char_traitsIcEEm", "_ZN7unicode6detail25convert_utf8_to_utf16_%dEPKcmPDs",
          "_ZN7unicode6detail25convert_utf8_to_utf32_%dEPKcmPDi"]
DETECT = "_ZN7unicode6detail13max_simd_sizeEv"


def build_cpu():
    """The detector's processor queries become replaceable, and the wide vector functions observable."""
    bdir = os.path.join(BUILD, "cpu")
    os.makedirs(bdir, exist_ok=True)
    units, skip, extra, defines = ["scen_cpu", "scanmodel", "list_core"], (), ["-Wl,--wrap=" + v % w for v in VECTOR for w in (256, 512)], ["-DSIM_ADD=addCpu"]
    src = os.path.join(SRC, "simd_detector.cpp")
    if os.path.exists(src):
        obj = compile_one(["g++", "-std=c++20", "-O0", "-g1", "-fno-inline", "-I" + os.path.join(REPO, "src")], src, os.path.join(bdir, "detector_plain.o"))
        syms = subprocess.run(["nm", obj], capture_output=True, text=True).stdout
        if " T " + DETECT in syms:
            seam = os.path.join(bdir, "detector_seam.o")
            r = subprocess.run(["objcopy", "--redefine-sym", DETECT + "=sim_real_max_simd_size", "--weaken-symbol=_Z5cpuidPiii", "--weaken-symbol=_Z6xgetbvj", obj, seam], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("objcopy: " + r.stderr)
            skip, defines = ("simd_detector",), defines + ["-DSIM_DETECTOR"]
            extra.append(seam)
    variants = [("plain", [], "cpu_variant", ['-DSIM_VARIANT="without_vector_code"'])]
    if skip:
        variants.append(("stdsimd", ["-DLIBUNICODE_USE_STD_SIMD"], "cpu_variant", ['-DSIM_VARIANT="with_std_simd"', "-DSIM_VARIANT_DETECTS"]))
    return build("cpu", units, defines=defines, flags=CORE, out="sim_cpu", lib_skip=skip, extra_libs=extra, reboot=True, fresh=True, variants=variants)


def build_threads():
    """The library carries ThreadSanitizer's instrumentation, whose callbacks are the simulated scheduler."""
    plain = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-Wall", "-Wno-unknown-pragmas"]
    lib = plain + ["-fsanitize=thread", "-Wno-psabi"]
    return build("threads", ["scen_threads", "simthreads", "threads_api", "list_core"], defines=["-DSIM_ADD=addThreads"], cxx="clang++", flags=plain, libflags=lib,
                 per_unit={"threads_api": lib}, out="sim_threads", extra_libs=["-ldl", "-lpthread"], reboot=True)


WRITES = ["write", "__write", "__write_nocancel", "writev", "__writev", "isatty", "__isatty", "close", "__close", "__close_nocancel"]


def build_query():
    """The inspection tool, linked statically: all of its output comes through the wrapped system calls."""
    import re
    tools = os.path.join(REPO, "src", "tools")
    try:
        m = re.search(r"add_executable\(\s*unicode-query\s+([^)]*)\)", open(os.path.join(tools, "CMakeLists.txt")).read())
    except OSError:
        m = None
    names = [n for n in (m.group(1).split() if m else []) if n.endswith(".cpp")] or ["unicode-query.cpp"]
    plain = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-Wall", "-Wno-unknown-pragmas", "-U_FORTIFY_SOURCE"]
    programs = [(os.path.join(tools, n), ["-Dmain=sim_query_main"]) for n in names]
    return build("query", ["scen_query", "segmodel", "list_core"], defines=["-DSIM_ADD=addQuery"], flags=plain, out="sim_query", programs=programs,
                 link_flags=["-static"] + ["-Wl,--wrap=" + w for w in WRITES])


def build_tablegen():
    """The table generator as a program of the simulated machine."""
    bdir = os.path.join(BUILD, "tablegen_sim")
    os.makedirs(bdir, exist_ok=True)
    sim = ["-std=c++20", "-O1", "-g1", "-Wall", "-Wno-unknown-pragmas", "-fno-pie", "-fno-builtin-malloc", "-I" + SIM]
    gen = ["-std=c++20", "-O2", "-g1", "-U_FORTIFY_SOURCE", "-fno-pie", '-DLIBUNICODE_UCD_VERSION="%s"' % ucd_version(), "-I" + os.path.join(REPO, "src")]
    jobs = [(["g++"] + sim, os.path.join(SIM, u + ".cpp"), os.path.join(bdir, "sim_" + u + ".o")) for u in ("common", "main", "vfs", "scen_tablegen")]
    jobs.append((["g++"] + sim + ["-DSIM_ADD=addTablegen"], os.path.join(SIM, "list_core.cpp"), os.path.join(bdir, "sim_list.o")))
    for s in tablegen_sources():
        n = os.path.basename(s)
        jobs.append((["g++"] + gen + (["-Dmain=sim_tablegen_main"] if n == "tablegen_main.cpp" else []), s, os.path.join(bdir, "tg_" + n + ".o")))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as pool:
        objs = run_all(pool, jobs)
    exe = os.path.join(bdir, "sim_tablegen")
    link = ["g++", "-no-pie"] + objs + ["-ldl", "-o", exe]
    key = hashlib.sha256((" ".join(link) + "".join(sha_file(o) for o in objs)).encode()).hexdigest()
    stamp = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stderr[-6000:])
        with open(stamp, "w") as f:
            f.write(key)
    return exe
