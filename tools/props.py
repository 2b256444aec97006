"""What each check builds, how long it searches, and what its evidence says."""
import simbuild as b

ASAN = "undelivered and out-of-range bytes are poisoned (AddressSanitizer), so that reading them is a crash of the run"
UCDTRUST = "the reference models read the Unicode 15.1 files in /usr/share/unicode"
LIBWIDTH = "the width of a single codepoint is the library's documented rule (east_asian_width, general category, Emoji_Presentation) evaluated on the UCD files"


def core(add, *units):
    return lambda: b.build_core(add, units)


def tiers(quick_cap, thorough_cap, runs=10**7, **kw):
    return {"quick": dict(runs=runs, cap=quick_cap, **kw), "thorough": dict(runs=10**9, cap=thorough_cap, **kw)}


LIB = ["the whole library, compiled from /repo with tables generated by /repo's table generator"]

PROPS = {}


def add(pid, build, states, real, stub, assumptions, faults=("damage_", "fault_"), level="exploration", probes=(), env=None, **t):
    PROPS[pid] = dict(build=build, level=level, states=states, real=real, stub=stub, assumptions=assumptions, faults=tuple(faults), probes=probes, env=env or {},
                      **tiers(t.pop("quick", 40), t.pop("thorough", 420), **t))


SCAN_STATES = "hash of (incomplete bytes, open cluster's size and last classes, its width state, why the call ended, columns left up to 4)"
SCAN = core("addScan", "scen_scan", "scanmodel")
SCAN_A = [ASAN, UCDTRUST, LIBWIDTH, "chunks of a stream are adjacent in memory and the caller resumes at state.next or clears it, as the terminal does"]
TERM_STUB = ["the terminal around scan_text (line wrap, control handling) and the transmission line are simulated"]
add("C01", SCAN, SCAN_STATES, LIB, TERM_STUB, SCAN_A, probes=["cut_inside_character", "cut_with_open_cluster", "stopped_at_control"])
add("C02", SCAN, SCAN_STATES, LIB, TERM_STUB, SCAN_A, probes=["cut_inside_character", "ill_formed", "stopped_at_budget", "fault_receiver_scans_meanwhile"])
add("C03", SCAN, SCAN_STATES, LIB, TERM_STUB, SCAN_A, probes=["stopped_at_budget", "line_too_narrow"])
add("C04", SCAN, SCAN_STATES, LIB, TERM_STUB, SCAN_A, probes=["ill_formed", "damage_drop", "damage_bitflip"])

LINE = ["the transmission line is simulated"]
add("C05", core("addDecode", "scen_decode"), "hash of (bytes pending in the decoder, classes of the last 8 bytes) at the end of each delivery", LIB, LINE,
    [ASAN, UCDTRUST, "well-formed means structurally complete: the library does not reject overlong forms and surrogates in UTF-8, and the reference model does not either"],
    probes=["cut_inside_character", "state_copied", "damage_unit_drop", "utf16_conversions"])
NORM_A = [UCDTRUST + " and a reference normalizer written from UAX #15", "codepoints beyond U+10FFFF and surrogates are starters without decomposition"]
add("C06", core("addNormalize", "scen_normalize"), "hash of (combining class, decomposition length) of the last 4 codepoints of the part, at the end of each delivery", LIB, LINE, NORM_A, probes=["parts", "flush_inside_sequence"])
add("C07", core("addNormalize", "scen_normalize"), "hash of the classes of the last 6 bytes of the part, at the end of each chunk", LIB, LINE, [ASAN] + NORM_A, probes=["cut_inside_character", "flush_inside_character", "ill_formed"])
add("C08", core("addReset", "scen_reset"), "hash of (object kind, classes of the 3 bytes before and after the reset)", LIB, LINE,
    ["the oracle is the library itself: an object made new at the moment of the reset and fed the same input"],
    faults=("damage_", "reset"), probes=["resets", "reset_inside_character", "reset_between_characters"])
SCHED = ["the clients that drive the segmenters are simulated"]
SEG = core("addSegment", "scen_segment", "segmodel")
add("C09", SEG, "hash of the (grapheme break, InCB, Extended_Pictographic) classes of the last 5 codepoints at the end of each delivery", LIB, SCHED,
    [UCDTRUST, "codepoints beyond U+10FFFF have the properties of U+0000"], faults=("state_copied", "iterator_copied"), probes=["joined", "state_copied", "iterator_copied"])
add("C10", SEG, "hash of the (word break, Extended_Pictographic) classes of the last 5 codepoints at the end of each delivery", LIB, SCHED,
    [UCDTRUST, ASAN], faults=("state_copied", "iterator_copied", "waited_for_lookahead"), probes=["joined", "waited_for_lookahead", "iterator_copied"])
add("C11", SEG, "hash of (script, presentation, length up to 4, emoji category of the first codepoint) of each run", LIB, SCHED,
    [UCDTRUST],
    faults=("segmenter_copied",), probes=["segments", "runs_consumed", "segmenter_copied"])
add("C12", core("addWidth", "scen_width", "scanmodel"), "hash of (width, base width, open, virama, ZWJ pending, indicator parity, prefix length up to 6)", LIB, SCHED,
    [UCDTRUST, LIBWIDTH], faults=("state_copied", "reset_reused"), probes=["cluster_prefixes", "state_copied", "reset_reused"])
add("C15", core("addAlloc", "scen_alloc"), "hash of (function, number of allocations it made, how many failed, whether it threw)", LIB,
    ["the allocator: operator new fails when the plan says so", "the clients are simulated"],
    [UCDTRUST + " and a reference normalizer", "functions declared noexcept that allocate (iterators of utf8_grapheme_segmenter, grapheme_cluster_width of UTF-8) terminate by design and are left out"],
    faults=("fault_",), probes=["threw_bad_alloc", "fault_alloc", "fault_alloc_persistent", "fault_alloc_streaming", "reset_after_failure"])
add("C16", core("addCapi", "scen_capi", "scanmodel"), "hash of (text length, buffer size, return value) and of (handle, handles alive, class of the last byte)", LIB,
    ["the C clients are simulated", "operator new counts its blocks"],
    [UCDTRUST, ASAN, LIBWIDTH, "what a failed conversion leaves inside the buffer is unspecified"],
    faults=("damage_", "fault_"), probes=["fault_buffer_too_small", "exact_fit", "retries", "fault_abandoned_inside_character", "measured"])
add("C14", b.build_cpu, "hash of (width supported, function, text length, alignment modulo 16)",
    LIB + ["the vector code of every width runs on the host processor, as far as the host has it", "the library built without vector code and with std::simd, beside the build with intrinsics (each under a namespace of its own)"],
    ["the processor's CPUID and XGETBV (behind the library's own cpuid() and xgetbv()) and its invalid-opcode exception"],
    [UCDTRUST, ASAN, LIBWIDTH, "machines wider than the host processor are simulated up to the choice of the vector width", "CPUID and XGETBV are reached through the functions of that name in simd_detector.cpp; if a detector stops using them, the width is imposed instead of detected"],
    faults=("fault_",), probes=["machines_asked_through_the_seam", "ran_512", "ran_256", "ran_128", "calls_compared_built_without_vector_code", "calls_compared_built_with_std_simd", "fault_no_osxsave", "fault_os_without_opmask_state"])
NET = ["the nodes of the directory, their journals and the network between them are simulated"]
DIR_STATES = "hash of (how the node keeps its names, how many it has, classes of the first 4 codepoints of the name it learns)"
DIR = core("addDirectory", "scen_directory")
DIR_PROBES = ["found_in_another_form", "messages", "converged", "fault_crash", "fault_torn_record", "fault_partitioned", "damage_message", "pairs_equivalent", "pairs_different"]
add("C21", DIR, DIR_STATES, LIB, NET, NORM_A + [ASAN], faults=("fault_", "damage_", "rejected"), probes=DIR_PROBES)
add("C22", DIR, DIR_STATES, LIB, NET, [UCDTRUST, ASAN, "case mapping is that of the unconditional mappings: the library documents no language or context dependence"], faults=("fault_", "damage_", "rejected"), probes=DIR_PROBES)
add("C23", core("addStream", "scen_stream"), "hash of (kind of stream, form, codepoints held, shortage, logarithm of the length so far)", LIB,
    LINE + ["the machine's memory: operator new refuses what exceeds it, and everything during a shortage"],
    NORM_A + ["a normalizer may use 128 bytes for each codepoint (decomposed) that it has to hold, and the machine 48 KiB beside that"],
    faults=("fault_", "damage_"), probes=["flushes", "long_streams", "fault_out_of_memory_for_a_while", "fault_connection_lost"])
add("C20", b.build_query, "hash of (subcommand, fault kinds that fired, exit status, number of writes, length of the output)",
    ["unicode-query, compiled from /repo and linked statically, with the whole library and tables generated by /repo's table generator", "the C and C++ libraries' output buffers"],
    ["the system calls that write to, close and ask about standard output and standard error"],
    [UCDTRUST, "what the properties of a codepoint are is compared between machines, not with a model"],
    faults=("fault_", "damage_"), probes=["reported_failure", "reported_success", "on_a_terminal", "into_a_file", "fault_short_write", "fault_no_room_left"])
add("C13", b.build_threads, "hash of the order in which the threads came to statics, atomics, guards and locks, and of the scheduler's switches",
    ["the whole library, compiled from /repo with tables generated by /repo's table generator, and the standard library's templates it instantiates, carrying ThreadSanitizer's instrumentation"],
    ["the thread scheduler, static-initialisation guards, mutexes, read-write locks, once flags and condition variables (sim/simthreads.cpp)"],
    ["each execution is sequentially consistent: reorderings that only weakly ordered hardware shows are not simulated, but the race detector reports the unsynchronised accesses that would allow them",
     "code inside the C and C++ runtime libraries runs without scheduling points"],
    faults=("fault_",), probes=["fault_preemption", "accesses_to_statics", "calls_compared", "blocked_on_another_thread"])

TG_REAL = ["the table generator (src/libunicode/tablegen), from main() on, with the C++ standard library's streams"]
TG_STUB = ["the operating system below the C library's file, clock, randomness and memory functions (sim/vfs.cpp): disk, files, power, clock, heap"]
TG_A = ["the input database is the one in /usr/share/unicode, most often samples of its lines", "what a correct table contains is not judged here (N01): the oracle is the generator's own run on an undisturbed machine"]
add("C17", b.build_tablegen, "hash of (fault kinds fired, exit status, numbers of opens, reads and writes done)", TG_REAL, TG_STUB, TG_A + ["ending by std::terminate or an assertion when memory runs out is a failure status"],
    faults=("fault_",), probes=["fault_EIO", "fault_EINTR", "fault_short_transfer", "fault_ENOENT", "fault_alloc", "reported_failure", "reported_success"], quick=70)
add("C18", b.build_tablegen, "hash of (fault kinds fired, exit status, numbers of opens, reads and writes done)", TG_REAL, TG_STUB, TG_A,
    faults=("fault_",), probes=["fault_EIO", "fault_torn_write", "fault_short_transfer", "fault_disk_full", "fault_ENOSPC", "reported_failure", "reported_success"], quick=70)
add("C19", b.build_tablegen, "hash of (fault kinds fired, exit status, numbers of opens, reads and writes done)", TG_REAL, TG_STUB, TG_A + ["runs do not overlap"],
    faults=("fault_",), probes=["fault_power_loss", "ended_by_power_loss", "reported_success"], quick=70)
