"""One entry per property: build configurations, harness files, case budgets."""

def cfg(name, harness, shims=(), need=(), defs=(), weight=1, **kw):
    return dict(name=name, harness=[harness] if isinstance(harness, str) else list(harness), shims=[shims] if isinstance(shims, str) else list(shims), need=list(need), defs=list(defs), weight=weight, **kw)

PROPS = {}

def prop(pid, configs, quick, thorough, assumptions=()):
    PROPS[pid] = dict(configs=configs, quick=quick, thorough=thorough, assumptions=list(assumptions))

CB = ["collections/circular_buffer.c"]
prop("C01", [cfg("u8", "h_cbuf.cpp", "h_cbuf_shim.c", CB, weight=3),
             cfg("u32", "h_cbuf.cpp", "h_cbuf_shim.c", CB, ["GEL_CBUF_TYPE=uint32_t"]),
             cfg("u64", "h_cbuf.cpp", "h_cbuf_shim.c", CB, ["GEL_CBUF_TYPE=uint64_t"])], 1130000, 20340000)
TSAN = dict(san=False, repo_flags=["-fsanitize=thread", "-fsanitize-coverage=trace-pc,trace-cmp", "-Dmemcpy=sched_memcpy", "-Dmemmove=sched_memmove", "-fno-builtin"])
prop("C02", [cfg("u32", "h_cbufmt.cpp", "h_cbuf_shim.c", CB, ["GEL_CBUF_TYPE=uint32_t"], **TSAN),
             cfg("u8", "h_cbufmt.cpp", "h_cbuf_shim.c", CB, ["GEL_CBUF_TYPE=uint8_t"], **TSAN)], 4800000, 86400000,
     ["sequentially consistent memory; every access to the shared struct and storage is a scheduling point, block copies are preempted between elements"])
prop("C03", [cfg("std", "h_coll.cpp", "h_queue_shim.c", [], ["IS_QUEUE"])], 240000, 4320000, ["capacities are powers of two, as in every caller and as the index mask requires"])
prop("C04", [cfg("std", "h_coll.cpp", "h_stack_shim.c", [])], 240000, 4320000)
prop("C05", [cfg("std", "h_list.cpp", "h_list_shim.c", [], weight=3), cfg("own-offsetof", "h_list.cpp", "h_list_shim.c", [], ["OWN_OFFSETOF"])], 2550000, 45900000, ["an element is in at most one list at a time, as the embedded link requires"])
EL = ["circular_event_log/circular_event_log.c"]
prop("C06", [cfg("std", "h_elog.cpp", "h_elog_shim.c", EL)], 1690000, 30420000)
prop("C07", [cfg("std", "h_elog.cpp", "h_elog_shim.c", EL, ["FAULTS"])], 3000000, 54000000)
prop("C08", [cfg("std", "h_crc.cpp", [], ["crc/crc16-ccitt.c"], ["IS16"])], 2400000, 43200000)
prop("C09", [cfg("std", "h_crc.cpp", [], ["crc/crc32.c"])], 2400000, 43200000)
prop("C10", [cfg("std", "h_maybe.cpp", "h_maybe_shim.c", [])], 1200000, 21600000)
prop("C11", [cfg("std", "h_supd.cpp", "h_supd_shim.c", ["data_structures/struct_update.c"])], 1640000, 29520000)
def clk(n): return [f"GEL_CUSTOM_TIMESTAMP_TYPE=uint{n}_t", f"CONF_TSBITS={n}"]   # a clock narrower than unsigned long
W = ["data_structures/watcher.c"]
def watch(defs):
    k = dict(repo_flags=["-Dmalloc=w_malloc"])
    M, R = "GEL_MALLOC_AVAILABLE=1", "GEL_WATCHER_REDUCE_RAM_FOOTPRINT"
    return [cfg("malloc", "h_watch.cpp", "h_watch_shim.c", W, defs + [M], weight=2, **k),
            cfg("static", "h_watch.cpp", "h_watch_shim.c", W, defs + ["GEL_STATIC_BLOCK_SIZE=48"], **k),
            cfg("reduced", "h_watch.cpp", "h_watch_shim.c", W, defs + [M, R], **k),
            cfg("reduced-static", "h_watch.cpp", "h_watch_shim.c", W, defs + [R, "GEL_STATIC_BLOCK_SIZE=100"], **k)]
prop("C12", watch([]), 1260000, 22680000, ["callbacks do not write to the memory they are called for, nor to memory that several elements watch"])
prop("C13", watch(["C13"]) + [cfg(f"clock{n}", "h_watch.cpp", "h_watch_shim.c", W, ["C13", "GEL_MALLOC_AVAILABLE=1"] + clk(n), repo_flags=["-Dmalloc=w_malloc"]) for n in (32, 16)], 1350000, 24300000, ["callbacks do not write to the memory they are called for, nor to memory that several elements watch"])
prop("C14", [cfg("std", "h_debounce.cpp", [], ["debounce/debounce.c"])], 440000, 7920000, ["the debounce length changes only while no run is in progress"])
prop("C15", [cfg("std", "h_debounce.cpp", [], ["debounce/pulsecounter.c"], ["PULSE"])], 550000, 9900000, ["the debounce length changes only while no run is in progress"])
prop("C16", [cfg("std", "h_keypad.cpp", [], ["keypad/keypad.c"], weight=4)] + [cfg(f"clock{n}", "h_keypad.cpp", [], ["keypad/keypad.c"], clk(n)) for n in (32, 16)], 4280000, 77040000, ["click time <= long click time; clock steps forward by less than half its range in total"])
PM = ["pagemanager/page_manager.c"]
def pages(defs):
    U, k = "GEL_PAGEMANAGER_UPDATE_CALLBACK", dict(must_compile=True)
    return [cfg("update", "h_page.cpp", "h_page_shim.c", PM, defs + [U, "PMAN_VIEW_NULL=777", "PMAN_DATA_NULL=888"], weight=2, **k),
            cfg("plain", "h_page.cpp", "h_page_shim.c", PM, defs + ["PMAN_VIEW_NULL=-3"], **k),
            cfg("ndebug", "h_page.cpp", "h_page_shim.c", PM, defs + [U, "NDEBUG", "PMAN_NAVIGATION_DEPTH=3"], **k),
            cfg("void", "h_page.cpp", "h_page_shim.c", PM, defs + ["CONF_VOID_VIEW", "PMAN_NAVIGATION_DEPTH=8"], **k),
            cfg("void-update", "h_page.cpp", "h_page_shim.c", PM, defs + ["CONF_VOID_VIEW", U, "PMAN_NAVIGATION_DEPTH=1"], **k)]
PA_ = ["create, open, close and destroy callbacks do not navigate, event and update callbacks sent by the caller may; navigation stays within the configured depth; back, events and updates need a current page and, for events, an event callback"]
prop("C17", pages([]), 1110000, 19980000, PA_)
prop("C18", pages(["C18"]), 1600000, 28800000, PA_)
PR = ["parameter/parameter.c"]
def params(part, **k):
    return [cfg(f"max{n}", "h_param.cpp", "h_param_shim.c", PR, [f"PART={part}", f"GEL_PARAMETER_MAX_SIZE={n}"], weight=w, **k) for n, w in ((8, 4), (4, 1), (2, 1), (1, 1))] + [
            cfg("packed", "h_param.cpp", "h_param_shim.c", PR, [f"PART={part}", "GEL_PARAMETER_HANDLE_ATTRIBUTES=__attribute__((packed))", "GEL_PARAMETER_USER_DATA=uint16_t"], **k)]
prop("C19", params(19), 3200000, 57600000, ["floating point parameters are stepped by representable distances whose sums with the value are exact, or far outside the limits"])
prop("C20", params(20), 1430000, 25740000, ["refresh hooks are idempotent"])
prop("C21", params(21), 1600000, 28800000, ["look-up indices are below the array length, as the library asserts; refresh hooks are idempotent"])
prop("C22", params(22, must_compile=True), 2910000, 52380000)
PI = ["pid/pid.c"]
def pid(defs):
    c = lambda n, ty, h, d, w=1, out=None: cfg(n, "h_pid.cpp", [], PI, defs + ([f"CONF_PID_OUT={out}"] if out else []) + [f"CONF_PID_TYPE={ty}", f"GEL_PID_INTEGRAL_HISTORY_SIZE={h}", f"GEL_PID_DERIVATIVE_DELTA={d}"], weight=w)
    return [c("int", "int", 5, 3, 3), c("int-default", "int", 200, 5), c("double", "double", 4, 1), c("float", "float", 7, 4), c("int16", "int16_t", 3, 2), c("int-long", "int", 300, 270), c("one", "long", 1, 1),
            c("int16-double", "int16_t", 6, 3, 1, "double"), c("int-float", "int", 2, 4, 1, "float"), c("int16-long", "int16_t", 4, 2, 1, "long")]
PIA = ["gains and values are dyadic fractions small enough that every product and sum is exact in the configured types"]
prop("C23", pid([]), 2220000, 39960000, PIA)
prop("C24", pid(["C24"]), 2800000, 50400000, PIA)
SC = ["scheduler/scheduler.c"]
def sched(part, dyn=False):
    r = [cfg(f"n{n}", "h_sched.cpp", [], SC, [f"PART={part}", f"GEL_SCHEDULER_MAX_ENTRIES={n}"], weight=w) for n, w in ((7, 3), (16, 1), (2, 1))]
    if part < 27: r.append(cfg("n300", "h_sched.cpp", [], SC, [f"PART={part}", "GEL_SCHEDULER_MAX_ENTRIES=300"], weight=0.06, slow=8))
    return r + ([cfg("dynamic", "h_sched.cpp", [], SC, [f"PART={part}", "GEL_SCHEDULER_DYNAMIC_ENTRIES"], must_compile=True)] if dyn else [])
SA = ["windows start within the day, last at most 24 hours and end after they start; an overnight window belongs to the weekdays it is listed for (the module's documented limitation)"]
prop("C25", sched(25), 2480000, 44640000, SA)
prop("C26", sched(26), 4280000, 77040000, SA + ["windows that only touch at an edge may or may not be counted"])
prop("C27", [cfg("std", "h_sched.cpp", [], SC, ["PART=27"])], 6400000, 115200000)
prop("C28", sched(28, True), 3200000, 57600000, SA)
prop("C29", [cfg("std", "h_ser.cpp", "h_ser_shim.c", [])], 9600000, 172800000, ["little-endian host with two's complement integers"])
prop("C30", [cfg("std", "h_sm.cpp", "h_sm_shim.c", [])], 5950000, 107100000, ["handlers return states that exist"])
def tc(n, ty, w=1): return cfg(n, "h_timecheck.cpp", "h_timecheck_shim.c", [], [f"GEL_CUSTOM_TIMESTAMP_TYPE={ty}"] if ty else [], weight=w)
prop("C31", [tc("default", None, 3), tc("u64", "uint64_t"), tc("ull", "unsigned long long"), tc("u32", "uint32_t", 2), tc("u16", "uint16_t"), tc("u8", "uint8_t"), tc("i64", "int64_t"), tc("i32", "int32_t"),
             cfg("header", "h_timecheck.cpp", "h_timecheck_shim.c", [], ['GEL_TIMECHECK_CONFIGURATION_HEADER="gel_tc.h"', "CONF_TS=uint32_t"]),
             cfg("unchecked", "h_timecheck.cpp", "h_timecheck_shim.c", [], ["GEL_IGNORE_TIME_TYPECHECK"]), cfg("unchecked-u16", "h_timecheck.cpp", "h_timecheck_shim.c", [], ["GEL_IGNORE_TIME_TYPECHECK", "GEL_CUSTOM_TIMESTAMP_TYPE=uint16_t"])], 6400000, 115200000,
     ["points less than half the clock range apart; signed timestamp types do not overflow"])
prop("C32", [cfg("std", "h_stopwatch.cpp", "h_timer_shim.c", ["timer/stopwatch.c"], weight=4)] + [cfg(f"clock{n}", "h_stopwatch.cpp", "h_timer_shim.c", ["timer/stopwatch.c"], clk(n)) for n in (32, 16)], 3860000, 69480000, ["each running stretch is shorter than half the clock range; the elapsed time fits the timestamp type"])
prop("C33", [cfg(n, "h_timer.cpp", ["h_timer_shim.c", "h_timer_null_shim.c"], ["timer/timer.c", "timer/stopwatch.c"], d, weight=w, must_compile=True) for n, d, w in (("std", [], 4), ("clock32", clk(32), 1))], 3600000, 64800000,
     ["callbacks may stop, reset, re-initialise or change the period of their own timer, but not pause it or leave it with a period of 0; an expired timer that is paused may fire or wait; running stretches shorter than half the clock range"])
WL = ["wearleveling/wearleveling.c"]
def wl(part): return [cfg("std", "h_wl.cpp", [], WL, [f"PART={part}"])]
prop("C34", wl(34), 1220000, 21960000, ["1 to 255 blocks; at least one byte per transfer"])
prop("C35", wl(35), 1200000, 21600000, ["a block write stores its data and marker together; the storage starts erased with one marker value"])
prop("C36", wl(36), 1440000, 25920000, ["a failed block write leaves the marker of its block, and every other block, as they were; after an initialisation that could not read the markers nothing is written before the next restart"])
