#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

CB = "gel/collections/circular_buffer.c"
p("C01", "Circular buffer is an exact bounded FIFO",
  "A circular buffer over storage of N elements behaves as a FIFO queue holding at most N-1 elements: writes store exactly as many leading elements as fit and report that number, reads and drops return and remove exactly the oldest elements up to what is stored, peeks return the same without removing, and nothing is lost, duplicated, reordered or written outside the storage. "
  "The reported size, emptiness, fullness and capacity always agree with the stored contents. Calls given no buffer at all are refused and touch nothing.",
  ["histories", "inputs", "configurations"], "every buffer size, element type, and sequence of single/bulk puts, gets, peeks, drops and resets with any lengths, including lengths that exactly meet, exceed or wrap around the free or stored space",
  "the tests use a handful of fixed lengths on one or two buffer sizes; the faults live at particular combinations of head, tail, length and size",
  [CB, "gel/collections/circular_buffer.h"], [("chunked copy around the end of the storage", CB + ": circular_buf_puts, _circular_buf_get"), ("index arithmetic modulo the storage size", CB + ": advance_pointer, retreat_pointer, circular_buf_size")],
  ["return values, output arrays, size/empty/full/capacity after every operation, bytes around the storage"],
  [("head/tail", "next write / next read position; equal means empty", CB)])
p("C02", "Circular buffer is safe with one producer and one concurrent consumer",
  "With one producer thread and one consumer thread operating concurrently, every element handed over by a successful write is read exactly once, in order and with its value intact, and both sides' calls terminate. "
  "A write stores at least as many elements as were free when it started (up to the length asked), a read returns at least as many as were stored when it started, and size, emptiness and fullness reported to either side were true at some instant during the call.",
  ["schedules", "histories"], "every interleaving of the memory accesses of one producer and one consumer, for every buffer size and sequence of operations on each side (sequentially consistent memory)",
  "the tests are single threaded; the header promises a producer/consumer split that no test exercises",
  [CB, "gel/collections/circular_buffer.h"], [("producer writes only the head, consumer writes only the tail, data is copied before the index is published", CB + ": circular_buf_puts, circular_buf_putc, _circular_buf_get, circular_buf_getc")],
  ["sequence of elements read against the sequence of elements accepted; step budget for termination"])
p("C03", "Typed queue is an exact bounded FIFO for any number of transfers",
  "A typed queue of power-of-two capacity (at most 32768) accepts an item exactly when fewer than its capacity are stored, hands items back unchanged in insertion order, and reports count, emptiness and fullness that agree with the stored items, no matter how many items have passed through it. "
  "Dropping or dequeueing without a destination removes the oldest item; a refused operation changes nothing.",
  ["histories", "inputs", "configurations"], "every item type, power-of-two capacity and operation sequence, including more than 65536 transfers through one queue",
  "the tests push fewer items than the internal counters can hold and never look past their wrap-around",
  ["gel/collections/queue.h"], [("free running 16-bit indices masked by capacity - 1", "gel/collections/queue.h: QUEUE_DEFINITION")], ["results of enqueue/dequeue/drop/count/is_empty/is_full"],
  [("read_idx/write_idx", "free running counters", "gel/collections/queue.h")])
p("C04", "Typed stack is an exact bounded LIFO",
  "A typed stack (of at most 65535 items) accepts an item exactly when fewer than its capacity are stored, pops items unchanged in reverse order of insertion, and peeking returns the item the next pop would return without removing it. "
  "Removing from the bottom discards the oldest item and keeps the others in order; emptiness and fullness agree with the stored items, and refused operations change nothing.",
  ["histories", "inputs", "configurations"], "every item type, capacity and sequence of push, pop, peek, remove-from-bottom and queries",
  "no test covers the stack directly",
  ["gel/collections/stack.h"], [("array with a fill index", "gel/collections/stack.h: STACK_DEFINITION")], ["results of push/pop/peek/dequeue/is_empty/is_full"])
p("C05", "Intrusive list keeps exactly the inserted elements, in order, both ways",
  "After any sequence of insertions at the head or tail and removals, walking an intrusive doubly linked list forwards visits exactly the elements currently inserted, in order, and walking it backwards visits exactly the reverse. "
  "Emptiness, last-element, next and previous queries agree with that order, and element iteration recovers the enclosing objects.",
  ["histories", "configurations"], "every sequence of head/tail insertions, removals and re-insertions over several lists, with the link field at any position in the element",
  "no test includes the list header",
  ["gel/collections/listx.h"], [("symmetric link updates on insert and delete", "gel/collections/listx.h: __list_add, __list_del"), ("container_of arithmetic", "gel/collections/listx.h: container_of, list_for_each_entry")], ["forward and backward traversal, list_empty, list_is_last, list_next, list_prev"])
EL = "gel/circular_event_log/circular_event_log.c"
p("C06", "Event log returns exactly the requested window of the newest events",
  "After any number of recorded events the log reports min(recorded, maximum) events, and loading the last K events skipping the newest J returns, oldest first, exactly the events of that window that still exist, as many as exist, and touches no storage position outside the log. "
  "Recording an event evicts only the oldest one, and only when the log is full.",
  ["histories", "inputs", "configurations"], "every maximum, event size, number of recorded events, requested number (up to the largest integer) and skip",
  "the tests use one small log and a few windows; boundaries arise for each combination of fill level, wrap position, number and skip",
  [EL, "gel/circular_event_log/circular_event_log.h"], [("write position and full-circle flag", EL + ": circular_event_log_new_event"), ("window start and two-part load around the end", EL + ": circular_event_log_load_last_events, nth_last_event")],
  ["calls to the storage callbacks, returned count and loaded bytes"], [("next_position/full_circle", "where the next event goes / whether older events are overwritten", "gel/circular_event_log/circular_event_log.h")])
p("C07", "Event log stays consistent when storage operations fail",
  "When the storage refuses to save an event, the recording call reports that error and the log behaves as if the call had not been made; when the storage fails to load any part of a requested window, the load call reports the failure instead of a count. "
  "A storage fault never changes which events later successful calls return.",
  ["fault_sequences", "histories"], "every history of recordings and loads with storage errors injected at any callback invocation, including only the second part of a wrapped load",
  "the test storage never fails",
  [EL], [("position advances only after a successful save", EL + ": circular_event_log_new_event"), ("load result propagation", EL + ": circular_event_log_load_last_events")], ["return codes; contents returned by later loads"])
p("C08", "CRC-16/CCITT equals its polynomial definition and can be chained",
  "For every byte string and initial value, the 16-bit checksum equals the bit-by-bit division by x^16+x^12+x^5+1 (most significant bit first, no reflection, no final inversion). "
  "Computing it over a string in any number of pieces, feeding each result as the next initial value, gives the same result as one call, and the input is not modified or read out of bounds.",
  ["inputs"], "every byte string (including empty and longer than 65536 bytes), initial value and split into pieces",
  "no test computes a CRC; a wrong table entry shows only for particular byte/remainder pairs",
  ["gel/crc/crc16-ccitt.c", "gel/crc/crc16-ccitt.h"], [("byte-wise table lookup", "gel/crc/crc16-ccitt.c: crc16_ccitt")], ["return value against a bitwise reference"])
p("C09", "CRC-32 equals its polynomial definition and can be chained",
  "For every byte string and initial value, the 32-bit checksum equals the bit-by-bit division by the polynomial 0x04c11db7 (most significant bit first, no reflection, no final inversion). "
  "Computing it over a string in any number of pieces, feeding each result as the next initial value, gives the same result as one call, and the input is not modified or read out of bounds.",
  ["inputs"], "every byte string (including empty and longer than 65536 bytes), initial value and split into pieces",
  "no test computes a CRC; a wrong table entry shows only for particular byte/remainder pairs",
  ["gel/crc/crc32.c", "gel/crc/crc32.h"], [("byte-wise table lookup", "gel/crc/crc32.c: crc32")], ["return value against a bitwise reference"])
p("C10", "Maybe values obey the nullable laws",
  "A maybe holding a value yields that value, and mapping or binding a function applies it exactly once to that value; a maybe holding nothing yields the supplied default, is reported as nothing, and passes through map and bind unchanged without the function being called. "
  "Map and bind satisfy the functor and monad laws (identity, composition, left and right unit, associativity).",
  ["inputs", "programs"], "every value of the held type and every chain of return, nothing, map, bind, is-just and with-default",
  "the tests check a few integer values and one function",
  ["gel/data_structures/maybe.h"], [("nothing flag tested before use", "gel/data_structures/maybe.h: MAYBE_DEFINITION")], ["results and number of calls of the mapped functions"])
p("C11", "Struct updates are faithful snapshots that change only their bytes",
  "Applying a recorded struct update writes into the target exactly the bytes captured when the update was created, at the field's offset and for the requested number of elements, and leaves every other byte of the target unchanged. "
  "The captured value is independent of later changes to the source, and an update can be applied any number of times to any number of objects until it is freed, which releases all memory it holds.",
  ["inputs", "histories"], "every field offset and size, array length expression, and order of captures, source changes, applications and frees",
  "the tests apply two or three literal updates once each",
  ["gel/data_structures/struct_update.c", "gel/data_structures/struct_update.h"], [("deep copy of the value on creation", "gel/data_structures/struct_update.c: struct_update_from_data"), ("offset copy on application", "gel/data_structures/struct_update.c: struct_update_apply")], ["bytes of the target object before and after"])
W = "gel/data_structures/watcher.c"
p("C12", "Watcher reports each change of watched memory exactly once",
  "A check reports a change exactly when some watched memory differs from its contents when changes were last processed, cleared or initialised, and never consumes it; processing reports and consumes the changes and calls, exactly once and in list order, the callback of every changed element without delay, with that element's memory and user data. "
  "Clearing consumes changes without any callback, and triggering calls exactly the requested callbacks. A change that a callback makes to memory watched by another element is not lost: the processing under way or the next one reports it.",
  ["histories", "inputs", "configurations"], "every list of watched blocks (any sizes, overlapping or not) and every sequence of writes, checks, processing, clearing and triggering, in the malloc, static-block and reduced-footprint configurations",
  "the tests watch two or three scalars with a few writes",
  [W, "gel/data_structures/watcher.h"], [("shadow copy compared with current memory", W + ": watcher_process_changes, watcher_check_for_changes, watcher_clear_changes")], ["return values and the log of callback invocations"])
p("C13", "Delayed watcher callbacks fire once, after the delay since the last change",
  "For an element with a delay, a change makes its callback fire exactly once, at the first processing that sees no new change and comes at least the delay after the processing that saw the last change, including when the clock wraps around; further changes restart the delay. "
  "Clearing changes cancels the pending callback.",
  ["histories", "inputs", "configurations"], "every sequence of writes, processing calls and clears with any timestamps (spanning less than half the clock range, wrap-around included) and delays",
  "the tests use one delay and small timestamps",
  [W, "gel/timer/timecheck.h"], [("timestamp and moved flag per element", W + ": watcher_process_changes"), ("wrap-safe expiry test", "gel/timer/timecheck.h: is_expired")], ["callback log against timestamps"])
D = "gel/debounce/debounce.c"
p("C14", "Debounce filter accepts an input only after it has been stable long enough",
  "For each input line independently, the filtered value changes only when the raw level has differed from the filtered level for a full run of debounce+1 consecutive readings (a single reading when the debounce is zero), and any agreeing reading restarts the run. "
  "The filter reports exactly which lines changed at each call, initialising or presetting the filter discards every partial run, and a line that does not exist reads as -1.",
  ["histories", "inputs"], "every sequence of readings, all-lines or single-line, on every line including the highest, any debounce length, presets in between, any previous memory contents at initialisation",
  "the tests debounce one or two lines with one debounce value",
  [D, "gel/debounce/debounce.h"], [("per-line countdown reset on agreement", D + ": debounce_filter_single")], ["filtered value after every call, change report"], [("debounce_count", "readings still required per line", "gel/debounce/debounce.h")])
p("C15", "Pulse counter counts each debounced edge exactly once",
  "For each input line independently, the counter increases by one exactly when the line's level, debounced over debounce+1 consecutive readings, makes the counted transition, and the debounced level agrees with that history. "
  "Glitches shorter than the debounce count nothing, the update call reports whether any counter moved, clearing a count affects only that line, and initialisation starts every line at the given level with a zero count and no partial run; a line that does not exist has count and level -1.",
  ["histories", "inputs"], "every sequence of readings on all lines, any debounce length, any previous memory contents at initialisation",
  "the tests drive one line with one debounce value",
  ["gel/debounce/pulsecounter.c", "gel/debounce/pulsecounter.h"], [("per-line reading run and edge detection", "gel/debounce/pulsecounter.c: pulse_filter")], ["counters, digital reads and change report after every call"])
K = "gel/keypad/keypad.c"
p("C16", "Keypad turns key readings into the documented event sequence",
  "For every sequence of readings each key yields press on contact, then click after the click time, long click after the long-click time, repeated pressing or long press events at the repeat period while held, and release when let go, each reported once, for one key at a time and with that key's code. "
  "The reported key state is on exactly while the key is the one being held, after a reset every key starts afresh, and the timing is unaffected by clock wrap-around.",
  ["histories", "inputs"], "every keypad, sequence of readings (including direct changes from one key to another, bounces and unknown values), time steps, thresholds with click <= long click, and resets",
  "the tests follow a few scripted presses of two keys",
  [K, "gel/keypad/keypad.h"], [("per-key event automaton and scan order", K + ": keypad_routine"), ("wrap-safe expiry", "gel/timer/timecheck.h: is_strictly_expired")], ["event and code returned by every call, keypad_get_key_state"])
PM = "gel/pagemanager/page_manager.c"
p("C17", "Page callbacks always follow the create-open-close-destroy lifecycle",
  "Through any navigation, each page instance is created once with the model and argument given, opened only while created and closed, closed only while open, and destroyed exactly once, closed, with its own data and argument; at most one page is open at a time and exactly one whenever a page is current. "
  "No callback is ever invoked for a page that has been destroyed or never created, and a missing create, open, close, destroy or update callback is skipped.",
  ["histories", "configurations"], "every sequence of change, swap, rebase, back and reset-to-page navigation over pages with any subset of callbacks, in every build configuration (update callback on or off, assertions on or off, void view type)",
  "the page manager does not even compile in the tested build; its test file is left out",
  [PM, "gel/pagemanager/page_manager.h"], [("close/destroy the old page, create/open the new one", PM + ": pman_swap_page_extra, pman_rebase_page_extra, pman_change_page_extra, pman_back, pman_reset_to_page")], ["log of page callbacks with their arguments"])
p("C18", "Page navigation behaves as a stack and events go to the current page",
  "The current page after any navigation is the one a stack of pages dictates: change pushes, swap replaces the top, rebase leaves only the new page, back restores the previous page with its original data (and does nothing on the last one), and reset-to-page unwinds to the nearest earlier page with the given id, reporting whether it was found. "
  "Events and updates reach exactly the current page with its own data and the caller's model, and the result of its callback is returned; with the update callback built in, every navigation that ends on a page also updates that page and returns the result.",
  ["histories", "configurations"], "every navigation sequence up to the configured depth, interleaved with events and updates, in every build configuration",
  "the page manager does not even compile in the tested build; its test file is left out",
  [PM, "gel/pagemanager/page_manager.h"], [("navigation stack of saved pages", PM + ": navigation_stack_*"), ("event and update dispatch", PM + ": pman_process_page_event, pman_page_update")], ["callback log, returned views and messages, found flag"])
PA = "gel/parameter/parameter.c"
p("C19", "Stepping a parameter never leaves its range",
  "Stepping a parameter by any signed number of steps from an in-range value yields the exact sum when that is within the minimum and maximum in force, and otherwise wraps to the minimum when stepping up or to the maximum when stepping down, computed without overflow for every type. "
  "Limits given by pointer take precedence over fixed limits, and nothing but the parameter's value changes.",
  ["inputs", "configurations"], "every parameter type, limits (fixed or by pointer, up to the whole range of the type), step, value and signed number of steps",
  "the tests step a few small integers well inside their type",
  [PA, "gel/parameter/parameter.h"], [("add, range test and wrap", PA + ": APPLY_OPERATOR, parameter_operator")], ["the parameter's memory before and after"])
p("C20", "Range check restores exactly the out-of-range parameters",
  "Checking ranges sets to its default every parameter whose value is not within the limits in force (not-a-number values included), leaves every other parameter untouched, and returns how many it restored, so that a second check finds nothing to restore when the defaults are in range. "
  "Resetting to defaults sets every parameter to its default whatever its access level.",
  ["inputs", "configurations"], "every array of parameters of mixed types, values, limits (fixed or by pointer), defaults and access levels",
  "the tests check a few integer parameters",
  [PA], [("comparison with the limits in force", PA + ": CHECK_RANGE, parameter_check_ranges"), ("default assignment", PA + ": SET_DEFAULT, parameter_reset_to_defaults")], ["values after the call, returned count"])
p("C21", "Parameter enumeration respects access levels consistently",
  "For any access mask, a parameter is visible exactly when its access level is zero or shares a bit with the mask; the count equals the number of visible parameters, and looking up index k returns the k-th visible parameter in array order, or nothing once k reaches the count. "
  "Counting, looking up, checking ranges and resetting invoke the refresh hook of each parameter they examine before its access level and limits are used, with its own handle and argument.",
  ["inputs", "histories"], "every array of parameters with any access levels and hooks (including hooks that change access levels), any mask and index",
  "the tests enumerate one fixed array with one or two masks",
  [PA], [("visibility test while scanning", PA + ": parameter_get_handle, parameter_get_count")], ["returned count and handles, hook invocation log"])
p("C22", "Parameter conversions, copies and descriptions preserve the value",
  "Converting an integer parameter to a long, boolean, index or formatted text gives its exact value, copying or cloning a parameter reproduces its value bit for bit and rejects mismatched types, and the number of possible values equals maximum minus minimum plus one for every integer type. "
  "A parameter built with the declaration macros has the type, limits, default and step it was given, for every supported type and maximum-size configuration.",
  ["inputs", "configurations"], "every parameter type, value and limits, for maximum parameter sizes of 1, 2, 4 and 8 bytes",
  "the tests use small positive values, for which narrowing and sign faults are invisible",
  [PA, "gel/parameter/parameter.h"], [("type switch per conversion", PA + ": parameter_to_long, parameter_to_index, parameter_to_string_format, parameter_get_total_values, parameter_copy_value, parameter_clone, parameter_clone_with_buffer"), ("type-generic declaration macros", "gel/parameter/parameter.h: PARAMETER_FULL, PARAMETER_C99")], ["return values, text produced, bytes of the destination"])
PI = "gel/pid/pid.c"
p("C23", "PID proportional and derivative terms follow the recent errors",
  "The current error is always set point minus latest input, the proportional term is the proportional gain times it, and the derivative term is the derivative gain times the difference between the current error and the oldest error within the configured derivative window (zero before two inputs, zero while its threshold is enabled and the error magnitude exceeds it). "
  "The total output is the sum of the three terms.",
  ["histories", "inputs", "configurations"], "every sequence of inputs, set-point changes, tunings and threshold settings, for any window length and value type",
  "the tests feed a short fixed sequence with one window length",
  [PI, "gel/pid/pid.h"], [("ring of past errors", PI + ": pid_add_input, pid_compute_d")], ["pid_current_error, pid_compute_p, pid_compute_d, pid_compute"])
p("C24", "PID integral term sums exactly the admitted errors of its window",
  "The integral term is the integral gain times the sum of the errors recorded by the last H inputs, H being the configured history length, where an input whose error is not below the threshold enabled for its sign contributes zero. "
  "Clearing the history, or a change of sign of the error when automatic clearing is on, removes all earlier contributions, and every input ages out after H further inputs.",
  ["histories", "inputs", "configurations"], "every sequence of inputs (including zero errors), set-point changes, threshold and auto-clear settings and clears, longer than the history, for several history lengths and value types",
  "the tests do not run past the 200-entry history with mixed errors and thresholds",
  [PI], [("ring of admitted errors", PI + ": pid_add_input, pid_compute_i, pid_clear_integral_history")], ["pid_compute_i after every operation"])
S = "gel/scheduler/scheduler.c"
p("C25", "Scheduler selects the most specific active entry",
  "At any instant the selected entry is an enabled entry whose days include the current weekday and whose time window contains the current second (windows that run past midnight included), and among all such entries it has the smallest total weekly time, ties going to the highest value. "
  "Nothing is selected exactly when no enabled entry is active.",
  ["inputs", "configurations"], "every set of entries (any days, windows, values, enabled flags) and every instant of the week, with fixed or dynamic entry tables of any size",
  "no test covers the scheduler",
  [S, "gel/scheduler/scheduler.h"], [("activity test", S + ": is_entry_active"), ("selection by weekly timespan then value", S + ": scheduler_get_active_entry_number, total_week_timespan")], ["scheduler_get_active_entry_number, scheduler_is_active, scheduler_current_value"])
p("C26", "Scheduler overlap detection counts every colliding entry",
  "The overlap count of a candidate entry includes every enabled scheduled entry for which some instant of some common weekday lies in both time windows (windows that run past midnight included). "
  "It never includes entries that are disabled, share no weekday, or whose time windows are separated by a gap.",
  ["inputs"], "every candidate and set of scheduled entries",
  "no test covers the scheduler",
  [S], [("endpoint inclusion tests", S + ": scheduler_are_there_overlapping_entries")], ["returned count against exhaustive interval intersection"])
p("C27", "Schedule entries survive serialization",
  "Serializing an entry produces exactly 11 bytes: enabled flag, days, start and end second as little-endian 32-bit numbers, and the value as one byte. "
  "Deserializing them gives back an equal entry for every value from 0 to 255, consuming 11 bytes, without touching memory outside the buffers.",
  ["inputs"], "every entry with a value in 0..255 and every 11-byte string",
  "no test covers the scheduler",
  [S], [("field by field packing", S + ": scheduler_entry_serialize, scheduler_entry_deserialize")], ["bytes produced, fields restored"])
p("C28", "Scheduler table operations and durations are consistent",
  "A freshly initialised scheduler has all entries empty and disabled, setting an entry changes exactly that entry, out-of-range indices are rejected without any effect, and the queries for entry, enabled state, next enabled and first available entry agree with the stored entries. "
  "The active-entries map marks exactly the enabled active entries (of the first sixteen), and the remaining duration of an active entry is the number of seconds until its current window closes (zero when it is not active).",
  ["histories", "inputs", "configurations"], "every sequence of table operations with any index, and every instant, with fixed and dynamic tables",
  "no test covers the scheduler",
  [S, "gel/scheduler/scheduler.h"], [("bounds-checked table access", S + ": scheduler_get_entry, scheduler_set_entry, scheduler_disable_schedule_entry"), ("activity and duration", S + ": scheduler_get_active_entries_map, scheduler_get_schedule_remaining_duration")], ["return values of the table and duration queries"])
p("C29", "Integer serialization is an exact, endian-correct round trip",
  "Serializing an unsigned integer writes exactly its width in bytes, least or most significant byte first as named, and deserializing those bytes gives back the same value and the same width, with signed variants recovering the two's complement value. "
  "Neither direction reads or writes outside those bytes, and the pack and unpack helpers agree with the plain functions.",
  ["inputs"], "every value of every width, signedness and byte order, at any alignment",
  "the tests check a few values per function, so a wrong shift for particular bytes can hide",
  ["gel/serializer/serializer.h"], [("byte shifts", "gel/serializer/serializer.h: serialize_*, deserialize_*"), ("macros over them", "gel/serializer/serializer.h: PACK_*, UNPACK_*")], ["bytes written, values read, returned lengths, surrounding bytes"])
p("C30", "State machine runs one handler per event and follows its verdict",
  "Sending an event calls exactly the handler of the current state once, with the given model and event; if the handler returns a non-negative number that becomes the current state and the send reports a transition, otherwise the state is unchanged and it reports none. "
  "This holds for every sequence of events, including self-transitions, transitions to state zero and events sent from within a handler.",
  ["histories", "programs"], "every transition table and event sequence",
  "no test covers the state machine",
  ["gel/state_machine/state_machine.h"], [("handler table indexed by state", "gel/state_machine/state_machine.h: DEFINE_STATE_MACHINE")], ["handler call log, state and return value after every event"])
p("C31", "Time comparisons are correct across clock wrap-around",
  "For any two timestamps less than half the clock range apart, before/after comparisons and intervals give the true chronological order and distance even when the clock wraps between them. "
  "A delay is loosely expired exactly when at least that much time has passed since the start and strictly expired exactly when more has, for every timestamp type the library can be configured with.",
  ["inputs", "configurations"], "every start, elapsed time and delay (each less than half the range), near and away from the wrap point, for the default and custom timestamp types",
  "the time tests are left out of the build; they also cover one type only",
  ["gel/timer/timecheck.h"], [("signed interpretation of the unsigned difference", "gel/timer/timecheck.h: time_after, time_after_or_equal, time_interval, is_loosely_expired, is_strictly_expired")], ["return values"])
SW = "gel/timer/stopwatch.c"
p("C32", "Stopwatch measures exactly its running time",
  "Across any sequence of operations the elapsed time equals the total time spent counting since it was last stopped or restarted (pauses excluded, preset elapsed time included), the remaining time is what is left of the period and never below zero, and a started stopwatch is reached exactly when the elapsed time is at least the period. "
  "Operations not allowed in the current state report it and leave the measurement unchanged (stopping always resets the elapsed time), and clock wrap-around does not matter.",
  ["histories", "inputs"], "every sequence of set, start, stop, pause, restart, change and preset operations with any timestamps and periods, wrap-around included",
  "the tests run a few scripted sequences",
  [SW, "gel/timer/stopwatch.h"], [("accumulated elapsed time plus running interval", SW + ": stopwatch_pause, stopwatch_get_elapsed, stopwatch_is_timer_reached")], ["return codes, state, elapsed, remaining, total, reached after every operation"])
p("C33", "Callback timer fires exactly when due",
  "A running callback timer invokes its callback, with the timer, the caller's pointer and its own argument, exactly once at the first poll that comes at least its period after it was started, reset or last fired, not counting paused time; a one-shot timer then stays silent and an auto-reload timer starts a new period at that poll. "
  "Stopped or unexpired timers never fire, and pause, resume, reset and period changes act as documented by the stopwatch underneath, also across clock wrap-around and, except for pausing, when the callback itself stops, resets or changes its own timer.",
  ["histories", "inputs"], "every sequence of polls, pauses, resumes, resets, period changes, stops and auto-reload switches at any timestamps",
  "the tests poll one timer at a few instants",
  ["gel/timer/timer.c", "gel/timer/timer.h"], [("expiry test, callback, then reload or stop", "gel/timer/timer.c: gel_timer_manage_callback")], ["callback log and return value of every poll, remaining time"])
WL = "gel/wearleveling/wearleveling.c"
p("C34", "Wear-leveled memory reads back what was last written and spreads the wear",
  "A read returns exactly the data of the last successful write, a write of unchanged data performs no block write, and each write of changed data goes to the block after the current one, cyclically, so that block write counts never differ by more than one. "
  "Only blocks inside the page are ever accessed.",
  ["histories", "inputs", "configurations"], "every number of blocks (1 to 255), block contents and sequence of reads and writes over a working storage",
  "the tests perform a few writes on one small page",
  [WL, "gel/wearleveling/wearleveling.h"], [("next block selection and unchanged-data test", WL + ": wearleveling_write")], ["data read, calls to the storage callbacks, per-block write counts"])
p("C35", "Wear-leveled memory recovers the latest data after a restart",
  "Re-initialising at any point from the storage alone makes the last successfully written data readable again, and writing continues in the same rotation. "
  "This holds after any number of writes, including when every block has been written and when the block markers have wrapped around, starting from an erased storage whose blocks all carry the same marker.",
  ["histories", "crash_points", "configurations"], "every number of blocks, erased marker value, number of writes and sequence of restarts between operations",
  "the tests restart at one or two points of a fixed sequence",
  [WL], [("search for the last consecutive marker", WL + ": search_last, wearleveling_init")], ["data read and blocks written after a restart"], [("marker per block", "incremented at every write, modulo 256", WL)])
p("C36", "Wear-leveled memory keeps the old data when the storage fails",
  "When the storage fails to read or write, the call reports the error, and the previously written data is what later reads return, both immediately and after a restart; a later successful write takes effect normally. "
  "No fault ever makes the library access a block outside the page.",
  ["fault_sequences", "histories", "crash_points"], "every history of reads, writes and restarts with read, write and marker-read errors injected at any storage call, where a failed write may leave the target block's data arbitrary but its marker unchanged",
  "the test storage never fails",
  [WL], [("state advances only with the write", WL + ": wearleveling_write"), ("marker search error handling", WL + ": search_last")], ["return codes, data read afterwards, block indices passed to the storage callbacks"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
