#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
D = "devel/include/detail/wtr/watcher"
INO = D + "/adapter/linux/inotify/watch.hpp"
FAN = D + "/adapter/linux/fanotify/watch.hpp"
LW = D + "/adapter/linux/watch.hpp"
SR = D + "/adapter/linux/sysres.hpp"
WW = "devel/include/wtr/watcher-/watch.hpp"
EV = "devel/include/wtr/watcher-/event.hpp"
SB = D + "/semabin.hpp"
AM = "include/wtr/watcher.hpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m) for n, m in state], observe_at=list(obs), hook_needed=hook)))

prop("P01", "Every watcher's report is bracketed by one live and one die message",
 """The first thing a watcher reports is exactly one live message and the last is exactly one die message; both have
 path type watcher, effects create and destroy, and text `s/self/live@` or `e/self/live@` (`s/self/die@` or
 `e/self/die@`) followed by the absolute watched path; a watcher whose live message is `e/` reports nothing but an `e/`
 die message. Everything else is reported strictly between the two, callbacks of one watcher never overlap, and
 none begins or is still running after close (or destruction) has returned.""",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "every interleaving of the watching thread with opening, closing, filesystem traffic and failing system calls, for every kind of path (existing or missing, directory or file, relative or absolute)",
 "Tests open a couple of existing directories, wait, then close; no test closes during start-up, during a callback, or under failing system calls, and none can enumerate the schedules.",
 [WW, LW, SB, AM], [("constructor's async task", WW + ": watch::watch"), ("close/destructor", WW + ": watch::close")],
 [("living", "pending/released/error stop flag"), ("watching", "future of the verdict")], ["callback"])

prop("P02", "Close tells the truth about the whole life of the watcher, once",
 """The first close returns true exactly when the watcher started (live message `s/`) and ended (die message `s/`) without
 error, and false otherwise; a false or true verdict is always consistent with both messages that the callback received.
 Every later close of the same watcher returns false promptly and has no further effect; a watcher that is destroyed without being
 closed is closed by its destruction.""",
 ["schedules", "histories", "fault_sequences"],
 "every number and placement of close calls relative to start-up, event delivery and failure of the watching thread",
 "Tests assert only that close of a healthy watcher is true.",
 [WW, SB, LW], [("close", WW + ": watch::close"), ("stop semaphore", SB + ": release/state")], [], ["return value of close", "live and die messages"])

prop("P03", "Closing always ends the watcher",
 """A close request made at any moment of a watcher's life - before its thread runs, while it scans the tree, while it
 waits, while it reads or delivers, and while filesystem traffic arrives without pause - is never lost: the watcher stops after
 at most the events it has already received from the operating system, and close returns. No schedule of closing, traffic and callbacks that
 themselves cause traffic leaves close waiting for ever.""",
 ["schedules"], "every interleaving of the close request with every step of the watching thread, with and without continuous traffic",
 "A test can only close at the moments its sleeps happen to produce; a lost wake-up shows only in particular interleavings and as a hang.",
 [SB, LW, WW], [("eventfd semaphore", SB), ("dispatch loop", LW + ": platform_watch")], [], ["close returns"])

prop("P04", "Creations, changes and removals are reported exactly once and in order",
 """While a watcher is live, every creation, content change and removal of an entry in a watched directory is reported
 exactly once, in the order in which they were made, with the effect (create, modify, destroy), the path type
 (dir for directories, file for everything else) and the entry's full path under the resolved watched path. This holds however the operating system's records
 are grouped into reads and however fast the callback is; only adjacent identical changes which the system itself merged may appear once.""",
 ["histories", "schedules", "inputs"],
 "every sequence of operations over every tree of directories and files, every grouping of the resulting records into reads, every entry name",
 "Tests perform a fixed burst of creations with long sleeps, on one or two names, and tolerate missing events in places.",
 [INO, AM], [("record decoding", INO + ": peek/parse_ev/do_ev_recv"), ("directory map", INO + ": ke_in_ev::dm")],
 [("dm", "watch descriptor -> directory path")], ["callback"])

prop("P05", "A rename is reported once, with both its paths",
 """A rename of an entry between two watched places - within a directory, across directories, or over an existing entry - is reported as
 one rename event whose path is the old full path and whose associated event is a rename of the new full path with the same path type.
 A rename into (out of) the tree is one rename event with the new (old) path and nothing associated; a rename is
 never paired with an unrelated one, and only a rename whose two records the system handed over in separate reads may appear as two single rename events.""",
 ["histories", "schedules", "inputs"], "every sequence of renames (including adjacent ones, overwriting ones and ones crossing the watched boundary) and every grouping of the records into reads",
 "The tests rename only inside one directory and mostly one at a time.",
 [INO, AM], [("pairing by cookie", INO + ": parse_ev")], [], ["callback"])

prop("P06", "Start-up leaves no directory of the tree unwatched",
 """When a watcher has started, every directory under the watched path is watched, at every depth: those that
 existed before it was opened, and those that appear while it is starting, once the pending events have been delivered. Directories reached only through symbolic links are
 not followed, and changes made directly in an already watched directory during start-up are reported.""",
 ["schedules", "histories", "inputs"], "every tree shape and every interleaving of concurrent directory creation with the scan",
 "Tests start watchers on quiet, shallow trees; the interleavings of the scan with concurrent changes are out of their reach.",
 [SR, INO, AM], [("scan", SR + ": walkdir_do"), ("mark before list", INO + ": make_sysres/do_mark")], [("dm", "watched directories")], ["callback"])

prop("P07", "A new directory is watched by the time it is reported",
 """When the creation of a directory (or its arrival by a rename from outside) is reported, that directory and every
 directory already inside it are watched: all later changes in them are reported, even ones made by the callback itself as it receives that event.
 A directory which cannot be watched any more (for instance because it is already gone) is announced by a warning and does not stop the watcher.""",
 ["schedules", "histories"], "every history of nested creation, removal and re-creation and every delay between the operation and its delivery",
 "Tests create single directories with pauses; `mkdir -p` bursts and re-created names are not covered.",
 [INO, SR, AM], [("mark on create", INO + ": do_ev_recv")], [("dm", "watched directories")], ["callback"])

prop("P08", "Paths follow a renamed directory",
 """After a directory of the tree has been renamed and its rename reported, every change in it and anywhere below it is
 reported under its new path, never under the old one, whatever else is later created under either name.
 This also holds for repeated renames and for directories that leave the tree and return.""",
 ["histories", "schedules"], "every sequence of directory renames, nested ones and name reuse included",
 "No test changes anything inside a directory after renaming it.",
 [INO, AM], [("descriptor to path map", INO + ": ke_in_ev::dm, do_ev_recv")], [("dm", "watch descriptor -> directory path")], ["callback"])

prop("P09", "Nothing is reported that did not happen in the tree",
 """A watcher reports only real creations, changes, removals and renames of entries below its path: reading, opening,
 closing or changing the permissions or the owner of files, anything outside the tree (even reached through symbolic links inside it), and the removal of the watched path itself produce no path events.
 The internal bookkeeping of removed directories produces no events and no warnings, and no event is duplicated.""",
 ["histories", "inputs", "schedules"], "every sequence of silent operations mixed with visible ones, and every grouping of records into reads",
 "Tests count the events they expect for a few operations; absence over all silent operations and schedules is not sampled.",
 [INO, SR, AM], [("mask and self-info filter", INO + ": is_real_event, recv_mask"), ("deferred removal", INO + ": defer_dm_rm_wd")], [], ["callback"])

prop("P10", "No failure to watch is silent",
 """If the operating system refuses something the watcher cannot do without (a notification queue, the wait
 facility, every directory of the tree to watch), the watcher reports one `e/` message naming what failed and the path, then an `e/self/die` message, stops,
 and close returns false. If it refuses to watch one directory, or to list what is in it, the watcher reports `w/sys/not_watched@` with that directory's path
 and keeps watching all the others.""",
 ["fault_sequences"], "every system call of the watcher failing at every occurrence with every realistic error",
 "The tests never make a system call fail.",
 [SR, INO, LW, AM], [("result codes", SR + ": result/to_str/send_msg"), ("resources", INO + ": make_sysres")], [], ["callback", "return value of close"])

prop("P11", "Transient interruptions do not stop a watcher",
 """A signal interrupting the watcher's wait or read, a spurious wake-up, or a read that would block changes
 nothing that a user can observe: no error is reported, no event is lost or repeated, and the watcher keeps running until it is closed.""",
 ["fault_sequences", "schedules"], "every placement of interruptions and empty wake-ups among the watcher's waits and reads",
 "No test sends signals or interrupts system calls.",
 [LW, INO, AM], [("dispatch loop", LW + ": platform_watch"), ("read", INO + ": do_ev_recv")], [], ["callback"])

prop("P12", "Lost events are announced",
 """When the operating system had to drop events because its queue was full, the watcher reports `w/sys/q_overflow@`
 at that point of the stream, once per occurrence, still delivers everything queued before it and everything after it, and keeps running.""",
 ["histories", "schedules"], "every position of overflow records in the stream and in a read",
 "No test overflows the queue.",
 [INO, FAN, AM], [("overflow branch", INO + ": do_ev_recv")], [], ["callback"])

prop("P13", "Nothing is leaked and nothing foreign is closed",
 """When a watcher has been closed or destroyed - after success, after any failure, and however early - all file descriptors, threads and kernel watches it acquired are released,
 each exactly once, and no descriptor which the watcher does not own is ever closed. Any number of watchers can be opened and closed one after another.""",
 ["fault_sequences", "histories", "schedules"], "every system call failing at every occurrence, and every open/close history",
 "Leaks and double closes are invisible to assertions on events.",
 [LW, INO, FAN, SB, AM], [("close at end", LW + ": platform_watch"), ("eventfd", SB + ": ~semabin")], [("open descriptors", "set owned by the watcher")], ["system call trace"])

prop("P14", "Watchers do not affect each other",
 """Any number of watchers in one process, on the same, nested or unrelated paths, each report exactly what they would report alone,
 and closing, destroying or breaking one never stops, delays or disturbs another.""",
 ["schedules", "histories"], "every interleaving of opening, traffic, failure and closing of several watchers",
 "One test opens a few watchers on quiet directories; none mixes closing and failures of one with traffic of another.",
 [WW, INO, SB, AM], [("per-watcher resources", INO + ": sysres")], [], ["callbacks"])

prop("P15", "The C interface reports the same life and events, and is safe to misuse",
 """A watcher opened through the C interface calls back with the caller's context and with exactly the events the C++ interface would report, in order: same times, types,
 paths and associated paths (null when there is none), valid strings for the duration of the call. Close is true once for a healthy watcher,
 false for a failed one, false for a null or already closed handle, and in every case leaves no resource behind and no callback running.""",
 ["histories", "inputs", "fault_sequences"], "every history of open and close (repeated, null, after failure) and every event",
 "The C interface has no test in the stable suite.",
 ["watcher-c/src/watcher-c.cpp", "watcher-c/include/wtr/watcher-c.h"], [("wrapped callback", "watcher-c.cpp: wtr_watcher_open"), ("close", "watcher-c.cpp: wtr_watcher_close")], [], ["C callback", "return value of close"])

prop("P16", "The Python binding is faithful to the C interface",
 """Every event of the C interface reaches the Python callback once, in order, with the same time, paths (no associated path becomes None; bytes which are not UTF-8 survive as surrogate escapes)
 and types, whatever the callback raises; its JSON text parses back to the same values. The path to watch reaches the C interface whole, not UTF-8 as events tell it included, or the watch is refused. Close ends the watcher, returns only when no callback can run any more,
 may be repeated, and happens on leaving the context and on deletion.""",
 ["histories", "inputs"], "every sequence of events of every kind and every history of close calls",
 "The Python binding has no test in the stable suite.",
 ["watcher-py/watcher/watcher.py"], [("event conversion", "watcher.py: _c_event_to_event"), ("handle", "watcher.py: Watch")], [], ["Python callback"])

prop("P17", "The Node binding is faithful to the C interface",
 """Every event of the C interface reaches the JavaScript callback once, in order, with the same time (to the precision of a JavaScript number), paths as text (no associated path becomes null; bytes which are not UTF-8 become replacement characters)
 and types, however busy the JavaScript thread is and whatever the callback throws. The path to watch reaches the C interface whole, however long, or the watch is refused with an error.
 A process in which nothing is watched any more can end. Close returns the verdict of the C interface the first time and false afterwards, and no event
 is lost because of a burst.""",
 ["histories", "inputs", "schedules"], "every sequence and burst length of events of every kind and every history of close calls",
 "The Node binding has no test in the stable suite.",
 ["watcher-nodejs/lib/watcher-napi.cpp", "watcher-nodejs/lib/watcher.ts"], [("thread-safe function", "watcher-napi.cpp: callback_bridge"), ("enum mapping", "watcher.ts: watch")], [], ["JavaScript callback"])

prop("P18", "The Rust binding is faithful to the C interface",
 """Every event of the C interface appears on the Rust stream once, in order, with the same time, paths as text (no associated path becomes None; bytes which are not UTF-8 become replacement characters)
 and types, and serializes under the documented names. The underlying watcher is closed exactly once, whether by an explicit close, by dropping, or by both; opening
 reports an error when the C interface does. The path to watch reaches the C interface whole, or opening reports an error.""",
 ["histories", "inputs"], "every sequence of events of every kind and every history of close and drop",
 "The Rust binding has no test in the stable suite.",
 ["watcher-rs/src/lib.rs"], [("forwarding", "lib.rs: fwd_ev/ev_from_c"), ("ownership", "lib.rs: Watch::close/Drop")], [], ["Rust stream"])

prop("P19", "The command line tool honours its arguments and reports its verdict",
 """The tool watches the given path (the current directory without one), prints each event as one line of JSON in the order it was reported, ends after the given time in the
 given unit or, without a time, at end of a line on its input, and exits 0 exactly when the watcher closed cleanly. Asking for help prints help and exits 0; a path that does not exist
 makes it print help to the error stream and exit with a failure, watching nothing.""",
 ["inputs", "histories"], "every argument vector built from the documented forms, every path and every watcher verdict",
 "Tests run the tool with two unit forms and a help flag.",
 ["src/wtr/watcher/main.cpp"], [("arguments", "main.cpp: Args::try_parse"), ("output", "main.cpp: json")], [], ["stdout, stderr and exit status"])

prop("P20", "Serialized events are valid JSON and lose nothing",
 """For every event whose paths are valid UTF-8, the JSON produced from it decodes to the same event: its string conversion and stream operator, narrow and wide, give a well-formed member named by
 the event's time in nanoseconds whose value holds its effect, path and path type, and those of the associated event when there is one; the command line tool gives a well-formed object with
 effect_time and the same members.""",
 ["inputs"], "every UTF-8 path name, including quotes, backslashes, control characters and non-ASCII, with and without an associated event, every effect and path type, every time",
 "Tests serialize a handful of plain names.",
 [EV, "src/wtr/watcher/main.cpp", AM], [("serialization", EV + ": wtr_event_to_str_cls_as_json"), ("numbers", EV + ": num_to_str")], [], ["strings"])

prop("P21", "Events are values, and every part of one converts to its documented name",
 """Copying an event yields an equal and independent one, associated event included; two events compare equal exactly when all their
 fields (path, effect, path type, time, associated event) do, and different otherwise. Every effect, path type, number, and path converts to exactly its documented text in every supported string
 type and through the stream operators.""",
 ["inputs"], "every combination of field values, with and without an associated event",
 "Tests compare a few constructed events.",
 [EV, AM], [("copy and comparison", EV + ": event"), ("names", EV + ": to<>")], [], ["values"])

prop("P22", "The privileged backend reports the same stream, and falls back when refused",
 """Where the privileged notification facility can be used, records it delivers - in any number and grouping - become the
 same events in the same order: effect, path type, full path, both paths for a rename, new directories watched as they are reported; a record that cannot be resolved, or an announced
 loss, produces a warning and never discards the records around it. Where the system refuses that facility, the ordinary one is used and nothing else changes for the user.""",
 ["histories", "fault_sequences", "configurations"], "every sequence and grouping of records including unresolvable ones, and every refusal",
 "The stable tests run in containers where the facility is refused, and never inject bad records.",
 [FAN, LW, AM], [("record decoding", FAN + ": pathof/parse_ev/do_ev_recv"), ("selection", LW + ": try_fanotify")], [], ["callback"])

prop("P23", "The polling fallback reports every change between two scans",
 """Where no native facility is used, each scan of the tree reports exactly the difference to what was reported before: every file and directory
 that appeared as created, every file whose modification time changed as modified, every entry that vanished or became another kind of thing as destroyed under the type it had, each once,
 and nothing for what is unchanged. What changes during a scan is reported truly, by the next scan at the latest, and what cannot be looked at does not keep the rest from being reported. Closing ends the
 polling after at most one more scan.""",
 ["histories", "schedules"], "every sequence of changes to the tree between scans and at every step of one",
 "The fallback is not compiled on the tested platform.",
 [D + "/adapter/warthog/watch.hpp", AM], [("scan and prune", "warthog/watch.hpp: scan/tend_bucket")], [("bucket", "path -> last seen modification time")], ["callback"])

if __name__ == "__main__":
    import sys
    skip = set(sys.argv[1:])
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            if p["id"] not in skip: f.write(json.dumps(p) + "\n")
    print(len(P))
