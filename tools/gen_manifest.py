#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from what is built."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLA+ specification checked by TLC; "
NOTE_TREE = ("TreeModel.tla is model-checked exhaustively for small trees and operation counts (bounds in the evidence file); the real code is bound to it by replaying random "
             "behaviours of larger instances through an interposition layer and judging every recording with Oracle.tla. Sampling of behaviours, not proof, on the code side; inotify backend of this kernel.")
C = {
    "P01": ("model_checking", MC + "schedules from Lifecycle.tla imposed on the real threads; recordings judged by Life.tla",
            "Every behaviour of Lifecycle.tla for small constants is replayed on the real threads gate by gate (system calls and callbacks), random ones for larger constants; plus path forms and failing system calls."),
    "P02": ("model_checking", MC + "schedules from Lifecycle.tla with two closes and failing calls, imposed on the real threads; verdicts judged by Life.tla", "As P01, with repeated closes, destruction and every fatal system call failing at each point."),
    "P03": ("model_checking", MC + "liveness of Lifecycle.tla under fairness; its schedules imposed on the real threads, with endless traffic", "Liveness is proved by TLC on the model only; on the code a close which does not return within a generous limit (confirmed by repeated runs), or a watcher which goes on reading after the request, is a violation."),
    "P04": ("model_checking", MC + "behaviours of TreeModel.tla replayed on the real watcher; recordings judged by Oracle.tla", NOTE_TREE),
    "P05": ("model_checking", MC + "rename behaviours of TreeModel.tla replayed on the real watcher; recordings judged by Oracle.tla", NOTE_TREE),
    "P06": ("model_checking", MC + "start-up interleavings of TreeModel.tla replayed on the real watcher; recordings judged by Oracle.tla", NOTE_TREE),
    "P07": ("model_checking", MC + "creations racing scans (TreeModel.tla) replayed on the real watcher; recordings judged by Oracle.tla", NOTE_TREE),
    "P08": ("model_checking", MC + "directory renames of TreeModel.tla replayed on the real watcher; recordings judged by Oracle.tla", NOTE_TREE),
    "P09": ("model_checking", MC + "behaviours of TreeModel.tla with silent operations replayed on the real watcher; recordings judged by Oracle.tla", NOTE_TREE),
    "P10": ("fault_enumeration", MC + "every call that can be refused, refused in turn; recordings judged by Oracle.tla and Life.tla", "Every system call of small scenarios is refused once, and directories are refused by path, at every position; verdict by the specification."),
    "P11": ("fault_enumeration", MC + "interruptions injected at every wait and read of TreeModel.tla behaviours; recordings judged by Oracle.tla", "Interruptions, empty wake-ups and reads that would block at every position of the behaviours."),
    "P12": ("model_checking", MC + "overflow records injected in behaviours of TreeModel.tla; recordings judged by Oracle.tla", "Overflow records at every position of batches, and real overflows of the kernel's queue."),
    "P13": ("fault_enumeration", MC + "ledger of descriptors, threads and kernel watches (Ledger.tla) over schedules of Lifecycle.tla and failing calls", "All acquisitions and releases of the watcher are recorded and judged by the ledger."),
    "P14": ("model_checking", MC + "several watchers on one tree (behaviours of TreeModel.tla and Lifecycle.tla); each judged by its own oracle", "Random interleavings of up to four watchers."),
    "P15": ("model_checking", MC + "behaviours of the C++ checks replayed through the C interface; handle histories from Handles.tla", "Same judges as P01-P09 applied to the C interface; handle histories enumerated."),
    "P16": ("model_checking", MC + "event sequences and handle histories of Binding.tla fed to the real Python module through a stand-in C library", "The stand-in library plays behaviours of the specification."),
    "P17": ("model_checking", MC + "event sequences and handle histories of Binding.tla fed to the real Node module through a stand-in C library", "The stand-in library plays behaviours of the specification."),
    "P18": ("model_checking", MC + "event sequences and handle histories of Binding.tla fed to the real Rust crate through a stand-in C library", "The stand-in library plays behaviours of the specification."),
    "P19": ("model_checking", MC + "command lines of Cli.tla run with the real tool; output and exit judged by the specification", "All combinations of arguments the specification knows."),
    "P20": ("model_checking", MC + "events of Values.tla converted by the real code; decoded text compared with the specification", "Bounded-exhaustive over character classes, random beyond."),
    "P21": ("model_checking", MC + "values of Values.tla copied, compared and converted by the real code", "Bounded-exhaustive over field values, all 32-bit boundary numbers plus random ones."),
    "P22": ("model_checking", MC + "behaviours of Fan.tla replayed on the real backend over a simulated fanotify; recordings judged by FanOracle.tla",
            "Fan.tla is model-checked exhaustively for small instances; random behaviours of larger ones, and bad records at every position, run on the real code. The kernel side of fanotify is simulated on top of the real inotify (it can not be used unprivileged)."),
    "P23": ("model_checking", MC + "behaviours of Poll.tla replayed on the real polling code; recordings judged by the specification", "The polling backend is compiled for Linux by undefining the platform macros after the standard headers."),
}
BUILT = {"tree": "P04 P05 P06 P07 P08 P09", "life": "P01 P02 P03", "faults": "P10 P11 P12 P13", "many": "P14", "capi": "P15", "bindings": "P16 P17 P18", "cli": "P19", "values": "P20 P21", "fan": "P22", "poll": "P23"}
checks, na = [], []
for mod, ids in BUILT.items():
    for i in ids.split():
        if os.path.exists(os.path.join(HERE, "checks", mod + ".py")) and i not in os.environ.get("SKIP", "").split():
            lv, tech, note = C[i]
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", technique=tech, level=lv, level_note=note))
        else:
            na.append(dict(property=i, reason="the machinery for this property is not built yet (planned, see DESIGN.md)"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=sorted(checks, key=lambda c: c["property"]), not_applicable=na,
         notes="No hooks in /repo: the code is observed and steered by interposing libc in the test drivers (driver/shim.hpp). Known findings and fixed defects: known_findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
