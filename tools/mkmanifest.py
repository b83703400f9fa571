"""Writes /verif/MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over %s"
C = {
 "P01": ("output faults (open, torn or failed write, full disk, failing close) against a fault-free reference run", ""),
 "P02": ("input faults (read errors at any byte, failing open, access, readlink) against a fault-free reference run", ""),
 "P03": ("refused allocations (the n-th, bursts, all from the n-th on, heap caps) against a run with all its memory", ""),
 "P04": ("environments (heap and stack garbage, block placement, transfer and buffer sizes, descriptors, clock, pid, environment) against a reference run", ""),
 "P05": ("histories of calls in one process with faulted calls among them, each call against the same call in a fresh process", ""),
 "P06": ("thread interleavings at basic-block granularity, each call against the same call alone", ""),
 "P07": ("I/O errors and refused allocations, open files, mappings and live blocks after every call", ""),
 "P08": ("kill points and fault sequences, file system afterwards against what the call may change", ""),
 "P09": ("kill points and fault sequences followed by a restart on the surviving files, against an undisturbed run", ""),
 "P10": ("faults on inputs, output and error stream, messages against status", ""),
 "P11": ("histories of container operations with refused allocations, every answer and the whole content against a reference model", ""),
 "P12": ("storage damage of the stored sources (cut, lost, zeroed, stale, repeated sectors, flipped bits), ended runs under a memory checker and a step budget", ""),
 "P13": ("histories of different entry points in one process over leftovers and failed attempts, every result against the others", ""),
 "P14": ("histories of stream operations with split, failed and refused transfers, file, buffer and host function against each other and the text", ""),
 "P15": ("places and spellings of a program's files in a simulated file system, the copy against the original", ""),
}
CH = [{"property": k, "quick_cmd": "VERIF_TIER=quick python3 sim/check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py " + k,
  "technique": T % v[0], "level": "exploration", "level_note": v[1] or "seeded exploration: what the seeds reach, not a proof; every run is repeatable from VERIF_SEED and the case number"} for k, v in sorted(C.items())]
PURE = "pure function of the input text: a single-threaded computation with no schedule, clock, I/O, crash point or fault for the simulator to vary, so simulation adds nothing to ordinary testing"
NA = {"P20": PURE, "P21": PURE + "; the virtual machine, LLVM and a MIPS machine are not in this repository either", "P22": PURE, "P23": PURE}
M = {"version": 1, "setup_cmd": "python3 sim/build.py --self-test",
 "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile /repo's sources and rename their libc references to the simulator's (objcopy --redefine-syms); basic-block callbacks come from -fsanitize-coverage=trace-pc", "source_commits": []},
 "checks": CH, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
