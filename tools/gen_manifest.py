#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: seeded search over "
SIM = "The unmodified program runs under a simulated kernel; every execution is a function of its seed and violations are minimised to replay files. "
TRUST = " Trusts the simulated kernel's answers (files, directories, pipes, permissions, clock, randomness) and that the program reaches the system through libc symbols. Sampling: no violation found is evidence, not proof."
C = {
 "C01": ("fault plans, kill points, allocation failures and input aliases; invariant on the input inode after every call",
         "Input compared after every simulated call; known finding F1 (interrupted in-place save) is listed and matched narrowly."),
 "C02": ("refused documents, input-phase faults, kills and allocation failures; invariant on destination and streams",
         "Refusals are known by construction and, for sizes, from a fault-free reference run of the same program."),
 "C03": ("refused documents and faults inside the copy; oracle: the original bytes", "Refusals by construction; alias rule by inode of the simulated disk."),
 "C04": ("faults on the destination's calls, full disks and devices; oracle: fault-free result and an independent well-formedness check",
         "Delivered bytes are compared with the library's or a calm run's result."),
 "C05": ("divisions, interruptions and stalls of transfers and missing optional calls; oracle: the undivided run", "EINTR that never stops is excluded."),
 "C06": ("channels, spellings, option sets and fragmentation; oracle: the library's result (a host program linked to /repo's library)", "Differential: a defect present in all four channels and the library alike is not visible here."),
 "C07": ("documents at the size border, growing and shrinking inputs; oracle: byte counts", "The border is found by running the program itself."),
 "C08": ("documents and options for multipass; oracle: a chain of single cleanings computed through the library, and a step bound", "Bounded number of passes in the model (documents converge or the rule of the program applies)."),
 "C09": ("pairs of random environments (randomness, clock, pid, environment variables, cwd, allocator layout, kernel features); oracle: equality", "Environment dimensions listed in DESIGN.md."),
 "C10": ("scripts of cleanings in one process and thread schedules; oracle: isolated cleanings", "Threads switch at allocations and simulated calls, not at arbitrary instructions."),
 "C11": ("read faults, lying sizes and invalid bytes; oracle: bytes served against bytes used", "Reported sizes above the real one are limited to 30 MB."),
 "C12": ("histories of killed, failed and powerless runs; oracle: the same command on a fresh disk", "Power loss keeps a seeded subset of unsynced blocks."),
 "C13": ("runs of every outcome with bystander files; oracle: snapshot of the whole simulated disk, limits and calls", "Simulated disk only; descriptors other than files are checked by refused calls."),
 "C14": ("damaged documents and options under a step bound; oracle: no panic, no signal, clean end", "Known finding F2 (a panic inside svgdom) is listed; a hang is a real-time and step bound."),
 "C15": ("failures of standard error; oracle: the run with a healthy one", "Messages of clap for bad arguments are exempt from the message comparison."),
 "C16": ("interleavings of 2-4 processes sharing disk and pipes; oracle: each run alone", "Switches at system calls."),
 "C17": ("permanent failures and stalls; liveness within a bounded number of simulated calls", "Bound: a multiple of the calm run's calls."),
 "C18": ("atomic actions of other programs at recorded calls; oracle: result of one version of the input", "In-place rewrites that are not atomic are outside the property."),
}
NA = {
 "C30": "Rendering equality is a pure function of document and options: no scheduling, time, I/O or fault influences it, so a simulated environment decides nothing about it; it needs a renderer as oracle.",
 "C31": "Pure function of document and options; nothing nondeterministic to simulate. (That an option has the same effect on every channel is C06.)",
 "C32": "Pure graph property of the cleaned document; no schedule, crash or fault can change it.",
 "C33": "Pure arithmetic on the document's numbers; no schedule, crash or fault can change it.",
 "C34": "Pure function composition; independent of environment. (What multipass does with it is C08.)",
 "C35": "Pure function of the document's text; its dependence on transfers is C05 and on channels C06.",
}
m = {"version": 1, "setup_cmd": "bash /verif/check.sh --build",
     "checks": [{"property": i, "quick_cmd": "bash /verif/check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough bash /verif/check.sh %s" % i,
                 "technique": T + t, "level": "exploration", "level_note": SIM + n + TRUST} for i, (t, n) in C.items()],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
     "notes": "No hooks in /repo: every seam is the libc interface of the shipped binary (LD_PRELOAD shim). Repairs are the 'fix:' commits."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
