#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MAIN, CLEAN, CLI = "src/main.rs", "src/cleaner.rs", "src/cli.rs"
NOIO = "The 312 tests call single cleaning tasks or the option parser on literal strings; none runs the program, opens a file or meets a failing call. "

p("C01", "The original file is never damaged",
  "A run never modifies, truncates, renames, deletes or re-permissions the file it was given as input, at any moment and whatever faults, kills or resource exhaustion it meets, unless the output names that same file. If the output does name it, by any spelling, symbolic link or hard link, the file afterwards holds either its complete original content or the complete result - the original whenever cleaning was refused, also with copy-on-error.",
  ["crash_points", "fault_sequences", "configurations", "inputs"],
  "Every kill point, failing call and allocation failure; every pair of input/output spellings (same, ./, .., absolute, symlink, hard link, through a linked directory); every option set; documents that clean, that are refused, and that grow.",
  NOIO + "Damage needs an alias of the input as output, or a failure between two particular system calls.",
  [MAIN, CLEAN], [("load before save, single save at the end", "main.rs main()"), ("copy-on-error guard on equal paths", "main.rs on_err"), ("save_file / load_file", "cleaner.rs")],
  ["simulated file system: content, link, mode of the input after every operation"])

p("C02", "A run without a result leaves its destination untouched",
  "When a run cannot produce a result - input missing or unreadable, a read error, text that is not UTF-8, a malformed document, an unsupported one (scripting, event handlers, animation, conditional processing, external references), a result larger than the original, an invalid command line, or memory exhausted or the process killed before the result is complete - and copy-on-error was not asked for, the destination stays exactly as it was: existing content and permissions kept, an absent file not created, nothing on standard output. Unless it was killed, such a run reports an error on standard error and no success.",
  ["crash_points", "fault_sequences", "inputs", "configurations"],
  "Every kind of refusal, every failing call of the input phase, every allocation failure and kill point of runs that will not produce a result; destinations absent, present, read-only, longer or shorter than the result; multipass on and off.",
  NOIO + "An early open or truncation of the destination is invisible to them.",
  [MAIN, CLEAN, "src/task/preclean_checks.rs"], [("save only after the size check", "main.rs"), ("preclean_checks", "task/preclean_checks.rs"), ("try_msg! on load errors", "main.rs")],
  ["simulated destination inode and stdout sink", "stderr"])

p("C03", "Copy-on-error delivers the exact original",
  "With copy-on-error and both input and output given as files, a run whose document is refused (malformed, unsupported, or larger after cleaning) leaves the destination byte-for-byte equal to the input file, replacing whatever was there. If both names designate the same file it is left intact; if the copy fails a further error is reported; and nothing is copied when cleaning succeeded or when standard input or output is used.",
  ["fault_sequences", "configurations", "inputs"],
  "Every refusal kind, destination state and alias; every failing or partial call during the copy (copy_file_range, sendfile, read, write, open, chmod), disk full, and file systems that lack the fast copy calls.",
  NOIO + "The copy path is never executed by a test.",
  [MAIN], [("on_err closure with fs::copy", "main.rs")],
  ["simulated destination content", "stderr"])

p("C04", "No error reported means the complete result was delivered",
  "If a run ends by itself without reporting an error, its destination (file or standard output) has received the complete cleaned, well-formed document and exactly that - nothing missing, nothing added, no remains of earlier content. If opening, writing or flushing the destination fails at any point - disk full, I/O error, permission, the reader going away - the run reports an error on standard error, prints no success message and does not panic.",
  ["fault_sequences", "inputs", "configurations"],
  "Every point of the output phase at which a call can fail or transfer only part, for files and for standard output of every kind, with results from a few bytes to far beyond every buffer size, and destinations that held longer content.",
  NOIO + "Buffered output that is lost at exit, or a write error that is swallowed, shows only when the sink fails.",
  [MAIN, CLEAN], [("save_file / write_stdout propagate errors", "cleaner.rs"), ("try_msg! around both", "main.rs")],
  ["simulated destination content", "stdout sink", "stderr"])

p("C05", "Fragmented or interrupted I/O never changes the outcome",
  "How the operating system divides and interrupts transfers - short reads and writes, chunk borders inside a multi-byte character, interrupted (EINTR) calls, slow and stalling pipes, wrong or zero reported file sizes, optional system calls that are not available - has no effect on the bytes delivered or on the messages printed.",
  ["schedules", "fault_sequences", "inputs"],
  "Every division of the input and output streams into transfers and every placement of interruptions and stalls.",
  NOIO + "The kernel normally transfers a small file in one piece, so neither tests nor ordinary use meet this.",
  [CLEAN, MAIN], [("read_to_string / write_all loops", "cleaner.rs load_file, load_stdin, save_file, write_stdout")],
  ["destination bytes, stdout, stderr and exit status against an unfragmented run"])

p("C06", "Every channel and the library give the same result",
  "The same document with the same cleaning options yields the same bytes whether it comes from a file or standard input, goes to a file or standard output, or is cleaned through the library with the options the command line documents (including defaults and no-defaults). Standard output carries only the cleaned document, messages go only to standard error, and a run that writes a file writes nothing to standard output.",
  ["configurations", "inputs", "schedules"],
  "Every combination of input and output channel, option set and document, under arbitrary stream fragmentation.",
  NOIO + "Only three argument combinations are mapped to channels, and no bytes ever flow through them.",
  [MAIN, CLI, CLEAN], [("input()/output() channel choice", "cli.rs"), ("gen_*_options", "cli.rs"), ("load/parse/clean/write sequence", "main.rs")],
  ["all channels of a run against the library result"])

p("C07", "The saved result is never larger than the original",
  "Unless allow-bigger-file is given, the document a run delivers is never longer in bytes than the original it read, apart from the one newline that append-newline adds; a result exactly as long is delivered and a longer one is refused with an error. The comparison uses the bytes this run actually read, whatever happens to the input file meanwhile, in single-pass and multipass runs alike.",
  ["inputs", "configurations", "schedules"],
  "Documents whose result is just below, at and just above the original size (multi-byte text included), every channel and option set, and the input file growing, shrinking, being replaced or deleted at any point of the run.",
  NOIO + "The size check and the newline rule live in the program's main loop, which no test executes.",
  [MAIN], [("buf.len() > input_size check before append_newline", "main.rs")],
  ["delivered byte count against bytes served to the run"])

p("C08", "Multipass terminates and equals repeated single runs",
  "With multipass every run terminates, and what it delivers is exactly what a chain of separate single-pass runs through saved intermediate files delivers when stopped as soon as the size no longer shrinks. The result is never larger than that of a single pass, and if any pass is refused the run as a whole is refused.",
  ["histories", "inputs", "crash_points", "configurations"],
  "Every document and option set; chains of any length; the chain of separate runs may be killed and restarted between and inside passes.",
  NOIO + "The multipass loop is never executed by a test, and its termination depends on the whole chain of results.",
  [MAIN], [("loop with prev_size", "main.rs")],
  ["delivered bytes against a chain of single-pass runs", "step bound"], [("prev_size", "size of the previous pass", "main.rs")])

p("C09", "The outcome depends only on document and options",
  "Two runs with the same document and options deliver the same bytes, messages and exit status whatever differs around them: random hash seeds, clock and time zone, process id, user, environment variables, locale, current directory, path names, memory layout, timing of I/O, and the earlier content of the destination or of other files.",
  ["configurations", "schedules", "inputs"],
  "Every assignment of the environment's sources of nondeterminism.",
  NOIO + "Each test runs once in one environment; a dependence on hash order or environment shows only across environments.",
  [MAIN, CLI, "src/task", "src/cleaner.rs"], [("no global state, ordered containers", "src/task")],
  ["delivered bytes, stdout, stderr, exit status across environments"])

p("C10", "Cleanings in one process do not influence each other",
  "In a program that uses the library, cleaning a document gives the same result - or the same error - as in a fresh process, whatever other documents the process cleaned before, including refused ones, and whatever other documents its other threads clean at the same time, under any interleaving.",
  ["schedules", "histories", "inputs"],
  "Every interleaving of the threads at allocation points, every assignment of documents and options to threads, every sequence of earlier cleanings.",
  NOIO + "Each test cleans one small document; state carried from one cleaning to another would need a particular history or interleaving.",
  [CLEAN, "src/lib.rs", "src/task"], [("no shared mutable state; documents are thread-local trees", "src/task")],
  ["per-job result against the solo result"])

p("C11", "The input is read completely or the run fails",
  "A run cleans exactly the bytes of its input: if a read fails after part of the input was delivered, or the input is not valid UTF-8 anywhere, the run reports an error and delivers nothing, and it never treats the part it got as the whole. Reported file sizes that are too small, too large or zero and very large inputs change nothing in what is cleaned.",
  ["fault_sequences", "inputs", "crash_points"],
  "Every read failing at every offset, every kind of read error, wrong metadata, invalid bytes at any offset and chunk border, on files and on standard input.",
  NOIO + "load_file and load_stdin are not covered by any test.",
  [CLEAN, MAIN], [("read_to_string", "cleaner.rs load_file, load_stdin")],
  ["delivered bytes against the bytes served", "stderr"])

p("C12", "Running again after any failure gives the undisturbed result",
  "After a run was killed at any point, failed on any fault, or the machine lost power and with it everything not yet written back, running the same command again without faults, with the input intact and the destination still writable, delivers the same bytes and messages as if nothing had happened. Nothing an earlier run left behind - partial, torn, stale or longer destination content, leftover files - influences a later run.",
  ["crash_points", "fault_sequences", "histories"],
  "Sequences of killed and failed runs (several in a row, different documents, kills at any system call or allocation, power loss with torn unsynced data) followed by a fault-free run.",
  NOIO + "No test runs the program twice on the same disk.",
  [MAIN, CLEAN], [("File::create truncates before writing", "cleaner.rs save_file"), ("no state kept between runs", "main.rs")],
  ["destination, stdout, stderr of the final run against a run on a fresh disk"])

p("C13", "A run changes nothing but its destination",
  "Once a run is over, whether it succeeded, was refused or failed, no file or directory other than its destination has been created, modified, renamed, deleted or had its permissions or links changed; with standard output as destination nothing on disk has. A killed run never alters or removes any other file that existed before.",
  ["fault_sequences", "crash_points", "configurations"],
  "Every run of every workload of this framework: all option sets, aliases, faults and kill points, with bystander files next to the input and output, under the temporary and home directories.",
  NOIO + "Files written besides the destination are outside what they look at.",
  [MAIN, CLEAN], [("the only file opened for writing is the output path", "cleaner.rs save_file, main.rs on_err")],
  ["mutation log of the simulated file system"])

p("C14", "Damaged input never crashes or hangs the program",
  "Whatever storage or transfer damage a valid document suffered - flipped bits, lost, duplicated, swapped, zeroed or cut-off blocks - cleaning it ends within a bounded number of steps in a delivered result or in a reported error. It never panics, aborts, overflows or loops, in single-pass or multipass runs, with any options.",
  ["fault_sequences", "inputs", "configurations"],
  "Every damage sequence of a few faults at any byte of documents that use every supported feature.",
  NOIO + "All inputs of the tests are intact literals.",
  [CLEAN, MAIN, "src/task"], [("parse errors are returned", "cleaner.rs parse_data"), ("tasks tolerate odd trees", "src/task")],
  ["exit status", "stderr", "step counter"])

p("C15", "Failing to print messages never changes what is saved",
  "If standard error cannot take a message - closed pipe, full disk, I/O error, at any message and any byte - the run still delivers (or refuses to deliver, or copies on error) exactly what it would have, and does not panic because of it. The quiet option changes only the success message.",
  ["fault_sequences", "configurations", "inputs"],
  "Every failure point of the standard error stream: runs with many warnings, refused runs, copy-on-error runs, successful runs, on all channels.",
  NOIO + "Tests do not look at messages, let alone fail them.",
  [MAIN], [("writeln!(stderr())", "main.rs"), ("fern logger chained to stderr", "main.rs")],
  ["destination bytes, stdout, exit status against a run with a healthy stderr"])

p("C16", "Simultaneous runs do not disturb each other",
  "Runs of the program that execute at the same time with different destinations each deliver, under any interleaving of their system calls, what they deliver alone, even if they read the same input, and their messages stay intact when they share standard error. Runs connected by a pipe deliver what the same runs deliver one after another through files, and if the reading side goes away the writing side ends with a reported error.",
  ["schedules", "crash_points", "configurations"],
  "Every interleaving of two to four runs at system-call granularity, with bounded pipes of any capacity, delays, short transfers and kills of one participant.",
  NOIO + "One process at a time, no schedules.",
  [MAIN, CLEAN], [("no shared temporary names or locks", "main.rs, cleaner.rs")],
  ["each run's destination and messages against its solo run"])

p("C17", "Every run ends: no failure makes it wait or retry forever",
  "Every run ends within a bounded number of steps after its input stream ended, whichever calls fail - once, repeatedly or permanently - on input, output or messages. A run that reads from a file never waits for standard input, and no run ends without having either delivered its destination, reported an error, or been killed.",
  ["fault_sequences", "schedules", "configurations"],
  "Persistent and repeated errors of every kind on every call of the run, stalled and never-ending streams that are not the run's input, sinks that are full for good.",
  NOIO + "No test meets a failing or blocking call.",
  [MAIN, CLEAN], [("errors are returned, not retried", "cleaner.rs"), ("multipass loop bound", "main.rs")],
  ["step counter of the simulator, blocked-state detection"])

p("C18", "A concurrently changed input is used in one consistent version",
  "If other programs atomically replace, rename, delete, re-link or re-permission the input or the destination while a run is in progress, the run's outcome is the correct one for the old or for the new version of the input, or a reported error: never a mixture of versions, and a refused document's copy is always one complete version. Files that were put at the input's name meanwhile are never modified.",
  ["schedules", "histories"],
  "Every point between two system calls of a run at which the other program's change can fall, and every such change.",
  NOIO + "No test has a second actor.",
  [MAIN, CLEAN], [("one open per load", "cleaner.rs load_file"), ("exists() check tolerates races", "main.rs")],
  ["delivered bytes against the results for each version"])

PURE = "Pure function of the document: no schedule, clock, fault or interleaving takes part. "
p("C30", "Cleaning is lossless: the picture does not change",
  "With the default options the cleaned document renders exactly like the original: same shapes, positions, paint, text and effects in the same order.",
  ["inputs"], "Every supported document.", "The tests pin a few hundred document fragments; losslessness quantifies over all documents and all combinations of tasks.",
  ["src/task"], [("each task preserves rendering", "src/task")])
p("C31", "Each option changes only what it documents",
  "An option that is off leaves the aspect of the document it controls as it was, and turning it on performs only the documented transformation.",
  ["configurations", "inputs"], "All option subsets and documents.", "Tests call tasks directly and seldom together.",
  [CLEAN, CLI, "docs/svgcleaner.adoc"], [("if options.x guards", "cleaner.rs clean_doc")])
p("C32", "References stay intact and identifiers stay unique",
  "Every internal reference of the cleaned document resolves to the element it referred to originally, identifiers are unique, and nothing that is still referenced is removed.",
  ["inputs", "configurations"], "All documents with references.", "Tests cover single tasks with a handful of references.",
  ["src/task/rm_unused_defs.rs", "src/task/trim_ids.rs", "src/task/rm_dupl_defs", "src/task/group_defs.rs"], [("linked node graph", "svgdom, src/task")])
p("C33", "Numeric rounding stays within the requested precision",
  "No coordinate, property, transform or path value of the result differs from its exact value by more than the requested precision implies.",
  ["inputs", "configurations"], "All numbers and precisions 1..12.", "Tests use few numbers.",
  ["src/task/round_numbers.rs", "src/task/paths"], [("round_numbers, path rounding", "src/task")])
p("C34", "Cleaning is stable: cleaning a clean document changes nothing",
  "Cleaning the result of a converged multipass run again with the same options reproduces it byte for byte.",
  ["inputs", "configurations"], "All documents.", "No test feeds output back.",
  [CLEAN, MAIN], [("task pipeline", "cleaner.rs clean_doc")])
p("C35", "Text content is preserved",
  "Character data of rendered text elements and attribute values keep their exact characters through cleaning, including escaping and significant white space.",
  ["inputs"], "All documents with text.", "Few text tests.",
  ["src/task/rm_text_attrs.rs", CLEAN], [("svgdom reader and writer", "svgdom")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
