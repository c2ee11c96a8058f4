#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded search in qbsim)"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a, note=note))

OUT = ["exit status", "standard error", "output files"]
prop("P01", "No silent loss of output",
  "If a run exits with status 0, every output it was asked for (document, each HTML page, dependency file, locations file) holds exactly the bytes a run without faults writes. A failing open, write, flush, close or mkdir, a torn write or a full disk on any output makes the exit status nonzero and produces an error message, while partial or interrupted writes that can be continued change nothing.",
  ["inputs", "configurations", "fault_sequences"], "every project, output format and option, and every fault at every call that opens, writes or closes an output",
  "The tests never meet a failing write or close; a failure that only shows at close, or on one of many pages, needs a fault at a particular call.",
  ["src/quickbook.cpp", "src/bb2html.cpp", "src/dependency_tracker.cpp"],
  [("the output stream is closed and checked before success is reported", "src/quickbook.cpp parse_document"),
   ("every page is closed and checked, failures are counted", "src/bb2html.cpp write_file"),
   ("the dependency file is closed and checked", "src/dependency_tracker.cpp write_dependencies")], observe=OUT)
prop("P02", "No silently incomplete input",
  "If opening, reading or examining a source (QuickBook file, imported code, SVG image, globbed directory) fails, the run does not exit 0 with an output that differs from the one the complete sources give: it exits nonzero with an error message that names the file that could not be opened or read. Short and interrupted reads, however a source is cut into pieces, change neither output nor diagnostics nor exit status.",
  ["inputs", "fault_sequences"], "every project and every failing, short or interrupted read, open, stat or readdir of any source",
  "The tests only read healthy files in one piece.",
  ["src/files.cpp", "src/actions.cpp", "src/include_paths.cpp", "src/code_snippet.cpp"],
  [("load checks the stream after reading", "src/files.cpp load"), ("load errors are caught and reported at the include", "src/actions.cpp include_action"),
   ("SVG files are read to the end and checked", "src/actions.cpp image_action")], observe=OUT)
prop("P03", "Errors in the input leave existing output alone",
  "A run that fails because of its sources (syntax, structure, missing or unreadable includes, wrong encoding) neither creates, truncates nor changes the output document or any HTML page: outputs of an earlier successful run stay as they were. (The one exception: a BoostBook document whose XML cannot be pretty-printed is written as it is, with an error and a nonzero exit status.)",
  ["inputs", "fault_sequences"], "every project with an error anywhere in its sources, or a source that cannot be read, over outputs of an earlier run",
  "The tests check outputs only of documents that convert; keeping the old output depends on the order of parsing and opening for every kind of error.",
  ["src/quickbook.cpp"], [("the output is opened only after parsing and post-processing succeeded", "src/quickbook.cpp parse_document")], observe=["output files", "calls that open files"])
prop("P04", "The dependency file is exactly what was looked for",
  "The dependency file lists every source, imported code file and SVG image that was read or found to be there; in the checked format it also lists, marked as missing, every place that was searched before the one that was found or without finding anything, and every glob pattern with all its matches. It lists nothing else, each entry has the right sign, escaping round-trips every file name, the locations file says the same, and it is written even when the document has errors.",
  ["inputs", "configurations"], "every project layout: search paths, shadowed and missing files, globs, odd names, nested includes of every language version, all dependency formats",
  "One test compares one small project; the search order, signs and escapes have to hold for every layout and directory order.",
  ["src/dependency_tracker.cpp", "src/include_paths.cpp", "src/actions.cpp", "src/quickbook.cpp"],
  [("every lookup goes through add_dependency / add_glob / add_glob_match", "src/include_paths.cpp include_search"), ("paths are made canonical and escaped when written", "src/dependency_tracker.cpp")],
  state=[("dependencies", "paths looked for and whether they existed"), ("glob_dependencies", "patterns and their matches")], observe=["dependency file", "locations file", "calls that open files"])
prop("P05", "A build that trusts the dependency file is never stale",
  "After a conversion with a checked dependency file, if no listed file changed, appeared or vanished, and no listed pattern matches other files than before, then converting again gives the same outputs, diagnostics status and exit status. This holds over every history of edits, creations on the search path, deletions, renames and removed directories, also when the first build failed.",
  ["histories", "inputs"], "every project and every history of build, edits by others, build, up to three rounds",
  "It relates two runs through a history of edits by another party; no test runs the program twice.",
  ["src/dependency_tracker.cpp", "src/include_paths.cpp", "src/actions.cpp", "src/doc_info_actions.cpp"],
  [("negative dependencies and globs are recorded with what was found", "src/dependency_tracker.cpp"), ("every file the conversion reads is looked up through the tracker", "src/include_paths.cpp, src/actions.cpp")], observe=["dependency file", "outputs of both runs"])
prop("P06", "Same project, same bytes",
  "Outputs, diagnostics and exit status are a function of the sources, the command line and, without --debug, the time: they do not depend on directory order, inode numbers, memory layout or the content of fresh memory, unrelated environment variables and locale, unrelated files, outputs of earlier runs, the sizes of reads and writes or, with --debug, the clock and time zone. For the documents of the regression corpus the output is the recorded one.",
  ["inputs", "configurations", "histories"], "every project and every such environment; repeated runs over their own outputs",
  "Tests run once in one environment; iteration over hashed or address-ordered containers, uninitialised memory and unsorted directories look the same there.",
  ["src/include_paths.cpp", "src/id_generation.cpp", "src/files.cpp", "src/syntax_highlight.cpp", "src/bb2html.cpp", "src/quickbook.cpp"],
  [("matches of a glob are kept in an ordered set", "src/include_paths.cpp include_search"), ("ids are generated in document order", "src/id_generation.cpp"), ("--debug fixes the time", "src/quickbook.cpp main")], observe=OUT)
prop("P07", "One moment in time per conversion",
  "All dates and times a conversion puts into its outputs (the date and time macros anywhere in any file or template, the default last-revision) show one and the same moment, at which the clock was read during the run: macros in the local time zone, last-revision in UTC. With --debug they show the fixed debugging date whatever clock and zone say.",
  ["inputs", "schedules", "configurations"], "every project, start time, time zone, speed of the machine and clock jump during the run",
  "The tests run with --debug; a second reading of the clock only shows when the clock passes a boundary or jumps in between.",
  ["src/quickbook.cpp", "src/actions.cpp", "src/doc_info_actions.cpp"],
  [("the clock is read once at the start and kept", "src/quickbook.cpp main"), ("the macros format the kept time", "src/actions.cpp do_macro_action"), ("last-revision formats the kept UTC time", "src/doc_info_actions.cpp")],
  state=[("current_time", "local time of the run"), ("current_gm_time", "UTC time of the run")], observe=["output files", "clock readings"])
prop("P08", "One version of each source per conversion",
  "A QuickBook source or imported code file that is replaced while a conversion runs is used in one version throughout, however often and from wherever the project refers to it by the same path: output, diagnostics and exit status are those of a run over the old or over the new version of each replaced source.",
  ["schedules", "inputs", "fault_sequences"], "every project with repeated includes and imports and every moment at which one or two sources are atomically replaced",
  "It needs another party changing a file between two uses within one run.",
  ["src/files.cpp", "src/code_snippet.cpp", "src/actions.cpp"], [("loaded files are cached by path for the whole run", "src/files.cpp load")],
  state=[("files", "cache of loaded files")], observe=OUT)
prop("P09", "Every run ends, and ends properly",
  "Whatever errors the system returns, however files change or vanish under the run, and however damaged the sources are (truncated, holes, lost, repeated or flipped pieces), the process ends within a bounded number of steps by exiting: it does not crash, abort, fail an assertion, corrupt memory, loop or exit nonzero without an error message.",
  ["inputs", "fault_sequences"], "every project, torn source, and sequence of up to four faults at any calls",
  "The tests feed well-formed, present files to a healthy system.",
  ["src/quickbook.cpp", "src/files.cpp", "src/grammar.cpp", "src/main_grammar.cpp", "src/actions.cpp", "src/bb2html.cpp", "src/xml_parse.cpp", "src/post_process.cpp", "src/syntax_highlight.cpp", "src/code_snippet.cpp"],
  [("exceptions are caught and reported in main", "src/quickbook.cpp main"), ("parsers always reach the end of their input", "src/main_grammar.cpp, src/xml_parse.cpp")], observe=["exit status", "signals", "heap checks", "step count"])
prop("P10", "A failed allocation is never silent",
  "If an allocation fails anywhere in a run (once, a few times, or from then on), the run either exits 0 with exactly the outputs of a run without the failure, or does not exit 0 and, when it exits, reports an error; it never hangs, never corrupts memory and never leaves text out of an output it reports as written.",
  ["fault_sequences", "inputs"], "every project and every position of the failing allocation",
  "No test makes an allocation fail; iostreams swallow exceptions unless told otherwise, which loses text at one allocation among hundreds of thousands.",
  ["src/collector.hpp", "src/collector.cpp", "src/quickbook.cpp", "src/doc_info_actions.cpp"],
  [("exceptions of string streams are let through", "src/collector.hpp string_stream"), ("exceptions end the run with an error", "src/quickbook.cpp main")], observe=OUT)
prop("P11", "A killed run does no lasting damage",
  "If a run is killed at any moment, perhaps with loss of power, or fails half way, the next run with the same or edited sources succeeds and leaves, for every output it writes, exactly the bytes a run in a fresh place leaves; no source is changed.",
  ["crash_points", "histories", "inputs"], "every project, every call at which one or two successive runs are killed or meet an error, what of the written data survives, and edits in between",
  "No test kills the program or runs it again over half-written outputs.",
  ["src/quickbook.cpp", "src/bb2html.cpp", "src/dependency_tracker.cpp"],
  [("outputs are truncated and rewritten whole; directories that exist are used", "src/quickbook.cpp, src/bb2html.cpp write_file")], observe=["output files after the next run"])
prop("P12", "A run touches nothing but its outputs",
  "A run creates, changes, renames or removes nothing except the outputs it was asked for (the document, or pages and directories below the output directory, the dependency and locations files); sources and unrelated files, also below the output directory, stay as they are, even when calls fail or the run is killed.",
  ["inputs", "configurations", "fault_sequences", "crash_points"], "every project among unrelated files and every sequence of faults or a kill",
  "The tests look at the files they expect, not at the rest of the tree, and meet no faults.",
  ["src/quickbook.cpp", "src/bb2html.cpp", "src/boostbook_chunker.cpp"],
  [("page paths are built below the output directory", "src/boostbook_chunker.cpp, src/bb2html.cpp"), ("the output path comes from the command line or the input's name", "src/quickbook.cpp main")], observe=["the whole tree before and after", "calls that change files"])
prop("P13", "Line ends and byte order marks do not matter",
  "Converting sources whose lines end in LF, CR LF, CR or any mixture, with or without a UTF-8 byte order mark, gives the same outputs and diagnostics, with the same line numbers, wherever read boundaries fall. A source in UTF-16 or UTF-32 with a byte order mark is rejected with an error instead of being converted.",
  ["inputs", "schedules"], "every project, every choice of line ends and marks per source and every way of cutting reads",
  "Two tests have CR LF files; mixtures and a read boundary inside CR LF or the mark depend on the delivery of the bytes.",
  ["src/files.cpp", "src/string_view.hpp"], [("normalize turns every line end into LF and drops the mark", "src/files.cpp normalize, read_bom")], observe=OUT)
prop("P14", "Errors are reported where they are",
  "The message about an include, import or image that cannot be found, opened, read or decoded gives the file and line of that reference and names what was missing, in the GNU or (with --ms-errors) Microsoft style, on a line of its own. No located error message names a file or line that does not exist.",
  ["inputs", "configurations", "fault_sequences"], "every project and every set of failing references at any depth",
  "The tests check that errors occur, not where they are reported, and never with files that vanish or fail while being read.",
  ["src/actions.cpp", "src/include_paths.cpp", "src/stream.cpp", "src/files.cpp"],
  [("load errors are reported at the position of the include", "src/actions.cpp include_action"), ("positions are mapped to lines of the file", "src/files.cpp position_of"), ("message prefix", "src/stream.cpp outerr")], observe=["standard error"])
prop("P15", "No failed reference hides another",
  "When several references of a document fail, each failure is reported once for each time it was met, nothing that did not fail is reported, the printed error count equals the number of errors reported, and the exit status is nonzero. (A file included after an error is looked up and loaded but not parsed.)",
  ["inputs", "fault_sequences"], "every project and every set of missing, unreadable, vanishing or wrongly encoded files",
  "Tests contain one error each.",
  ["src/actions.cpp", "src/include_paths.cpp", "src/quickbook.cpp"],
  [("include_action catches each load error, counts it and goes on", "src/actions.cpp include_action"), ("error_count", "src/state.hpp")], state=[("error_count", "errors reported so far")], observe=["standard error", "exit status"])
prop("P16", "The exit status tells the truth",
  "The exit status is 0 exactly when no error was reported, however many errors there are (also at multiples of 256) and whatever their source: document, unwritable pages, unusable command line, missing input, system errors. The printed error count is the number of errors reported. With --expect-errors it is the other way round for errors in documents: a run without errors fails and says so.",
  ["inputs", "configurations", "fault_sequences"], "every project, number of errors, kind of failure and command line",
  "Tests have few errors; the status is truncated to 8 bits by the system.",
  ["src/quickbook.cpp", "src/bb2html.cpp"], [("errors are counted and turned into a status", "src/quickbook.cpp main, parse_document"), ("failed pages are counted", "src/bb2html.cpp")], observe=["exit status", "standard error"])
prop("P17", "One unwritable page does not cost the others",
  "With chunked HTML output, if one or two pages cannot be opened or written, every other page is still written in full, each failed page is named in an error message, and the exit status is nonzero.",
  ["inputs", "fault_sequences"], "every document with several pages and every persistent fault on one or two of them",
  "No test writes pages to a failing file system.",
  ["src/bb2html.cpp"], [("write_file reports, counts and returns; the other pages follow", "src/bb2html.cpp write_file")], observe=OUT)
prop("P18", "Concurrent runs do not disturb each other",
  "Runs that work at the same time on the same sources with outputs of their own each give exactly what they give alone, under every interleaving of their system calls, also when one of them is killed or meets errors.",
  ["schedules", "crash_points", "fault_sequences"], "two or three processes over one project, every schedule with 2 to 40 context switches, perhaps a kill or fault in one of them",
  "No test runs two processes; sharing of temporary or output names only shows under particular interleavings.",
  ["src/quickbook.cpp", "src/bb2html.cpp", "src/dependency_tracker.cpp"], [("a run writes only its own outputs and uses no shared scratch files", "src/quickbook.cpp, src/bb2html.cpp")], observe=OUT)
prop("P19", "Includes lead where they should",
  "Each include and import brings in exactly the files the documentation says: the path relative to the including file (for a template, the file that holds it) if there is one, else the first of the include directories in the order given; for a pattern, every match in every one of these places. They appear in order, as often as they were asked for, whole and under the right name (__FILENAME__), in the output; a conversion whose references can all be found is not refused, and one with a reference that leads nowhere is.",
  ["inputs", "configurations", "histories"], "every layout of sources and search directories, every directory order, and files that appear, move and vanish between two conversions",
  "The tests have a few fixed layouts; search order, shadowing and directory order combine without bound and the sources are moved by others.",
  ["src/include_paths.cpp", "src/actions.cpp", "src/quickbook.cpp", "src/path.cpp"],
  [("include_search tries the including file's directory, then the include path", "src/include_paths.cpp include_search"),
   ("names shown to the document are relative to the main file or an include directory", "src/include_paths.cpp quickbook_path, calculate_relative_path")],
  state=[("include_path", "directories of the command line in order"), ("current_path", "place of the current file, real and as the document sees it")], observe=OUT)
prop("P20", "Where it is built does not matter",
  "A conversion gives the same outputs, diagnostics and exit status when the whole project is moved to another place, and when it is started from another working directory with the same files named accordingly (positions in messages are then given relative to there, and the dependency file lists the same files).",
  ["inputs", "configurations"], "every project and command line, every place and working directory",
  "The tests run from one directory; relative paths between input, output, include directories and working directory combine freely.",
  ["src/path.cpp", "src/native_text.cpp", "src/quickbook.cpp", "src/dependency_tracker.cpp"],
  [("path_difference relates output, xinclude base and working directory", "src/path.cpp path_difference"), ("dependencies are made absolute or relative to the working directory", "src/dependency_tracker.cpp")], observe=OUT)
prop("P21", "Lost diagnostics change nothing else",
  "If standard output or standard error is full, closed or has no reader, the run writes the same outputs and ends with the same exit status as when its messages can be read, and what it says on the other stream is the same.",
  ["inputs", "fault_sequences"], "every project, good or with errors, perhaps with another failing call, and every way in which its diagnostics are lost",
  "Tests read all diagnostics; a blocked or broken log is an environment fault.",
  ["src/stream.cpp", "src/quickbook.cpp"], [("messages go to streams whose failures are not the conversion's", "src/stream.cpp")], observe=OUT)
prop("P22", "Few open files suffice",
  "A conversion needs only a constant number of open files, however many sources, pages and nested includes it has: with a limit of a few descriptors outputs, diagnostics and exit status are the same as without.",
  ["inputs", "fault_sequences"], "every project (many pages, chains of includes up to 25 deep) and every limit from three to six open files beyond the standard ones",
  "Leaked or long held descriptors show only under a limit that the tests never come near.",
  ["src/files.cpp", "src/bb2html.cpp", "src/include_paths.cpp", "src/quickbook.cpp"],
  [("files are read at once and closed", "src/files.cpp load"), ("each page is closed before the next is opened", "src/bb2html.cpp write_file")], observe=OUT)
prop("P23", "Every access stays inside live memory",
  "Whatever the sources (sound, wrong, truncated or scrambled), the command line and the errors the system returns, a run reads and writes only live memory within bounds, breaks no precondition of the containers it uses and computes nothing that C++ leaves undefined. (Failing allocations are P10's.)",
  ["inputs", "configurations", "fault_sequences"], "every project and command line with torn sources, mistakes and up to four faults",
  "Tests run without checks of accesses, and bad accesses hide behind inputs and errors that tests do not produce.",
  ["src/files.cpp", "src/actions.cpp", "src/grammar.cpp", "src/xml_parse.cpp", "src/bb2html.cpp", "src/syntax_highlight.cpp", "src/code_snippet.cpp", "src/id_generation.cpp", "src/string_view.hpp", "src/values.cpp", "src/utils.cpp"],
  [("sources are kept alive while views of them exist", "src/files.cpp, src/string_view.hpp"), ("values are reference counted", "src/values.cpp")], observe=["memory accesses (instrumented build)", "exit status"],
  note="seeded search in an address- and undefined-behaviour-checked build of the code under test; every case replays exactly from its seed")

NA = [
 ("N01", "Outputs are well formed", "Every document that converts without error and contains no raw escapes gives well-formed XML or HTML with all text escaped.",
  ["src/utils.cpp", "src/actions.cpp", "src/html_printer.cpp", "src/post_process.cpp"], "escaping of text and nesting of tags",
  "a pure function of the source text: no schedule, time, I/O or fault enters; searching inputs for it would be property-based testing, not simulation"),
 ("N02", "Generated ids are unique and links resolve", "All generated ids of a document are unique and valid, and every link to an id that exists leads to it.",
  ["src/id_generation.cpp", "src/document_state.cpp", "src/bb2html.cpp"], "placeholder resolution and de-duplication of ids",
  "a pure function of the source text; its only environmental side, independence of memory layout and order, is part of P06"),
 ("N03", "Macros and templates follow their scopes", "A macro or template is visible exactly in its scope, arguments are bound lexically, and recursion is bounded.",
  ["src/template_stack.cpp", "src/state_save.cpp", "src/actions.cpp"], "scoped symbol tables",
  "a pure function of the source text; nothing nondeterministic enters"),
 ("N04", "Old documents keep their meaning", "A document of any language version is converted by the rules of that version.",
  ["src/quickbook.cpp", "src/main_grammar.cpp", "src/actions.cpp"], "version checks in grammar and actions",
  "a pure function of the source text; the regression documents of every version are replayed under P06"),
 ("N05", "Pretty printing keeps content", "Layout changes white space only where it does not matter.",
  ["src/post_process.cpp"], "the tidy grammar and printer", "a pure function of one string; covered by the project's own unit test for samples"),
 ("N06", "Glob patterns mean what they say", "A pattern matches exactly the names its syntax describes.",
  ["src/glob.cpp"], "glob matcher", "a pure function of two strings; its use on directories is part of P04"),
 ("N07", "Source positions survive transformations", "Every position in unindented, snippet or template text maps to its place in the original file.",
  ["src/files.cpp"], "mapped files", "a pure function of the source text; the part that depends on I/O (messages about failing files) is P14"),
]
json_lines = []
for p in P:
    q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    json_lines.append(q)
for id, title, st, files, mech, why in NA:
    json_lines.append(dict(id=id, title=title, statement=st, quantifier=dict(over=["inputs"], text="every document"),
        why_tests_cant="Tests sample a few documents.", anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])], hook_needed=None)))
for q in json_lines:
    assert len(q["title"]) <= 80, q["title"]
    st = q["statement"]
    assert st.count(". ") + st.count(".) ") <= 3, (q["id"], st)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in json_lines: f.write(json.dumps(q, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="./build.sh && QBSIM_SAN=1 ./build.sh",
  hooks=dict(guard="none", enable="no hooks: qbsim links every translation unit of /repo/src unchanged and puts the simulator behind the C library's system call wrappers and the allocator", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
     technique=TECH, level="exploration",
     level_note=p["note"] or "seeded search over projects, schedules and fault sequences; every case replays exactly from its seed; bounds in DESIGN.md") for p in P],
  not_applicable=[dict(property=n[0], reason=n[5]) for n in NA])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
