#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "libhfst/src/"
I = L + "implementations/"
T = "tools/src/"


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "observe_at": observe, "hook_needed": None}}


PROPS = [
    P("C01", "A transducer stream delivers exactly what was written, in order",
      "Whatever sequence of transducers is written to a stream (a file or a pipe, in any of the six formats), the reader gets the same number of "
      "transducers in the same order, each with the same relation, weights, name, properties and format, followed by a clean end of stream. "
      "This does not depend on how reads and writes are split or interrupted, on buffer sizes, on pipe capacity, or on how writer and reader are scheduled. "
      "Nothing of one transducer (name, property, symbol) leaks into another.",
      ["inputs", "histories", "schedules"],
      "all sequences of transducers, names and properties, all formats, all splits of the I/O calls, all interleavings of writer and reader",
      "The tests write a few transducers to a file and read them back in one process with full-size reads; no test sees a short read, a pipe of one byte or two running processes.",
      [L + "HfstInputStream.cc", L + "HfstOutputStream.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", I + "SfstTransducer.cc",
       I + "FomaTransducer.cc", I + "HfstOlTransducer.cc", I + "optimized-lookup/transducer.cc"],
      [("header, then back-end image, repeated", L + "HfstOutputStream.cc"), ("format detection and header parsing", L + "HfstInputStream.cc")],
      ["HfstOutputStream, HfstInputStream", "tools that copy streams"]),
    P("C02", "A cut, damaged or unreadable stream is never taken for a whole one",
      "When a transducer stream ends inside a transducer (the writer crashed, the disk was full, the file was truncated at any byte) or a read fails, "
      "the reader gets every transducer that was completely written, unchanged, and then an error: never an altered or additional transducer, never a clean end of stream, "
      "and tools do not exit with success. A reader never crashes on such a stream.",
      ["crash_points", "fault_sequences", "inputs"],
      "every byte at which a stream can be cut, every write at which the writer can be killed or refused, every read that can fail, in all six formats",
      "The tests have one or two hand-made broken files; no test cuts a stream at every point, kills a writer or makes a read fail.",
      [L + "HfstInputStream.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc",
       I + "HfstOlTransducer.cc", I + "optimized-lookup/transducer.h", "back-ends/sfst/alphabet.cc"],
      [("is_eof, is_good and the exceptions of the read functions", L + "HfstInputStream.cc")],
      ["HfstInputStream", "exit status of the tools"]),
    P("C03", "Reported success means the output is complete",
      "When a tool exits with status 0, or a library writer reports no error, everything it should have written (transducers, text, answers; to files or standard output) "
      "has been handed to the operating system completely. If any open, write, flush or close of the output failed at any point, or the disk filled up, the tool exits with a "
      "non-zero status (or is ended by SIGPIPE when its reader is gone) and the library throws; it never crashes.",
      ["fault_sequences", "inputs", "crash_points"],
      "every output operation of every tool that can fail (no space, I/O error, failing close, file that cannot be opened, reader gone), at every byte",
      "The tests run on a disk that never fails; a tool that ignores the result of its last write passes all of them.",
      [L + "HfstOutputStream.cc", I + "TropicalWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", I + "HfstOlTransducer.cc",
       T + "hfst-commandline.cc", T + "hfst-program-options.cc", T + "parsers/hfst-xfst.cc", T + "hfst-lookup.cc"],
      [("stream state checked on write and close", L + "HfstOutputStream.cc"), ("exit status of the tools", T + "hfst-commandline.cc")],
      ["exit status, output files and standard output of the tools", "HfstOutputStream"]),
    P("C04", "Lookup tools answer every input line exactly once, in order",
      "For any sequence of input lines (any length, any characters, not even valid UTF-8, repeated, unknown, empty, last one unterminated) the lookup tools print exactly the answers of each line, in input "
      "order, and nothing else: the output is the concatenation of what each line gives alone, and for plain formats these are the paths of the transducer with their weights. "
      "It does not depend on how the input arrives or on earlier lines; an input that cannot be read completely is reported by the exit status.",
      ["inputs", "histories", "schedules", "fault_sequences"],
      "all transducers, option sets and line sequences; all splits of the input into reads; all buffer sizes; a read error at any point",
      "The tests pipe a few short words through a tool; long lines, repeated lines, odd characters, split reads and read errors are not exercised.",
      [T + "hfst-lookup.cc", T + "hfst-flookup.cc", T + "hfst-optimized-lookup.cc", T + "hfst-pmatch.cc", T + "hfst-tokenize.cc", T + "hfst-commandline.cc",
       I + "optimized-lookup/transducer.cc", I + "optimized-lookup/pmatch.cc"],
      [("the line loop of each tool", T + "hfst-lookup.cc"), ("reading a line", T + "hfst-commandline.cc")],
      ["standard output and exit status of hfst-lookup, hfst-flookup, hfst-optimized-lookup, hfst-pmatch, hfst-tokenize"]),
    P("C05", "Interactive use: each request is answered before the tool waits for more",
      "A lookup or text-processing tool used over a pipe (one line, or one NUL-terminated block, per request) has delivered the complete answer to every complete "
      "request it was sent by the time it waits for more input, however the requests are split or batched. A partner that waits for the answer before sending the "
      "next request is therefore never left waiting, and the answers are the ones the same requests get in batch use.",
      ["schedules", "histories", "inputs"],
      "all request sequences and option sets of the tools with a request/response mode, all ways the requests are cut into deliveries, all buffer sizes",
      "The tests give all input at once and look at the output after the tool has ended, so a missing flush is invisible.",
      [T + "hfst-lookup.cc", T + "hfst-flookup.cc", T + "hfst-optimized-lookup.cc", T + "hfst-pmatch.cc", T + "hfst-tokenize.cc", T + "hfst-proc/tokenizer.cc",
       T + "hfst-proc/applicators.cc"],
      [("flush after each line or NUL", T + "hfst-lookup.cc"), ("null flush of hfst-proc", T + "hfst-proc/applicators.cc")],
      ["standard output of the tools at the moment they read from an empty pipe"]),
    P("C06", "A time cut-off ends a lookup soon, and only leaves results out",
      "A lookup in an optimized transducer, or a pmatch match, with a time cut-off ends within a bounded amount of work after its time is used up, whatever the transducer (also infinitely ambiguous ones), the input and the clock. "
      "What it returns is then part of the results it has without a cut-off, and everything when the time was not used up. "
      "Running out of time in one lookup changes no later lookup.",
      ["schedules", "histories", "inputs"],
      "all transducers, inputs and sequences of lookups with different cut-offs, and all ways the clock can advance (steadily, not at all, in jumps at any reading)",
      "Tests cannot control the clock: whether the cut-off falls between two particular steps of the search is left to the machine.",
      [I + "optimized-lookup/transducer.cc", I + "optimized-lookup/transducer.h", I + "optimized-lookup/pmatch.cc", T + "hfst-lookup.cc", T + "hfst-optimized-lookup.cc", T + "hfst-pmatch.cc",
       T + "hfst-tokenize.cc"],
      [("the cut-off test inside the search", I + "optimized-lookup/transducer.cc"), ("limits of a match", I + "optimized-lookup/pmatch.cc")],
      ["results of lookup_fd and match with a time cut-off", "hfst-lookup -t, hfst-optimized-lookup -t, hfst-pmatch -t"]),
    P("C07", "A lookup depends on the transducer and the input only",
      "What a lookup returns (paths, weights, the ambiguity test, pmatch matches) is a function of the transducer and the input string: earlier lookups in the same process, on the same or on other "
      "transducers, including unknown characters, limits, failing calls, flag diacritics and infinitely ambiguous inputs, do not change it, and it is the set of paths the transducer has. "
      "Looking up does not change the transducer: copies and saved files made afterwards are the same.",
      ["histories", "inputs"],
      "all transducers and all sequences of lookups, ambiguity tests, copies and saves on them in one process",
      "The tests perform a handful of lookups on fresh transducers; state left behind by one lookup shows only in particular later ones.",
      [I + "optimized-lookup/transducer.cc", I + "optimized-lookup/transducer.h", I + "optimized-lookup/find_epsilon_loops.cc", I + "optimized-lookup/pmatch.cc",
       I + "HfstBasicTransducer.cc", L + "HfstTransducer.cc", L + "HfstFlagDiacritics.cc"],
      [("per-lookup state reset", I + "optimized-lookup/transducer.cc"), ("flag state", L + "HfstFlagDiacritics.cc")],
      ["HfstTransducer::lookup*, HfstBasicTransducer::lookup, PmatchContainer::match/locate"]),
    P("C08", "Random paths are paths of the transducer, whatever the random numbers",
      "Every path drawn at random (extract_random_paths with and without flag filtering, hfst-fst2strings -r, the xfst random commands) is a successful path of the transducer with that path's weight, and obeys the flag diacritics "
      "where that was asked for; at most the requested number is returned, and the drawing ends. This holds for every sequence of random numbers and every clock; for a transducer with few paths, "
      "every non-empty one can turn up.",
      ["schedules", "inputs"],
      "all transducers (cyclic, with dead ends, with flags) and all sequences of values from rand() and time()",
      "A test sees one sequence of random numbers per run and cannot choose it; a wrong weight or a path that is not there appears only for some.",
      [I + "HfstBasicTransducer.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", L + "HfstTransducer.cc",
       T + "hfst-fst2strings.cc", L + "parsers/XfstCompiler.cc"],
      [("random walk with back-tracking", I + "TropicalWeightTransducer.cc")],
      ["HfstTransducer::extract_random_paths*", "hfst-fst2strings -r", "xfst print random-words, random-lower, random-upper"]),
    P("C11", "Operations on transducers follow the relational algebra over any history",
      "A program that keeps several transducers and applies any sequence of operations to them (union, concatenation, composition, intersection, subtraction, repetition, projection, inversion, reversal, substitution, "
      "shuffle, free insertion, flag elimination, determinisation, minimisation, n-best, edits through HfstBasicTransducer, conversion between back ends and so on) finds in each of them exactly the weighted relation that the definitions of the operations give, and comparison, path extraction and the questions about it (cyclic, automaton, longest path ...) agree with it. "
      "An operation or question changes its target only - arguments, copies and all other transducers stay as they were - and one that fails with an exception leaves the others and itself usable. "
      "Saved transducers survive a crash of the program: a reload continues with the same relations.",
      ["histories", "crash_points", "inputs"],
      "all sequences of operations and operands over several variables and back ends, all points at which the program is killed and restarted from its last complete save",
      "Tests apply one operation to fresh transducers; an operation that damages an argument, leaves stale state behind or is wrong on the result of another one shows only in a history.",
      [L + "HfstTransducer.cc", L + "HfstApply.cc", I + "HfstBasicTransducer.cc", I + "TropicalWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", I + "ConvertTransducerFormat.cc",
       "back-ends/sfst/operators.cc", "back-ends/sfst/fst.cc"],
      [("alphabet harmonisation and dispatch to a back end", L + "HfstTransducer.cc"), ("the operations of the own back end", "back-ends/sfst/operators.cc")],
      ["relations and weights of HfstTransducer objects", "saved streams after a crash"]),
    P("C13", "Processing running text neither loses, adds nor reorders any of it",
      "hfst-proc and hfst-tokenize pass on the whole of the text they read, in order: every word, blank, superblank, escape and NUL of the input stands in the output exactly once (in the way the output format has for it), "
      "whatever the lexicon, however the text is cut into reads, and wherever it ends; what a NUL-terminated block gets as an answer comes before that block's NUL. "
      "Each word is the longest one at its place that the transducer knows, with exactly the analyses (or generated forms) the transducer gives it, and everything else is marked as unknown. "
      "Text that is not in the stream format or cannot be read to its end makes hfst-proc fail; no text makes either tool crash or hang.",
      ["inputs", "schedules", "fault_sequences"],
      "all lexicons, texts (multiword units, partial matches, superblanks, escapes, NULs, invalid and decomposed characters, text without a final newline), formats and options, all splits of reads, read errors at any point",
      "The tests process a handful of complete texts that end in a newline; what a failed partial match gives back to the stream, or what happens at the end of the text, depends on the combination of lexicon and text.",
      [T + "hfst-proc/applicators.cc", T + "hfst-proc/tokenizer.cc", T + "hfst-proc/formatter.cc", T + "hfst-proc/alphabet.cc", T + "hfst-proc/lookup-state.cc", T + "hfst-tokenize.cc",
       I + "optimized-lookup/pmatch_tokenize.cc", I + "optimized-lookup/pmatch.cc"],
      [("longest match with tokens moved back to the stream", T + "hfst-proc/applicators.cc"), ("tokens, superblanks, escapes, NUL", T + "hfst-proc/tokenizer.cc"),
       ("blocks of hfst-tokenize", T + "hfst-tokenize.cc")],
      ["standard output and exit status of hfst-proc and hfst-tokenize"]),
    P("C14", "A pipeline of tools applies each operation to every transducer, in order",
      "A transducer tool reads a stream of n transducers and writes n results, the k-th being its documented operation on the k-th input (tools with a second stream pair the k-th transducers, or use the single one with each, "
      "and refuse streams that do not match; head, tail, multiply and split select and repeat), so that tools joined by pipes compute the composition of the operations whatever the pipes' capacities, chunk sizes and scheduling. "
      "When a tool of the pipeline is killed or cannot read, what later tools deliver with success is the result for a beginning of the stream, and no tool that could not read its input reports success.",
      ["schedules", "inputs", "fault_sequences", "crash_points"],
      "all streams, pipelines, options, pipe capacities and interleavings of the processes; a tool killed at any step, failing reads",
      "Tests run one tool on one or two transducers from a file; the tools keep state between the transducers of a stream, and meet a partner that dies only by chance.",
      ["tools/src/hfst-%s.cc" % t for t in ("invert", "compose", "conjunct", "substitute", "reweight", "head", "tail", "txt2fst", "fst2txt", "insert-freely", "split")],
      [("pairing of two streams", "tools/src/hfst-compose.cc"), ("loop over the transducers of a stream", "tools/src/hfst-substitute.cc")],
      ["number, order, type and relation of the transducers in the output", "exit statuses of the processes of the pipeline"]),
    P("C12", "A transducer written as text reads back as the same transducer",
      "AT&T and prolog text written from a transducer (by a tool or the library, to a file or a pipe) reads back as a transducer with the same symbols, weights and relation, and a sequence gives the same sequence, "
      "whatever the names, symbols and their length, and however the text is cut into reads. "
      "Text that is damaged, or that cannot be read completely, is refused or read up to an error: reading never crashes, never hangs, and success is not reported for an input that could not be read.",
      ["inputs", "fault_sequences", "schedules"],
      "all transducers, symbols, names and sequences; all damage to the text; all splits of reads, read errors at any point",
      "The tests convert a few small transducers with one-letter symbols; long or odd symbols and names, damaged text and failing reads are not tried.",
      [I + "HfstBasicTransducer.cc", T + "hfst-fst2txt.cc", T + "hfst-txt2fst.cc", L + "parsers/XfstCompiler.cc"],
      [("AT&T and prolog readers and writers", I + "HfstBasicTransducer.cc")],
      ["hfst-fst2txt, hfst-txt2fst", "HfstBasicTransducer::write_in_att_format, read_in_att_format, write_in_prolog_format, read_in_prolog_format", "xfst read/write att, prolog"]),
    P("C15", "What a tool writes is determined by its input and options",
      "A tool that ends with success writes the same bytes, and the same messages, every time it is given the same input files, options and standard input. "
      "The result does not depend on the contents of fresh memory, the addresses of objects, the clock, the process number, random numbers, buffer sizes or the pieces in which input arrives.",
      ["inputs", "schedules", "configurations"],
      "all tools, options and inputs (transducers and sources of every compiler); all memory contents and address orders, clocks, process numbers, random numbers and splits of I/O",
      "Tests run once, in one environment; an uninitialised field or an order taken from addresses gives the expected result there by luck.",
      [L + "HfstTransducer.cc", I + "HfstBasicTransducer.cc", I + "ConvertTransducerFormat.cc", I + "optimized-lookup/convert.cc", L + "parsers/LexcCompiler.cc", L + "parsers/xre_utils.cc",
       L + "parsers/pmatch_utils.cc", T + "hfst-commandline.cc"],
      [("state numbering and alphabets", I + "ConvertTransducerFormat.cc")],
      ["output files, standard output, messages and exit status of the tools"]),
    P("C09", "What a compiler produces depends on its whole source and its definitions alone",
      "What a compiler (regular expressions, lexc, twolc, pmatch, xfst) makes of a source depends on that source, the files it names and the definitions that this compiler object "
      "has been given before, and on nothing else the process has compiled, defined, configured or failed to compile. "
      "When the source or a file it names cannot be opened or read to its end, the compilation fails: no compiler and no compiling tool reports success with the result of a part of its input. "
      "A failing compilation does not end the process and does not change what later compilations produce.",
      ["histories", "fault_sequences", "inputs"],
      "all sequences of compilations by several compiler objects of several types in one process, all sources (whole or damaged), every point at which reading a source or a named file can fail",
      "The tests run each compiler once per process on a complete readable file; a second compilation after a failing one, two compilers side by side, or a source whose tail cannot be read do not occur in them.",
      [L + "parsers/XreCompiler.cc", L + "parsers/xre_parse.yy", L + "parsers/LexcCompiler.cc", L + "parsers/TwolcCompiler.cc", L + "parsers/pmatch_utils.cc",
       L + "parsers/XfstCompiler.cc", L + "parsers/SfstCompiler.cc", T + "hfst-regexp2fst.cc", T + "hfst-pmatch2fst.cc", T + "hfst-strings2fst.cc"],
      [("global parser, lexer and option state of the compilers and its reset", L + "parsers/"), ("reading of sources and of @bin, @txt, @re, @include, ... files", L + "parsers/xre_parse.yy")],
      ["XreCompiler, LexcCompiler, TwolcCompiler, PmatchCompiler, XfstCompiler", "exit status and output of the compiling tools"]),
    P("C10", "An xfst session follows its stack machine; a failing command changes nothing",
      "A session of the xfst compiler (script, pipe, standard input, -e, start-up file, sourced files at any depth) behaves as the documented machine: each command acts on the stack, the definitions, the functions and the files exactly "
      "as it says, whatever commands came before, and what it prints (words, sigma, labels, tallies, sizes, names, lengths, test and assert verdicts, apply answers, also redirected into files) and saves are the networks the machine holds. "
      "A command that fails - wrong syntax or arguments, too few networks, a missing, damaged or unreadable file, a full disk - says so and leaves stack and definitions as they were, the session goes on (or ends at once with quit-on-fail), and never crashes. "
      "After the session is killed, what it had saved can be loaded into a new one that continues as the old one would have.",
      ["histories", "fault_sequences", "crash_points"],
      "all command histories in every way of giving them; failing commands and failing opens, reads, writes and closes of files at any point; the session killed at any step",
      "Tests run short scripts to their end; what a failing command leaves behind, and what earlier commands do to later ones, is not looked at.",
      [L + "parsers/XfstCompiler.cc", L + "parsers/xfst-parser.yy", L + "parsers/xfst-lexer.ll", T + "parsers/hfst-xfst.cc", L + "parsers/XreCompiler.cc", L + "parsers/xre_utils.cc"],
      [("commands", L + "parsers/XfstCompiler.cc"), ("grammar and sourced files", L + "parsers/xfst-parser.yy")],
      ["save stack and save defined after every command", "what print, test and apply write", "exit status"]),
    P("C16", "The compilers' languages mean what their definitions say",
      "Every source in the regular expression, lexc, twolc, SFST and pmatch languages denotes the relation that the definition of its language gives it.",
      ["inputs", "programs"],
      "all sources of each language",
      "Tests sample a few expressions per operator.",
      [L + "parsers/xre_parse.yy", L + "parsers/lexc-parser.yy", L + "parsers/pmatch_parse.yy", L + "parsers/HfstXeroxRules.cc"],
      [("translation of each construct to operations", L + "parsers/xre_parse.yy")],
      ["the compiled transducers"]),
    P("C17", "The Python bindings give the results of the library",
      "Every operation called through the Python package gives the result the C++ library gives for the same arguments.",
      ["inputs", "programs"],
      "all programs that use the bindings",
      "Tests call a part of the interface once.",
      ["python/libhfst.i", "python/hfst/__init__.py"],
      [("SWIG wrappers", "python/libhfst.i")],
      ["results of the Python functions"]),
]

CHECKS = {
    "C13": "seeded simulation of hfst-proc and hfst-tokenize over texts delivered in pieces, with read errors; reference: an executable model of the segmentation, and the text itself",
    "C09": "seeded simulation of histories of compilations by several compiler objects in one process, with damaged sources and failing opens and reads, compared with a fresh process that compiles only this source; and of the compiling tools with a source that becomes unreadable at a random point",
    "C10": "seeded simulation of command histories in hfst-xfst with failing files, failing commands, crashes and a recovering second session; reference: an executable model of the stack machine over sim/algebra.py",
    "C12": "seeded simulation of writers and readers of text over simulated files and pipes with damage, split reads and read errors; reference: the model of the transducers",
    "C15": "seeded simulation of each command in two simulated environments that differ in everything except the input; invariant: the same bytes",
    "C06": "seeded simulation of lookups with cut-offs under a simulated clock (ticking, frozen, jumping); reference: the lookup without a cut-off and the path model",
    "C08": "seeded simulation with all random numbers and clock readings chosen by the simulator; reference: the path model of the transducer",
    "C11": "seeded simulation of operation histories with failing operations, saves, crashes and reloads; reference: an executable relational algebra (sim/algebra.py)",
    "C14": "seeded simulation of pipelines of tool processes with scheduled pipes, killed tools and failing reads; reference: an executable relational algebra (sim/algebra.py)",
    "C05": "seeded simulation of the tools with a partner process that delivers requests in pieces; invariant checked whenever the tool waits for input",
    "C07": "seeded simulation of lookup histories in one process; reference: the same lookup in a fresh process, and the path model of the transducer",
    "C01": "seeded simulation of writer and reader processes over simulated files and pipes; reference: the model of what was written",
    "C02": "seeded simulation with writer crashes, torn writes, truncation, full disk and read errors; reference: the boundaries of the fault-free stream",
    "C03": "seeded simulation of every tool with failing, short and refused writes, failing close and open, full disk and vanished readers; reference: the output of the fault-free run",
    "C04": "seeded simulation of the lookup tools over split, interrupted and failing input; reference: the answers to single lines and the path model of the transducer",
}
NA = {
    "C16": "whether one source denotes the relation its language definition says is a function of that source alone: no schedule, clock, I/O, fault or history takes part, so there is nothing for a simulator to decide; "
           "the histories and faults around compilation are decided under C09 and C10",
    "C17": "each function of the bindings is a synchronous wrapper around one library call in the same thread: it adds no schedule, time, I/O or history that a simulator could decide, and the library calls behind it are decided under the other properties",
}
PENDING = {}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    ids = [p["id"] for p in PROPS]
    m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CHECKS:
            m["checks"].append({"property": i, "quick_cmd": "python3 sim/run.py %s" % i,
                                "thorough_cmd": "VERIF_TIER=thorough python3 sim/run.py %s" % i,
                                "technique": "deterministic simulation with fault injection: " + CHECKS[i], "level": "exploration",
                                "level_note": "Every run is real HFST code under the simulator; a clean batch is evidence over the sampled inputs, "
                                              "schedules and faults, not a proof. Trusts the simulated file system, pipes and clock, the reference "
                                              "model in sim/, and libc/libstdc++ buffering above the simulated calls."})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i) or PENDING[i]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
