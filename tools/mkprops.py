import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[o.strip() for o in observe.split(",")]}
    if state: a["state"]=[{"name":n,"where":w} for n,w in state]
    if hook: a["hook_needed"]="a guarded way to set the sort memory budget (default 500 MB) so that runs spill"
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
BINS="src/bin/cdx"
p("P01","Results do not depend on how the input bytes arrive",
"For every command, what is written to standard output and to output files, and the exit status, depend only on the arguments and the input bytes. They do not depend on how the operating system splits those bytes into reads (short reads down to one byte, interrupted reads), nor on whether the same bytes come from a named file, from standard input or from an inline '<<text' argument.",
["schedules","inputs","fault_sequences"],"every command, every input, every sequence of read sizes and interruptions, every source kind",
"Tests feed small regular files that arrive in one read; the short-read schedules of pipes, terminals and network file systems are never sampled.",
["src/util.rs","src/sort.rs",BINS+"/cat_main.rs",BINS+"/sort_main.rs"],
[("source selection and format sniffing","src/util.rs get_reader, TextFileMode::read_header"),("line assembly","src/util.rs TextFileMode::read_line, Reader::getline"),("raw copying","src/util.rs copy, src/sort.rs Sorter::add, src/bin/cdx/cat_main.rs")],
"bytes on standard output and in output files, exit status")
p("P02","Gzip input is transparent, and damaged gzip is never accepted",
"Any text input may be replaced by a gzip encoding of it (any compression level, any split into concatenated members, any optional header fields, under any name) and every stream-reading command then gives exactly the same output and status, however the compressed bytes are delivered. If the compressed bytes are truncated inside a member or corrupted, a command that reads its input to the end either still produces exactly the correct output or exits with a failure status; it never exits successfully with missing or altered data.",
["inputs","schedules","fault_sequences"],"every input, every gzip encoding of it, every delivery schedule, every truncation point and corrupted byte",
"Tests contain one or two well-formed single-member gzip files read in one piece; truncation, bit rot, member boundaries and delivery boundaries are a product space.",
["src/util.rs"],[("gzip detection and decoding","src/util.rs get_reader"),("line assembly over the decoder","src/util.rs Reader")],
"bytes on standard output, exit status")
p("P03","A failing input is never mistaken for the end of the data",
"If opening, reading or memory-mapping any input that a command consumes fails at any point with an error (other than an interruption, which is retried), the command exits with a failure status and prints a diagnostic; it never treats the failure as end of file or as an empty or skipped file. Whatever it had already written to standard output is an exact prefix of the output it would have produced without the failure.",
["fault_sequences","inputs"],"every command, every input file or stream, every failure point (open, each read, map) and every error kind",
"Tests can only provoke missing files; errors in the middle of a stream need an injected fault at every byte position of every input.",
["src/util.rs","src/sort.rs","src/binsearch.rs","src/matcher.rs",BINS],
[("error propagation from reads","src/util.rs get_reader, TextFileMode::read_line, read_header, copy"),("sort input","src/sort.rs Sorter::add, add_file"),("memory map","src/binsearch.rs MemMap::new"),("pattern files","src/matcher.rs load_hashset")],
"exit status, standard error, standard output prefix")
p("P04","Success means every byte of output was written",
"If a command exits with success, every byte of its result has been accepted by standard output and by every output file it was asked to write, even when the destination accepts writes only partially or interrupts them. If any write of the result fails (disk full, I/O error, quota), at any byte, including the last buffered bytes at exit, the command exits with a failure status and prints a diagnostic.",
["fault_sequences","inputs"],"every command, every output destination, every byte at which a write can fail, be short or be interrupted",
"Tests compare output on a healthy pipe; a failing final flush is invisible without injecting the failure.",
["src/util.rs","src/join.rs","src/transpose.rs","src/column.rs",BINS],
[("output construction","src/util.rs get_writer, Outfile"),("per-command output loops and final flush","src/bin/cdx/*_main.rs"),("secondary outputs","src/join.rs Joiner"),("exit status","src/bin/cdx/main.rs")],
"exit status, standard error, bytes accepted by each destination")
p("P05","A reader that goes away is a quiet, prompt success",
"When whoever reads a data-processing command's standard output closes it early, at any byte, the command ends with success status and prints nothing on standard error because of it. It stops consuming further input promptly (within a fixed amount of read-ahead) instead of processing the rest of the input, and what the reader received is an exact prefix of the full output.",
["fault_sequences","inputs"],"every record-processing command, every byte of output at which the reader can disappear",
"Depends on which buffered write meets the closed pipe; a shell test of '| head' samples one timing.",
["src/util.rs",BINS+"/main.rs",BINS+"/tabs_main.rs",BINS],
[("error classification","src/util.rs suppress"),("exit status","src/bin/cdx/main.rs main"),("write loops","src/bin/cdx/*_main.rs")],
"exit status, standard error, reads after the close")
p("P06","External sort equals in-memory sort for every memory budget",
"Sorting files gives the same bytes whatever the memory budget, and therefore however many temporary runs are spilled and merged, and however the input is fragmented: one header if there is one, then every input line exactly once, ordered by the requested keys, lines with equal keys in input order. With unique output exactly one line, the first, is kept per distinct key, and no line is lost, duplicated, spliced or altered.",
["configurations","inputs","schedules"],"every input, key specification, memory budget and read fragmentation",
"The budget is fixed at 500 MB, so no test ever spills a run; the spill, run-boundary and merge code is reached only by inputs no test contains.",
["src/sort.rs","src/comp.rs"],
[("run filling and spilling","src/sort.rs Sorter::add, add_data, write_tmp"),("final merge","src/sort.rs merge_t, merge_t1, merge_t2"),("cached comparison vs column comparison","src/comp.rs Item, comp_items, comp_cols")],
"bytes on standard output compared with a reference sort",state=[("in-memory block and line pointers","src/sort.rs Sorter"),("list of spilled run files","src/sort.rs Sorter")],hook=True)
p("P07","Merging sorted files equals sorting their union",
"Merging already sorted files, with either merge algorithm, yields the header once followed by every line of every input exactly once in key order, lines with equal keys in the order of the files, and with unique output exactly one line, the first, per distinct key. The result does not depend on how reads from the different inputs are fragmented or on the number of inputs.",
["inputs","schedules","configurations"],"every set of sorted inputs (including empty, header-only and unterminated ones), key, algorithm and read schedule",
"Interleavings of many inputs with ties, empties and exhausted files are not sampled by two-file tests.",
["src/sort.rs",BINS+"/sort_main.rs"],
[("heap merge","src/sort.rs merge_t2"),("tree merge","src/sort.rs merge_t1, MergeTreeItem::next")],
"bytes on standard output compared with a reference merge")
p("P08","Temporary storage never leaks and never corrupts",
"Commands that use temporary storage remove everything they created there before they end, whether they succeed or fail, unless the process is killed. If temporary storage fails in any way (creation, full disk, short or failed write, failed re-open or read-back), the command exits with a failure status and never succeeds with a wrong or incomplete result.",
["fault_sequences","configurations","inputs"],"every command that spills or stages temporary files, every temporary-storage operation and failure kind",
"Needs a fault at each temporary-file operation of a multi-run sort; tests never spill and have no fault seam.",
["src/sort.rs","src/tooltest.rs"],
[("temporary directory lifetime","src/sort.rs Sorter, SortConfig::merge; src/tooltest.rs Config"),("run writing","src/sort.rs write_tmp"),("run reading","src/sort.rs merge_t1, merge_t2")],
"contents of the temporary directory after exit, exit status, standard output",hook=True)
p("P09","Inputs are never modified and nothing unnamed is written",
"No command ever creates, changes, truncates, renames or removes any file other than the output files named on its command line and its own private temporary files, on success, on failure and at any instant in between. In particular every input file keeps its exact bytes.",
["inputs","fault_sequences","crash_points"],"every command, every fault sequence and every point at which the process may be stopped",
"Tests look at output, not at the surrounding file system, and never at intermediate instants.",
["src/util.rs","src/sort.rs","src/join.rs","src/tooltest.rs","src/binsearch.rs"],
[("opening inputs","src/util.rs get_reader; src/binsearch.rs MemMap::new"),("opening outputs","src/util.rs get_writer"),("deletion","src/tooltest.rs delete_file, nuke")],
"file system operations issued, directory snapshot before and after")
p("P10","Earlier, failed or killed runs never affect a later run",
"Running a command leaves its outputs exactly as a first run on a clean directory would, whatever earlier runs of the same or other commands left behind: longer, shorter or partial output files, or temporary leftovers of runs killed at any instant. A re-run after a crash therefore repairs every output file.",
["histories","crash_points"],"every sequence of completed, failed and killed runs over the same output and temporary locations",
"A property of histories: the failing step is the second or later run over left-over state.",
["src/util.rs","src/join.rs","src/tooltest.rs","src/sort.rs"],
[("output opening","src/util.rs get_writer"),("secondary outputs","src/join.rs Joiner::join")],
"contents of output files and standard output after the last run of each history")
p("P11","The test runner's verdict is exact and history-independent",
"With its default private temporary directory, a test case counts as passed exactly when the command ran, its exit status, standard output, standard error and declared output files are as specified, and it left no undeclared files behind; death by signal, failure to start and any mismatch count as failed. The totals reported and the overall exit status agree with these verdicts. A verdict never depends on how the command's output is chunked or interleaved, nor on what the other test cases in the same invocation did.",
["schedules","histories","inputs"],"every sequence of test cases, every behaviour of the commands under test and every delivery of their output",
"The runner is what runs the tests; nothing tests it on failing, crashing, littering or slow commands.",
["src/tooltest.rs",BINS+"/tooltest_main.rs"],
[("verdict","src/tooltest.rs Test::run"),("cleanup between cases","src/tooltest.rs nuke, delete_file"),("totals","src/tooltest.rs Config::run, report")],
"final summary line, exit status")
p("P12","The calculator answers each line before waiting for the next",
"When expressions arrive on a stream over time, the result of every complete line received so far has been written out before the calculator waits for more input, and results appear in input order, one per valid line, each the value that arithmetic with the usual precedence gives that line alone. An invalid line produces a diagnostic and no result and does not stop later lines from being evaluated.",
["schedules","inputs"],"every sequence of expression lines and every way they arrive",
"The order of reads and writes is not visible in the final output that tests compare.",
[BINS+"/calc_main.rs","src/util.rs","src/expr.rs","src/shunting_yard.rs","src/tok2.rs"],
[("evaluation loop and flush","src/bin/cdx/calc_main.rs main"),("reading ahead","src/util.rs get_reader, Reader::getline"),("expressions","src/tok2.rs tokenize, src/shunting_yard.rs to_rpn, src/expr.rs Expr")],
"ordering of read and write events, values printed")
p("P13","Results are repeatable under every random seed, clock and terminal",
"Apart from commands asked for random data, output and status are identical for every value of the system's random source, hash seeds, clock (including jumps backwards), process id and, where the layout of the output is not fitted to it, terminal size. Commands asked for random data always produce exactly the requested shape: the requested number of lines, columns and header for every generator, and a permutation of the input lines for a random sort order.",
["configurations","inputs"],"every random stream, clock history and process identity, for every command",
"A test process sees one random stream per run; order-dependent defects show up only for some seeds.",
["src/textgen.rs","src/comp.rs","src/matcher.rs","src/column.rs","src/agg.rs",BINS+"/filegen_main.rs"],
[("generators","src/textgen.rs GenList::write and generators"),("random comparator","src/comp.rs CompareRandom"),("hash containers","src/matcher.rs load_hashset; src/column.rs")],
"bytes on standard output, exit status")
p("P14","Reading an S3 object yields exactly its bytes or a failure",
"A command reading an s3:// object behaves exactly as if the object's bytes were in a local file, however the response is chunked, delayed or retried. If the object cannot be fetched completely (connection refused or reset, error response, truncated or stalled body), the command exits with a failure status and never succeeds with missing or altered data.",
["schedules","fault_sequences","inputs"],"every object, every chunking and delay of the response, every network failure point",
"There is no network in the tests and no way to place a failure inside a response.",
["src/util.rs"],[("S3 stream adapter","src/util.rs S3Reader::new, S3Reader::read"),("source selection","src/util.rs get_reader")],
"bytes on standard output, exit status")
p("P15","Streaming commands account for every record exactly once",
"Over any number of input files, concatenation, selection, column cutting, pasting, merging of duplicates, joining, sampling and counting account for each data line of each file exactly once and in order, with at most one header line in the output. Selection and its inverse partition the lines, duplicate counts sum to the number of lines, every line of the first join input is joined once or unmatched, samples by line number are exactly the lines asked for, and lines of adjacent files are never spliced together, dropped or repeated, however the files are delivered.",
["inputs","schedules","configurations"],"every list of files (empty, header-only, unterminated, large) and every read schedule",
"Bugs sit at file boundaries and buffer boundaries; tests use one or two tiny files with a final newline.",
[BINS+"/cat_main.rs",BINS+"/cgrep_main.rs",BINS+"/cut_main.rs",BINS+"/paste_main.rs",BINS+"/uniq_main.rs",BINS+"/wc_main.rs",BINS+"/sample_main.rs","src/join.rs","src/util.rs"],
[("file loops","src/bin/cdx/*_main.rs"),("header handling","src/util.rs HeaderChecker, InfileContext::read_header"),("line reader","src/util.rs Reader")],
"bytes on standard output compared with a small reference model")
p("P16","Every command terminates, in work bounded by its input",
"On finite input every command ends by itself, after a number of input and output operations bounded by a small multiple of the bytes read and written, whatever errors, interruptions and short transfers occur along the way. It never hangs, spins on a persistent error, or dies from a signal of its own making.",
["fault_sequences","schedules","inputs"],"every command, input and fault sequence, including errors that persist forever",
"Retry loops and loops that only end on a particular byte count are exposed by persistent or oddly sized results that never occur in tests.",
["src/util.rs","src/sort.rs","src/binsearch.rs","src/join.rs",BINS],
[("read loops","src/util.rs read_line, copy; src/sort.rs Sorter::add"),("search loops","src/binsearch.rs lower_bound_n, upper_bound_n"),("merge loops","src/sort.rs merge_t1, merge_t2; src/join.rs join_quick")],
"operation count, process end state")
p("P17","Line filters stream: output keeps up with input and stops early",
"Concatenation, selection, column cutting, duplicate merging, pasting and joining deliver output while input is still arriving: at any instant all output determined by the input received so far has been written, except for a fixed amount of buffering. Commands asked for a leading range of lines, or stopped by a short file, read only a fixed amount beyond the last line they need.",
["schedules","inputs"],"every input stream, including unbounded ones, and every arrival schedule",
"Only the order of reads and writes shows it; final output is the same.",
[BINS+"/cat_main.rs",BINS+"/cgrep_main.rs",BINS+"/cut_main.rs",BINS+"/uniq_main.rs",BINS+"/paste_main.rs",BINS+"/sample_main.rs","src/join.rs","src/transpose.rs","src/util.rs"],
[("per-line loops","src/bin/cdx/*_main.rs"),("buffered reader and writer","src/util.rs get_reader, get_writer")],
"ordering and sizes of read and write events")
p("P18","Concurrent runs sharing a temporary directory do not interfere",
"Any number of commands running at the same time with the same temporary directory and the same input files each produce exactly the result they produce alone, whatever the interleaving of their file operations. None of them removes or overwrites temporary files of another.",
["schedules","crash_points"],"every interleaving of the file operations of two or more processes, including one being killed",
"A test cannot choose the interleaving of two processes' system calls.",
["src/sort.rs","src/tooltest.rs","src/util.rs"],
[("temporary naming","src/sort.rs Sorter::new, write_tmp, SortConfig::merge; src/tooltest.rs Config::new")],
"standard output and exit status of each process, contents of the temporary directory",hook=True)
# pure functions: listed, not claimed
p("P19","Binary search finds exactly the matching lines of sorted files",
"On files sorted by the given keys (any comparison method, any key columns), binary search prints the header at most once and then, file by file, exactly the lines whose keys equal the pattern plus the requested lines of context, whatever the size of the files: empty, only a header, blank lines, no final newline, exactly filling a page. It prints the same bytes however its output is accepted, and a file that cannot be opened or mapped makes it fail instead of being skipped.",
["inputs","fault_sequences"],"every set of sorted files, key, pattern, context and failure of open, map and write","Boundaries of a logarithmic search over mapped storage, and failures of the mapping, are a product space of file layouts and patterns.",
["src/binsearch.rs",BINS+"/binsearch_main.rs","src/comp.rs"],[("search","src/binsearch.rs equal_range_n, lower_bound_n, upper_bound_n"),("mapping and header","src/binsearch.rs MemMap::new"),("context","src/binsearch.rs find_prev, find_end; src/bin/cdx/binsearch_main.rs")],"standard output, exit status")
p("P20","Verification and sortedness checks give the right verdict",
"File verification and the sortedness check succeed exactly when every line of every input satisfies every stated condition: sorted or strictly sorted by the keys, right number of columns, all patterns, conditions on the first and last line. One offending line anywhere, including the last line of the last file, means failure with a diagnostic. The verdict does not depend on how the input is delivered, and an input that cannot be read completely is never declared good.",
["inputs","schedules","fault_sequences"],"every file, condition, position of an offending line, delivery schedule and read failure","Needs every position of a violation, including the first and last line, and every read failure.",
[BINS+"/verify_main.rs",BINS+"/sort_main.rs","src/comp.rs","src/util.rs"],[("conditions","src/bin/cdx/verify_main.rs; src/util.rs CheckLine"),("order of adjacent lines","src/comp.rs comp_check; src/util.rs Reader::prev_line")],"exit status, standard error")
p("P21","Files with different headers are never mixed",
"Whatever files are combined (concatenated, numbered, selected from, cut, sampled, sorted, merged, searched), the header appears first and exactly once, over data that is exactly what the same files give without their headers; empty files do not matter, and a data line is never taken for a header. A file whose header differs from that of the first file, or that is alone in having or lacking one, makes the command fail with a diagnostic, and what was written before that comes only from the files before it.",
["inputs","schedules","configurations"],"every list of files with equal, different, missing or lonely headers, every header mode and every delivery schedule","Header handling happens once per file and per command; tests combine one or two well-behaved files.",
["src/util.rs","src/sort.rs",BINS+"/cat_main.rs",BINS+"/cut_main.rs",BINS+"/cgrep_main.rs",BINS+"/sample_main.rs",BINS+"/binsearch_main.rs"],[("comparison of headers","src/util.rs HeaderChecker"),("header of merged output","src/sort.rs SortConfig::merge_t1, merge_t2"),("file loops","src/bin/cdx/*_main.rs")],"standard output, exit status, standard error")
p("P22","Every failure is reported, never a crash",
"Bad arguments, damaged input, failing system calls and odd terminals end a command with exit status 1 or 2 and a message, or do not matter; never in a panic, an abort, a signal or an endless run.",
["inputs","fault_sequences","configurations"],"every command line, input and fault sequence","The paths that only run on bad input or failing calls are exactly those tests do not take.",
["src/util.rs","src/column.rs","src/text.rs","src/agg.rs","src/comp.rs","src/sort.rs",BINS],[("argument parsing","src/column.rs, src/comp.rs, src/matcher.rs, src/agg.rs"),("error paths","src/util.rs, src/sort.rs, src/bin/cdx/*_main.rs")],"exit status, standard error")
p("P23","Text formats: values survive reading and writing in any format",
"Whatever the delimiter, header mode and quoting (plain, quotes, backslashes) of the input and output formats, commands that rearrange columns write records from which a reader of the output format gets exactly the values of the input records (plain output replaces delimiters and newlines inside values by the replacement character), commands that select lines write them exactly as they were read, and keys and patterns apply to the values, not to their encoding. Records spanning several lines are never torn apart however the input is delivered, and header, data and totals use the same delimiter.",
["inputs","schedules","configurations"],"every table, pair of formats and delivery schedule","Values with embedded delimiters, newlines, quotes and backslashes at every buffer boundary are a product space; tests have one line of each kind.",
["src/util.rs","src/column.rs",BINS],[("reading records and columns","src/util.rs TextFileMode::read_line, split, split_quotes, split_backslash"),("writing columns","src/util.rs TextFileMode::write, write_quotes, write_backslash, write_plain; src/column.rs Writer"),("original line","src/util.rs TextLine::line, Reader::write_curr")],"bytes on standard output")
p("P24","Every cell lands in its place: transposed, displayed and generated tables",
"Transposing turns column i of the header and of the lines (at most as many as asked for) into line i of the output, so that transposing a rectangular table twice gives it back. Displaying shows the leading lines of each file that fit the terminal, whatever its size, in aligned columns, each value whole unless the width forces it to be cut, and generated tables have exactly the requested lines and columns, each cell as its generator describes it for that line and column. None of this depends on how the input is delivered or the output accepted.",
["inputs","schedules","configurations"],"every table, terminal size, generator list and delivery schedule","Tests hold one small table and one terminal; the layout depends on sizes of terminal, columns and files that they do not vary.",
["src/transpose.rs","src/tabs.rs","src/textgen.rs",BINS+"/transpose_main.rs",BINS+"/tabs_main.rs",BINS+"/filegen_main.rs"],[("transposing","src/transpose.rs transpose"),("fitting to the terminal","src/tabs.rs Rect::from_screen, show2; src/bin/cdx/tabs_main.rs main"),("generating","src/textgen.rs GenList::write and generators")],"bytes on standard output")
p("P50","Comparison methods are consistent total orders",
"Every built-in comparison method (plain, lower case, numeric, floating point, length, address, expression, reversed) is a total preorder, and its equality test agrees with its ordering.",
["inputs"],"every pair and triple of byte strings","Needs universally quantified inputs; tests use a handful of literals.",
["src/comp.rs"],[("comparators","src/comp.rs Compare implementations")],"library calls")
p("P52","Column specifications select exactly the described columns",
"A column specification (names, numbers, ranges, wildcards, exclusions, transforms) selects exactly the columns it describes, in order, or is rejected.",
["inputs"],"every specification and header","Combinatorial specification space.",
["src/column.rs"],[("column sets","src/column.rs ColumnSet")],"library calls")
p("P53","Numbers are read and formatted accurately",
"Every decimal number is read as the nearest floating point value, the special functions are accurate, and formatted numbers parse back to the same value within the format's precision.",
["inputs"],"every number, format and function","Numeric input space.",
["src/expr.rs","src/shunting_yard.rs","src/tok2.rs","src/num.rs"],[("evaluation","src/expr.rs calc"),("formatting","src/num.rs NumFormat")],"library calls")
p("P55","Matchers, aggregators and transforms compute their definitions",
"Each pattern matcher, aggregator, counter and transform computes its documented function for every value.",
["inputs"],"every method, modifier combination and value","Large method by modifier by input space.",
["src/matcher.rs","src/agg.rs","src/trans.rs"],[("matchers","src/matcher.rs"),("aggregators","src/agg.rs"),("transforms","src/trans.rs")],"library calls")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
