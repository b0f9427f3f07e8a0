#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=s, meaning=s, where=files[0]) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed="ED_VERIF state record emitted between commands" if hook else None)))

p("P01", "No input makes the editor touch memory it does not own or invoke UB",
  "Whatever commands, text, file contents, file names, options or environment the user supplies, the editor never reads or writes outside live objects, uses freed or uninitialised memory, divides by zero, or dies from a fatal signal. It ends only through its own quit/exit paths.",
  ["inputs", "histories"], "every command stream, file content, option set and environment; every sequence of commands in one session",
  "A crash needs a particular byte, length or command order (freed regex reused by a later command, an offset past a line end, a stack overrun); 152 sampled scripts exercise none of them and run without any instrumentation.",
  ["src/*.c", "lib/reg*.c"], ["static buffers of every command", "regex objects", "line/undo/global nodes"],
  [("realloc_buffer growth discipline", "src/buf.c"), ("regex ownership", "src/re.c"), ("substitution buffers", "src/sub.c")],
  ["process exit status", "sanitizer report"], False)

p("P02", "Line commands yield exactly the specified text and current line",
  "After any sequence of append, insert, change, delete, join, move, copy, read and mark commands, the buffer holds exactly the lines the documented meaning of each command prescribes, byte for byte and in order, and the current line is the one prescribed. Nothing else in the buffer changes.",
  ["histories", "inputs"], "all sequences of line-editing commands over all buffers, address pairs, line contents and lengths",
  "Results depend on the whole edit history (line cache, address edge cases at 0 and $, moves onto neighbours, long lines crossing I/O blocks); tests check a few short fixed scripts by final text only.",
  ["src/cmds.c", "src/exec.c", "src/buf.c"], ["line list", "dot", "line count", "temporary text file"],
  [("append/copy/delete/join/move", "src/cmds.c"), ("get_line_node cursor cache", "src/buf.c:get_line_node"), ("put/get_buffer_line", "src/buf.c")],
  ["state record after every command", "standard output", "written file"], True)

p("P03", "Every address expression designates exactly the line it should",
  "Numbers, '.', '$', marks, +/-/^ offsets, bare and repeated offsets, forward and backward searches with wrap-around, the separators ',' ';' '%' and the documented one-line rollover resolve to exactly the specified line or range, defaults included, and a range out of bounds or reversed is refused. A search finds the first matching line in its direction, wrapping past the end, and the empty pattern reuses the last one.",
  ["inputs", "histories"], "all address expressions over all buffers, current lines, marks and previous patterns",
  "The grammar composes freely and interacts with dot, marks and the remembered pattern; tests try about two dozen combinations on one file.",
  ["src/parse.c", "src/re.c", "src/exec.c"], ["dot", "marks", "remembered search pattern"],
  [("address_range/next_address/address_offset", "src/parse.c"), ("get_matching_node_address", "src/re.c"), ("is_valid_range", "src/exec.c")],
  ["output of = p n commands", "state record after every command"], True)

p("P04", "Undo restores exactly the state before the last change, and undoes itself",
  "After any command that changes the buffer, including a whole global command, undo brings back exactly the previous text, line order and current line, with marks on lines that come back valid again; a second undo restores exactly the changed state. This holds after any history of edits and undos, and a command that changed nothing or failed leaves nothing spurious to undo.",
  ["histories"], "every history of editing, global, register, filter and undo commands",
  "Undo replays linked inverse operations whose correctness depends on the order of add/delete/move records made by the preceding command; tests cover single undo after a few commands.",
  ["src/undo.c", "src/cmds.c", "src/glbl.c"], ["undo queue", "saved buffer state"],
  [("undo_last_command", "src/undo.c"), ("append_undo_node", "src/undo.c"), ("reset_undo_queue", "src/undo.c")],
  ["state record before and after u"], True)

p("P05", "Global commands act once on each marked line and only on those",
  "g and v run their command list exactly once, in order, on every line of the range that matched (or did not match) when the command began and that has not since been deleted, moved or replaced, with the current line set to it; lines added meanwhile are not visited. G and V do the same interactively, multi-line command lists included, the whole is one undo unit, and nesting is refused.",
  ["histories", "inputs"], "all patterns, ranges, command lists (including ones that delete, move, join, substitute, read and append lines) and buffers",
  "Which lines are still pending changes while the command list itself deletes, moves and splits lines; the handful of test scripts cannot sample that interplay.",
  ["src/glbl.c", "src/exec.c"], ["queue of marked lines", "dot"],
  [("mark_global_nodes/exec_global", "src/glbl.c"), ("delete_global_nodes", "src/glbl.c")],
  ["state record after the command", "standard output"], True)

p("P06", "Substitution replaces exactly the selected matches with the expanded text",
  "s replaces on every addressed line exactly the requested non-overlapping leftmost matches (first, N-th, all, from N-th on, every N-th, counted from the last), expands & and back-references, case conversions, escapes, newlines and the repeated-replacement %, and leaves every other byte unchanged; repeated forms (s, sg, sp, sr, sN) re-apply the last substitution as documented. With no match on any line it reports an error and changes nothing.",
  ["inputs", "histories"], "all patterns, replacement templates, modifiers, lines (empty, long, NUL or 8-bit bytes) and preceding searches/substitutions",
  "The result depends on empty-match rules, match counting, template parsing and remembered state from earlier commands; the tests fix about a dozen of the combinations.",
  ["src/sub.c", "src/re.c"], ["remembered pattern, template and modifiers"],
  [("substitute_matching/count_matches", "src/sub.c"), ("apply_subst_template", "src/sub.c"), ("resubstitute", "src/sub.c"), ("get_compiled_regex", "src/re.c")],
  ["state record after the command", "standard output"], True)

p("P07", "Reading and writing a file preserve its bytes exactly",
  "Editing a file and writing it back without change reproduces it byte for byte - any size, line length, NUL, 8-bit or UTF-8 content - except that a missing final newline is added to a text file; a file with NUL bytes and no final newline keeps having none. Reads and (partial, appending) writes transfer exactly the addressed lines and report exactly the number of bytes transferred.",
  ["inputs", "histories"], "all file contents, sizes and line lengths, ranges, and sequences of r, e, w, W commands on the same or different files",
  "Faults hide at buffer-size boundaries, NUL handling, empty files, a missing last newline and repeated access to one open file; tests read small fixed text files.",
  ["src/io.c", "src/buf.c", "src/exec.c"], ["temporary text file", "newline_appended/is_binary flags", "cached open file"],
  [("read_stream/get_stream_line", "src/io.c"), ("write_stream/write_file", "src/io.c")],
  ["bytes of files written", "printed byte counts"], True)

p("P08", "A write is reported successful only when the data reached the file",
  "When writing fails or is incomplete at any point - no space, size limit, unwritable or vanished target, I/O error - the editor reports an error, keeps the buffer intact and still marked as modified so that quitting warns. When it prints a byte count and clears the modified mark, the target really contains exactly those lines.",
  ["fault_sequences", "inputs"], "every failing call and every amount of space left during a write, for named, default, appended and repeated targets",
  "The failing moment is usually the final flush of buffered data, which no test provokes.",
  ["src/io.c", "src/exec.c"], ["modified flag", "cached open file"],
  [("write_stream/put_stream_line", "src/io.c"), ("write_file", "src/io.c"), ("w_cmd modified handling", "src/exec.c:w_cmd")],
  ["reported status and byte count versus bytes of the target", "state record (modified flag)"], True)

p("P09", "Unsaved changes are never discarded without a warning or explicit force",
  "Whenever the buffer text differs from what was last read or wholly written because of the user's commands, q, e, end of input and the file-list moves refuse once with a warning before discarding it (unless scripted with -s); an immediately repeated request or Q/E proceeds. Undo, partial or failed writes, globals, registers and filters never lose that mark.",
  ["histories"], "every history of editing, undo, write, read and quit commands",
  "Whether a change is still pending depends on the order of edits, undos, partial writes and failures; the suite runs with -s, where the check is off.",
  ["src/exec.c", "src/main.c", "src/undo.c"], ["modified flag", "saved undo state"],
  [("is_modified updates", "src/cmds.c, src/exec.c, src/undo.c"), ("EMOD handling", "src/main.c")],
  ["reaction to q/e/EOF", "state record (modified flag)"], True)

p("P10", "A refused or failed command changes nothing and is reported",
  "A command with a bad address, suffix, pattern, delimiter, file name or destination prints '?', leaves text, line order and marks as they were, and the next command runs normally; with a regular-file script the editor stops with a non-zero status, from a pipe it continues. h and H explain the most recent error, and the exit status is zero only if no error occurred since a status-resetting success.",
  ["inputs", "histories"], "all invalid commands in all states, from piped, regular-file and interactive-style input",
  "The error tests only look at the printed '?' of about fifty fixed commands, not at the state left behind or at later commands.",
  ["src/exec.c", "src/parse.c", "src/main.c"], ["buffer text", "dot", "exit status", "last error"],
  [("COMMAND_SUFFIX/is_valid_range", "src/exec.c"), ("error branch of the main loop", "src/main.c")],
  ["state record before and after", "standard output", "exit status"], True)

p("P11", "Registers hold exactly the lines put into them",
  "Moving, copying or appending lines to one of the eleven registers and pasting them back yields exactly those lines in order; overwriting replaces, appending adds after, moving out empties the source, and deletion leaves the deleted lines in the unnamed register. Register-to-register transfers keep every line, other registers stay unchanged, and registers survive switching files.",
  ["histories", "inputs"], "all sequences of register reads, writes, appends and transfers mixed with edits, over all line contents",
  "Contents depend on long interleavings across registers and on file positions inside their backing stores; two test scripts touch them.",
  ["src/io.c", "src/exec.c"], ["register backing files"],
  [("append_to_register/append_from_register", "src/io.c"), ("inter_register_copy/move", "src/io.c")],
  ["state record after pasting"], True)

p("P12", "Running a register as a macro equals typing its lines",
  "Executing a register with @ has the same effect on text, current line and output as entering its lines at the addressed line, including input text, globals, substitutions and nested macros, and control then returns to the command after it. An error inside a macro is reported, stops all nested macros and leaves the editor usable; runaway recursion ends with an error.",
  ["programs", "histories"], "all macro bodies, nestings and calling contexts",
  "It depends on input-stream switching at each nesting level and on state left by globals inside the macro; only two fixed macros are tested.",
  ["src/aux.c", "src/exec.c", "src/buf.c"], ["script stack", "standard input position"],
  [("exec_macro", "src/exec.c"), ("push/pop/unwind_stack_frame", "src/aux.c")],
  ["state record and output versus the typed equivalent"], True)

p("P13", "Printed lines show the text faithfully; l is unambiguous",
  "p prints each addressed line's exact bytes, n the same preceded by its line number and a tab, and l an unambiguous form in which every byte can be recovered, with lines folded at the window width and the end marked by $. The last line printed becomes the current line and suffixes combine these forms.",
  ["inputs", "configurations"], "all line contents (control, NUL, 8-bit, valid and invalid UTF-8, long), window widths, locales and command suffixes",
  "Escapes, tab stops, multibyte characters and folding interact with width; tests print plain ASCII.",
  ["src/page.c", "src/utf8.c", "src/exec.c"], ["window size", "UTF-8 flag"],
  [("display_lines", "src/page.c"), ("utf8 decoding", "src/utf8.c")],
  ["standard output"], True)

p("P14", "Scrolling shows every line in order without gaps",
  "z and Z (and half-page ] and [ for lines narrower than the window) print a window of the requested height starting at or ending before the addressed line, consecutive z commands walk the whole buffer showing each line exactly once and in order, and the current line is the last one shown. The requested height is remembered, and reaching either end is reported rather than wrapped silently.",
  ["histories", "configurations"], "all buffer sizes, window heights and widths, starting lines and scroll sequences",
  "Frame arithmetic at the buffer ends, with tiny windows and folded lines, is state-dependent; six fixed scrolls are tested.",
  ["src/page.c", "src/exec.c"], ["frame buffer", "page address", "window size"],
  [("z_cmd/Z_cmd", "src/exec.c"), ("scroll_lines/display_lines", "src/page.c")],
  ["standard output", "state record (dot)"], True)

p("P15", "Restricted mode never runs a shell or leaves the current directory",
  "When started as red, no command, option, argument, environment setting, macro, global or file name form makes the editor run a program or open, create, truncate or read a file outside its starting directory or a non-regular file. Refusals are reported and ordinary local editing keeps working.",
  ["inputs", "programs"], "all commands, prefixes, file-list and glob forms, command-line arguments and ED settings under red",
  "There are many entry points for names and shell commands and one forgotten path is enough; no test runs red at all.",
  ["src/parse.c", "src/main.c", "src/io.c", "src/exec.c"], ["RESTRICTED option"],
  [("checks in file_name/file_glob/expand_shell_command", "src/parse.c"), ("get_inode regular-file check", "src/io.c")],
  ["trace of executed programs and opened paths", "files outside the directory"], True)

p("P16", "Shell commands receive exactly the documented command line and data",
  "! runs exactly the given command with % replaced by the file name (\\% literal) and !! by the previous command; r ! inserts exactly its output, w ! feeds it exactly the addressed lines, and a range before ! replaces exactly those lines with the command's output. Everything outside that range is unchanged, standard input is left at the next command line, and the expanded command is echoed when it was changed by expansion.",
  ["inputs", "histories"], "all commands, ranges, output shapes (empty, no final newline, NUL, large) and sequences of !!",
  "Filtering runs two processes against the live buffer and depends on data volume and on earlier commands; the suite filters a few short lines.",
  ["src/aux.c", "src/parse.c", "src/io.c", "src/cmds.c"], ["previous shell command", "pipes", "buffer file position"],
  [("filter_lines/read_stream_r", "src/aux.c, src/io.c"), ("expand_shell_command", "src/parse.c"), ("system_shell", "src/cmds.c")],
  ["arguments and input recorded by the invoked command", "state record", "standard output"], True)

p("P17", "Options, arguments and script flags have exactly their documented effect",
  "-e/-f scripts act as if typed in the order given, -i writes the file at the end (keeping a backup under the suffix) only when the script completes, -s/-v/-p/-E/-G/POSIXLY_CORRECT and the ED variable change only what they document, +N, +/RE and +?RE set the initial current line, and several file arguments form the file list. An unusable option or argument is diagnosed with a non-zero status.",
  ["configurations", "inputs"], "all combinations of options, ED contents, address arguments, script sources and file arguments",
  "Option interaction (ED plus command line, several scripts, in-place plus errors) is combinatorial; ten fixed invocations are tested.",
  ["src/main.c", "src/buf.c"], ["option flags", "script buffer", "file list"],
  [("argument and ED parsing", "src/main.c"), ("append_script_expression/append_script_file", "src/main.c"), ("next_edit/save_edit", "src/main.c")],
  ["files after exit", "standard output", "exit status"], False)

p("P18", "Scratch files are private, stay in the temporary directory and are removed",
  "All scratch storage for buffer, registers and scripts is created under TMPDIR (default /tmp) with owner-only permission and unpredictable exclusive names, and is gone after every way of leaving the editor: quit, end of input, error exit, hang-up or termination by handled signals. The editor creates, changes or removes no file other than those, the targets the user names, and ed.hup.",
  ["histories", "fault_sequences", "crash_points"], "every session and way of ending, including errors at start-up and handled signals at any point",
  "Leftovers and stray files show only after unusual endings and nobody looks at the directories afterwards in the tests.",
  ["src/buf.c", "src/signal.c", "src/main.c"], ["scratch file names"],
  [("create_disk_buffer", "src/buf.c"), ("quit", "src/buf.c")],
  ["directory listings and modes during and after the session", "trace of created and removed paths"], True)

p("P19", "A hang-up saves the buffer completely before exiting",
  "On SIGHUP with a buffer that is not empty the editor writes the whole current buffer, every line exactly, to ed.hup in the current directory or, if that cannot be written, in the home directory, and exits. If the signal arrives while a command is modifying the buffer, what is saved is a consistent buffer from before or after an elementary step of that command.",
  ["crash_points", "histories"], "a hang-up at any moment of any session, with writable or unwritable current directory",
  "It depends on the instant at which the signal arrives; no test sends a signal.",
  ["src/signal.c", "src/io.c"], ["signal mutex", "buffer"],
  [("signal_hup", "src/signal.c"), ("spl1/spl0", "src/signal.c")],
  ["contents of ed.hup", "exit status"], True)

p("P20", "An interrupt at any moment leaves a consistent, usable buffer",
  "SIGINT stops the current command with '?', and afterwards every line of the buffer is one that belongs there, the line structure is intact, nothing outside the interrupted command's own effect has changed, and later commands (including undo, write and quit) work normally. SIGQUIT is ignored.",
  ["schedules", "crash_points"], "an interrupt at every point of every command, repeated interrupts, and any later commands",
  "Only an interrupt between two particular steps breaks the structure; tests never deliver one.",
  ["src/signal.c", "src/cmds.c", "src/glbl.c", "src/undo.c"], ["line list", "undo and global queues", "signal mutex"],
  [("spl1/spl0 deferral", "src/signal.c"), ("longjmp to the main loop", "src/main.c")],
  ["state record and structural check after the interrupt", "behaviour of later commands"], True)

p("P21", "Running out of memory or scratch space never corrupts what is already there",
  "If an allocation, a scratch-file write, seek or read, a fork or a pipe fails at any moment, the command reports an error and the editor stays usable or exits cleanly; lines that were in the buffer and not addressed by the failing command still have exactly their former text, and nothing crashes.",
  ["fault_sequences"], "a failure of each individual allocation, I/O or process-creation call at each point of any session",
  "Resource failures never happen in the tests and each call site has its own recovery code.",
  ["src/buf.c", "src/io.c", "src/undo.c", "src/glbl.c", "src/aux.c"], ["line list", "undo queue", "scratch file offset"],
  [("error returns of realloc_buffer/append_*_node", "src/buf.c, src/undo.c, src/glbl.c"), ("put_buffer_line failure path", "src/buf.c")],
  ["state record after the fault", "structural check", "sanitizer report"], True)

p("P22", "Encrypted files decrypt back to exactly the original bytes",
  "With a key set, writing and re-reading under the same key (in the same or another session) restores exactly the original bytes for every length and content, the file on disk is not the plaintext, and an empty key turns encryption off. Commands and the rest of the session behave as without a key.",
  ["inputs", "histories"], "all file contents and lengths (every residue modulo the cipher block), keys and partial writes",
  "Errors appear at block boundaries and with high-bit bytes; no test uses encryption since the key is read from the terminal.",
  ["src/cbc.c", "src/io.c"], ["cipher chaining state"],
  [("get_des_char/put_des_char/flush_des_file", "src/cbc.c")],
  ["bytes on disk", "buffer after re-reading"], True)

p("P23", "File-list and globbing commands visit exactly the listed files",
  "~e/~E/~f set the file list to the sorted expansion of the given patterns, ~en/~ep/~fn/~fp/~wn/~wp move by exactly one file forward or backward and refuse past either end, ~w/~W write to exactly the addressed or default file, and ~r/~w refuse patterns matching several files. No listed file other than the current one is ever modified.",
  ["histories", "inputs"], "all directories, patterns, names with special characters and sequences of list commands",
  "The list position and the storage of the list depend on the command history; the multi-file tests follow one path.",
  ["src/parse.c", "src/exec.c", "src/main.c"], ["file list and position", "default file name"],
  [("file_glob/expand_glob", "src/parse.c"), ("EOF_NEXT/EOF_PREV handling", "src/main.c")],
  ["printed names and byte counts", "buffer and files afterwards"], True)

p("P24", "Every session terminates and every command finishes",
  "For any finite input the editor processes each command in time reasonable for the buffer size, never loops or waits for input that was not requested, and exits at end of input. Output ends with the effects of the last command, and no command line is skipped or executed twice.",
  ["inputs", "histories"], "all finite inputs and buffers, including empty matches, zero-size windows, self-referencing macros and invalid multibyte text",
  "Endless loops need particular data (empty matches at a NUL, invalid UTF-8 at a fold, tiny windows).",
  ["src/sub.c", "src/page.c", "src/utf8.c", "src/main.c", "src/io.c"], ["loop cursors"],
  [("match loops", "src/sub.c"), ("display loops", "src/page.c"), ("main loop", "src/main.c")],
  ["command counter of the state records", "process exit within its budget"], True)

p("P25", "Marks stay with their lines",
  "A mark designates the same line through insertions, deletions, moves and substitutions elsewhere or of that line's position, moves with it, is carried to the first replacement line by a substitution, becomes invalid (an error, never another line) when its line is deleted and valid again when an undo brings the line back. At most the latest use of a letter counts, and setting one mark never alters another.",
  ["histories"], "all histories of marks, edits, globals, substitutions, undo and file switches",
  "It needs long mixed histories, where freed line records may be reused; a few tests set one or two marks.",
  ["src/cmds.c", "src/undo.c", "src/sub.c"], ["mark table", "line nodes"],
  [("mark_line_node/transfer_marks/unmark_line_node", "src/cmds.c"), ("get_marked_node_address", "src/cmds.c")],
  ["state record (mark addresses)", "output of 'x="], True)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            assert len(r["title"]) <= 80, r["id"]
            f.write(json.dumps(r) + "\n")
    print(len(P), "properties")
