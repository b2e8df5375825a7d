#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, C, I, P, H, G, F = "schedules crash_points inputs programs histories configurations fault_sequences".split()
def anc(files, mech, state=(), obs=("standard output", "files on disk", "exit status")):
    import re
    for _n, w in mech:
        for f in re.findall(r"src/([a-z0-9]+\.[ch])", w):
            if f not in files: files.append(f)
    return {"files": ["src/" + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(obs), "hook_needed": None}
PROPS = [
("C01", "Every edit command does exactly what the manual says, on every buffer",
 "Starting from any buffer contents, current address, marks and registers, each well-formed editing command (append, insert, change, delete, join, move, copy, substitute, mark, yank, put, print, list, number and the addresses that select lines) yields exactly the buffer, current address, marks, registers and output that ed's manual defines. A command that is refused prints one diagnostic and leaves the buffer as it was. The result does not depend on how the operating system chunks or interrupts reads and writes.",
 [H, I, F], "every sequence of edit commands over every buffer, every chunking of stdin, stdout, file and scratch-file transfers",
 "the suite checks about 150 fixed scripts from a clean start on whole transfers; it cannot reach interactions of commands, state left over from earlier ones, or partial I/O.",
 anc(["exec.c", "parse.c", "buf.c", "cmds.c", "sub.c", "re.c", "aux.c"], [("command dispatcher", "src/exec.c exec_command"), ("address parser", "src/parse.c address_range"), ("line list and scratch file", "src/buf.c"), ("substitution", "src/sub.c")],
     [("dot, addr_last", "current and last address", "src/ed.h ed_state"), ("line list", "buffer lines as scratch-file offsets", "src/buf.c")])),
("C02", "Undo restores the previous state exactly, and undoing the undo redoes it",
 "After any command that changes the buffer, undo restores the buffer text, current address and unsaved status from before that command, and a second undo brings the command's result back. This holds for a whole global command taken as one unit and for macros. It also holds when the command stopped part-way because of an error, an interrupt or a failed system call: one undo takes back whatever part of it happened.",
 [H, F, S], "every history of edits and undos, with errors, signals and failing I/O cutting commands short at any point",
 "tests undo a handful of single commands that succeed; none undoes a command that was interrupted or failed after changing part of the buffer.",
 anc(["undo.c", "buf.c", "exec.c", "glbl.c"], [("undo stack and replay", "src/undo.c undo_last_command, append_undo_node"), ("state swap", "src/undo.c")], [("undo stack", "inverse operations of the last command", "src/undo.c"), ("state[2]", "buffer state before the last change", "src/ed.h")])),
("C03", "An acknowledged write has put exactly the addressed lines in the file",
 "When a write command reports its byte count, the named file holds exactly the addressed lines, in order and unchanged (including NUL and invalid UTF-8 bytes and a missing final newline), and the count equals the file's size or the bytes appended. Appending keeps what the file held before. Partial and interrupted writes by the operating system do not alter this.",
 [H, I, F], "every buffer, address range, write variant and file state; short and interrupted reads and writes at every point",
 "tests compare a few small files written by whole, uninterrupted system calls.",
 anc(["io.c", "buf.c", "exec.c"], [("write path", "src/io.c write_file, write_stream"), ("line retrieval", "src/buf.c get_buffer_line")])),
("C04", "A write that fails is reported and never passes for success",
 "If opening, writing, flushing or closing the destination fails (no space, quota, I/O error, permission), the write command prints a diagnostic instead of a byte count. The buffer, current address, marks and unsaved status stay as they were, and write-and-quit does not quit. Repeating the write once the fault is gone succeeds in full.",
 [F, H], "every failing system call on the destination or scratch file at every position of every write command",
 "no test makes a write, flush or close fail part-way.",
 anc(["io.c", "exec.c", "main.c"], [("stream close and error check", "src/io.c write_file, discard_stream"), ("w, W, wq", "src/exec.c w_cmd")])),
("C05", "A file is read faithfully, or the failure is diagnosed",
 "Reading or editing a file brings its lines into the buffer byte for byte and reports its exact size. If any part cannot be opened or read, or a line cannot be stored, a diagnostic is printed and nothing the buffer shows is wrong: it holds a prefix of the file where one was read, and is marked as not saved wherever it differs from the file. Directories, missing files and empty files are told apart as documented.",
 [F, I, H], "every file content, read chunking and read/open/scratch-write failure at every position",
 "tests read intact files; no read ever fails, is short, or ends inside a line.",
 anc(["io.c", "exec.c"], [("read path", "src/io.c read_file, read_stream, get_stream_line"), ("e, r", "src/exec.c")])),
("C06", "An interrupt at any instant leaves a consistent, usable editor",
 "An interrupt (Ctrl-C) delivered at any instruction of any command prints a diagnostic and returns to command mode. The buffer, current address, marks, registers and remembered file name are then those from before the command, after it, or after a completed part of it, never a corrupt mixture, and one undo takes the part back. Later commands behave normally.",
 [S, H, F], "SIGINT delivered between any two basic blocks, or inside any blocking system call, of any command in any history",
 "the suite sends no signals.",
 anc(["signal.c", "main.c", "buf.c", "io.c", "exec.c"], [("deferred signals", "src/signal.c spl1/spl0"), ("longjmp recovery", "src/main.c sigsetjmp")], [("mutex / sigflags", "signal deferral depth and pending set", "src/signal.c")])),
("C07", "A hangup saves unsaved work before the editor exits",
 "A hangup at any instant writes the whole buffer, unless it is empty, to ed.hup in the current directory, or in the home directory if that fails, and then exits. What is saved is the buffer as it was before or after the running command or a completed part of it, whether or not a warning about unsaved changes was already given. With an empty buffer no file is created.",
 [S, C, F], "SIGHUP between any two basic blocks of any command, combined with failing writes to the first rescue location",
 "the suite sends no signals and has no test of the rescue file.",
 anc(["signal.c", "main.c", "io.c"], [("hangup handler", "src/signal.c handle_hup")])),
("C08", "Unsaved changes are never silently discarded",
 "While the buffer differs from what was last read or successfully written in full, the first quit, end of input or edit command is refused with a warning, and only an immediate repetition or the unconditional form goes through. The unsaved status is set by every command that changes the buffer and cleared only by a write of the whole buffer that succeeded or by loading a file. Undo restores the status that belongs to the restored text.",
 [H, F], "every history of edits, failed and successful reads and writes, undo, quit and edit attempts",
 "tests cover the plain 'q twice' case; not failed writes, partial writes, undo, or interrupted commands.",
 anc(["exec.c", "io.c", "undo.c", "main.c"], [("quit/edit guard", "src/exec.c q_cmd, e_cmd"), ("modified flag maintenance", "src/exec.c, src/undo.c")], [("is_modified", "buffer has unsaved changes", "src/ed.h")])),
("C09", "Global commands visit exactly the lines that matched, once each, in order",
 "g, v, G and V mark the lines that match (or do not match) before running anything, then run the command list once on each marked line in order, skipping only lines that have themselves been deleted or moved by the list. An error or interrupt stops the command there, and undo takes back all of it as one change.",
 [H, I, F, S], "every buffer, pattern and command list, including lists that delete, move, join, copy, insert or read lines; errors and interrupts inside the list",
 "tests use simple lists over small files where nothing fails and visited lines do not vanish.",
 anc(["glbl.c", "exec.c"], [("active list", "src/glbl.c mark_global_nodes, exec_global"), ("unmarking on delete/move", "src/glbl.c delete_global_nodes")])),
("C10", "A mark keeps pointing at its own line or at none",
 "A marked line keeps its mark through every edit that does not remove that line, wherever the line moves. Once the line is deleted the mark addresses no line; no command, undo, failure or interrupt makes a mark point at a different line than the one that was marked.",
 [H, F, S], "every history of edits, moves, undo, globals and reads with faults and interrupts",
 "tests set a mark and use it at once.",
 anc(["exec.c", "buf.c", "undo.c"], [("mark table", "src/cmds.c mark_line_node, get_marked_node_address, unmark_line_node")])),
("C11", "A register holds exactly what was last stored or appended to it",
 "Each numbered register, and the register that collects deleted lines, holds exactly the lines last stored by yank, delete or write-to-register, with appended text following in order and a line kept whole. Putting or reading it inserts exactly those lines, and no failed or interrupted command leaves a line in it that was never stored.",
 [H, F, S], "every history of register stores, appends, moves and reads, with failing memory, I/O and interrupts",
 "tests store and read back one or two registers once.",
 anc(["buf.c", "exec.c", "io.c"], [("register queues", "src/io.c append_to_register, append_from_register, inter_register_copy, inter_register_move")])),
("C12", "Text sent to or taken from a shell command arrives complete and unchanged",
 "Filtering lines through a command replaces exactly those lines by exactly the command's output; reading from and writing to a command transfer exactly its output or the addressed lines. This holds for any interleaving of editor and command, any pipe capacity and chunking, and commands that stop reading early. If a pipe, process or transfer fails, a diagnostic is printed and no line is lost that undo cannot bring back.",
 [S, F, H], "every interleaving of the editor, its helper process and the shell, every pipe chunking, failing fork/pipe/read/write",
 "tests run real shells whose scheduling they do not control, with text far smaller than a pipe and no failures.",
 anc(["buf.c", "io.c", "exec.c"], [("filter", "src/aux.c filter_lines"), ("popen streams", "src/io.c read_pipe, write_pipe"), ("scratch duplication and reopening", "src/buf.c dup_ed_buffer, reopen_ed_buffer")])),
("C13", "A failing temporary file never turns into wrong text",
 "If reading or writing the editor's temporary file fails, is short or runs out of space, the command is refused with a diagnostic. No line shown, written, substituted or undone afterwards ever has text that was not put there: text is correct or the access fails with a diagnostic. When the fault is gone, everything accepted earlier is intact.",
 [F, H], "every failing, short or interrupted scratch-file seek, read, write and flush at every position of every history",
 "tests never make the temporary file fail.",
 anc(["buf.c"], [("put/get of buffer lines", "src/buf.c put_buffer_line, get_buffer_line"), ("write-behind buffer", "src/buf.c save_buffer_text")])),
("C14", "Running out of memory costs a command, never the session",
 "If any memory allocation fails, the command in progress is refused with a diagnostic and the editor goes on. The buffer, marks, registers and undo history are as before the command or as after a completed part of it, and the next command that needs memory works once memory is there.",
 [F, H], "every failing allocation, singly and in runs, at every position of every command, including inside the regular-expression engine",
 "no test makes an allocation fail.",
 anc(["buf.c", "exec.c", "re.c", "sub.c", "glbl.c", "undo.c", "io.c"], [("buffer growth macro", "src/ed.h REALLOC_THROW"), ("error unwinding", "src/exec.c")])),
("C15", "However the editor ends, it leaves no temporary file behind",
 "The editor's temporary files are private to the user, and none exists any more once the editor has exited normally, by an error, by end of input or by a signal it handles. Temporary scripts made for macros are removed as soon as they have been read. No temporary file is left when creating or setting one up fails.",
 [C, F, H], "every way of ending at every point of every history, with failing open, mkstemp, unlink and close",
 "tests do not look at the temporary directory.",
 anc(["buf.c", "main.c", "signal.c", "exec.c"], [("scratch creation", "src/buf.c create_disk_buffer"), ("cleanup", "src/buf.c quit, close_ed_buffer")])),
("C16", "A script stops at its first error and says so in its exit status",
 "Run from a script, the editor stops at the first command that fails and exits with a non-zero status; commands after it are not run. If no command fails it exits with status 0, unless it was stopped from discarding unsaved changes. What the commands before the failing one wrote stays written.",
 [P, F, H], "every script and every failure position, with failing I/O and end of input inside a command",
 "tests check a few fixed scripts' status.",
 anc(["main.c", "exec.c"], [("error loop and exit status", "src/main.c"), ("script mode detection", "src/buf.c init_stdio")])),
("C17", "A macro runs as if its lines were typed, and always unwinds",
 "Executing a register or a script runs its lines as if they had been typed, with nested macros resuming their caller where it left off. An error or interrupt anywhere inside abandons all active macros and returns to the terminal with exactly one diagnostic. No later command reads what was left of an abandoned macro.",
 [P, S, F], "every nesting and content of macros, with errors, interrupts and failing I/O inside at any depth",
 "tests run one or two macros that succeed.",
 anc(["exec.c", "main.c", "io.c"], [("macro execution", "src/exec.c exec_macro, src/aux.c script_from_register"), ("frame stack", "src/aux.c push_stack_frame, pop_stack_frame, unwind_stack_frame")])),
("C18", "In-place editing keeps the original safe until its replacement is complete",
 "When editing files in place with a backup suffix, the backup holds exactly the original contents and the file exactly what the script made of it. If a step fails, the failure is reported by a non-zero exit status, and the original text survives in the file or in its backup.",
 [C, F, P], "every script and file list, with failing and short I/O at every position",
 "tests check one in-place run without faults.",
 anc(["main.c", "io.c", "exec.c"], [("in-place save", "src/main.c save_edit")])),
("C19", "Files changed by other programs are never mistaken for the editor's own",
 "If another program replaces, removes, truncates, appends to or write-protects a file between commands, the next read returns the file's contents at that moment and the next write produces exactly the addressed lines in the file of that name. A write never lands in a file that no longer has the name, and a refused access is diagnosed.",
 [S, H], "every interleaving of editor commands with another program's create, rename, remove, truncate, append and chmod",
 "tests have no second party.",
 anc(["io.c"], [("open default file handle and identity check", "src/io.c get_inode, use_stream"), ("file locks", "src/io.c set_file_lock")])),
("C20", "Restricted mode runs no shell and touches no file outside the directory",
 "Started as red, no input makes the editor run a shell command or open, create or change a file outside the current directory. Every attempt is refused with a diagnostic, whatever syntax, default name, register or macro it is hidden behind.",
 [P, I], "every command, including hostile spellings of names and shell escapes, on every history",
 "tests try two or three plain attempts.",
 anc(["exec.c", "parse.c", "io.c", "main.c"], [("restricted checks", "src/parse.c file_name, src/exec.c"), ("shell escape check", "src/exec.c")])),
("C21", "An encrypted file decrypts to exactly what was written",
 "With an encryption key set, a written file contains only the encrypted form, and reading it back with the same key restores every byte, including empty lines, NUL bytes, lines around block boundaries and a missing final newline. A file that breaks off inside a block, whose end does not decrypt to a valid last block, or that cannot be read is diagnosed, not silently shortened. The key in use is the one entered last, whatever its form and whatever keys came before; text kept in registers, run as a macro or passed through a filter is unaffected by it, and text rescued at a hangup is encrypted.",
 [I, H, F], "every buffer content and length, short and interrupted I/O, truncation and failing reads and writes",
 "tests have no round trip over block boundaries or failures.",
 anc(["cbc.c", "io.c"], [("cipher block chaining", "src/cbc.c put_des_char, get_des_char, flush_des_file")])),
("C22", "Once faults stop, the editor always answers, and never crashes",
 "Whatever commands are given and whatever faults, signals and resource shortages occur, the editor never crashes, hangs or loops: once the faults stop it returns to command mode within a bounded number of steps, or exits in a documented way. Every failed command produces a diagnostic.",
 [F, S, P, H], "every program of commands (well-formed or not) with arbitrary mixed fault sequences",
 "the suite runs only fault-free scripts.",
 anc(["main.c", "exec.c", "signal.c", "io.c", "buf.c"], [("error and signal recovery", "src/main.c main loop")])),
("C23", "Only write commands change user files, and what they wrote survives a kill",
 "No command except the write family (and the user's own shell commands) creates, changes or removes a file of the user's. If the editor is killed at any instant, every file holds what the last acknowledged write put there, unless it was the target of the write in progress.",
 [C, H, F], "SIGKILL between any two basic blocks of any command in any history",
 "tests never kill the editor and do not compare untouched files.",
 anc(["io.c", "exec.c", "buf.c"], [("write path flushes before acknowledging", "src/io.c write_file"), ("open modes", "src/io.c")])),
("C24", "Regular expressions match the language POSIX defines",
 "For every pattern and line, matching selects the leftmost-longest match with the sub-matches POSIX defines for basic and extended expressions.",
 [I], "every pattern and line", "tests sample a few patterns.", anc(["re.c"], [("bundled matcher", "lib/regexec.c")])),
("C25", "Paging shows consecutive lines exactly once, while the window changes",
 "For text whose lines fit the width of the window, z and Z (with address, size or printing suffix) show a page of consecutive lines, each once and complete, as many as the window (or the given size) holds less one, and make the last one shown current; paging on from there forward or backward neither loses nor repeats a line, and stops at the ends of the buffer with a full page. A change of the window's size, at any instant, alters only how many lines later pages hold: no command prints, does or fails at anything else because of it. Listing (l) shows every byte of a line unambiguously at any width. Lines wider than the window and half pages ([ and ]) may at least not crash or hang the editor.",
 [I, S, H, G], "every buffer, window geometry (environment or terminal) and history of paging, with the window resized at any instant of any command",
 "tests have no terminal and never resize the window; they page over fixed texts in one size.",
 anc(["page.c", "exec.c", "signal.c", "utf8.c"], [("frame buffer", "src/page.c display_lines"), ("paging commands", "src/exec.c z_cmd, Z_cmd"), ("resize handler", "src/signal.c handle_winch")], [("ws_row, ws_col", "window size, set by a signal handler", "src/ed.h ed_display")])),
("C26", "The editor never touches memory that is not its own",
 "Whatever commands, texts, file contents, signals and failing system calls or allocations occur, the editor never reads or writes outside the memory it has allocated, nor uses or frees memory it has already released.",
 [I, F, S, H], "every program of commands on every content, with signals and faults at any point",
 "a stray access usually goes unnoticed on the few inputs a test has; the suite runs without memory checking and without faults.",
 anc(["buf.c", "io.c", "exec.c", "sub.c", "re.c", "glbl.c", "page.c", "undo.c", "cbc.c", "main.c", "signal.c"], [("growing buffers", "src/ed.h REALLOC_THROW, src/aux.c"), ("signal exclusion while lists change", "src/signal.c spl1, spl0")])),
("C27", "File lists: ~ commands walk the list, and nothing else disturbs it",
 "~e and ~f with patterns set the file list to the files that match them, in order (a pattern that matches nothing stands for itself), and make the first the current file; ~f prints the list; ~en, ~ep, ~fn, ~fp, ~wn and ~wp move to the next or previous name and fail without effect at its ends; ~e alone returns to the first. ~r, ~w and ~W take a pattern only if exactly one name comes of it. No other command (a plain e or f included), error, interrupt or failed allocation changes the list or makes a later list command misbehave, the unsaved-changes guard applies to every one of them, and within a global command the rest of its list is still executed.",
 [I, F, S, H], "every sequence of list and other commands over every set of files, with failures and interrupts in between",
 "tests cover one short sequence of list commands; none combine them with plain e, globals, failed expansions, interrupts or failing allocations.",
 anc(["parse.c", "exec.c", "main.c", "buf.c"], [("list expansion and selection", "src/parse.c file_glob, expand_glob"), ("editing the next file", "src/main.c next_edit")], [("file->list, file->glob", "position and all names of the list", "src/ed.h")])),
("C28", "A malformed or out-of-range command is refused whole and changes nothing",
 "A command that is malformed or out of range (an unknown command letter, an address that does not exist or is out of order, an address where none is allowed, a missing or surplus argument or suffix, a bad pattern or destination) is answered with ? alone: it prints no lines, changes no text, mark, register, file, file name or file list, neither makes nor clears unsaved changes, takes nothing away from what undo would restore, and swallows no command after it; only the current line may move, as far as addresses separated by ; or searches had already set it. Inside a global it ends the global there. The session goes on, and every later command does exactly what it would have done. (A well-formed command that finds nothing to do, such as a substitution without a match or a file that cannot be read, is the business of the other properties.)",
 [I, H, F], "every malformed command, alone or inside a global, after every history",
 "tests try some thirty bad commands, one at a time in a fresh editor, and look only for the error; none checks that undo, marks, registers, remembered patterns or the commands after it are intact.",
 anc(["exec.c", "sub.c", "glbl.c", "re.c", "parse.c"], [("address validation", "src/parse.c address_range"), ("suffixes and dispatch", "src/exec.c exec_command, COMMAND_SUFFIX"), ("substitution parsing", "src/exec.c s_cmd, src/sub.c")])),
]
NA = {
 "C24": "A pure function of pattern and line inside a bundled library (glibc/gnulib regex) with no schedule, clock, I/O or fault for its result to depend on; simulation has nothing to decide. Its allocation failures are covered under C14.",
}
NOTE = "Seeded search over executions of the real ed objects in a simulated OS; assurance is what the explored seeds cover, against an executable model of ed. Trusts the model (model.h), the simulated kernel/libc seam (sim.cc), the real stdio and the compiler."
CLAIM = os.environ.get("CLAIM", open(V + "/tools/claimed").read()).split()
with open(V + "/properties.jsonl", "w") as f:
    for (i, t, s, over, text, why, a) in PROPS:
        assert len(t) <= 80, t
        f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for (i, t, *_r) in PROPS:
    if i in CLAIM:
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded search, %s)" % ("AddressSanitizer as the oracle" if i == "C26" else "model refinement"), "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Machinery for this property is not yet sound on the unchanged tree; not claimed for now.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
