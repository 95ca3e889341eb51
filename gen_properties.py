#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so the text has one source."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
    assert len(title) <= 80, (id, len(title))

CLI = ["crates/air/src/commands/format/paths.rs", "crates/air/src/commands/format.rs"]
# ---------------------------------------------------------------- formatting on disk
p("F01", "A source file always holds its old bytes or its complete formatted bytes",
  "Whatever happens to `air format` while it runs (process death at any instant, a full disk, an I/O error, a short write), every file under the formatted paths afterwards holds either exactly the bytes it had before or exactly its complete formatted content, never a truncated, torn or mixed content, and no file appears or disappears.",
  ["crash_points", "fault_sequences", "schedules"],
  "Every tree of files, every system call at which the process can die or fail, every short-write pattern.",
  "The CLI tests run to completion on a healthy disk; none stops the process between two system calls or fails one.",
  CLI, [("write the formatted text back in place", "crates/air/src/commands/format/paths.rs")],
  observe=["bytes on disk after the crash or fault"])
p("F02", "`air format --check` never modifies anything and its verdict is right",
  "`air format --check` performs no modification of the file system under any input, schedule or fault. It exits 0 exactly when every selected file could be read, parsed and is already formatted, exits 1 when at least one file would change, and exits non-zero whenever a file could not be judged.",
  ["inputs", "fault_sequences", "schedules"],
  "All trees, all mixes of formatted / unformatted / broken files, all read faults and all schedules of the parallel walk.",
  "Tests check one or two files on a healthy disk; they do not observe the system calls made nor combine unformatted, broken and unreadable files.",
  CLI, [("check mode returns before the write; exit status folded over all results", "crates/air/src/commands/format/paths.rs")],
  observe=["mutating system calls", "exit status"])
p("F03", "Formatting a tree does not depend on scheduling or directory order",
  "For a given tree and arguments, `air format` gives the same final file contents, the same set of reported files and the same exit status for every interleaving of its worker threads, every number of workers and every directory enumeration order.",
  ["schedules", "inputs"],
  "All interleavings of the parallel directory walk, all worker counts, all enumeration orders, all overlapping argument lists.",
  "Tests observe whatever interleaving the host scheduler produces on a handful of files.",
  ["crates/workspace/src/discovery.rs", *CLI],
  [("parallel directory walk with per-thread results merged under a lock", "crates/workspace/src/discovery.rs")],
  state=[("merged file list", "files found by all workers", "crates/workspace/src/discovery.rs")],
  observe=["set of files opened for writing", "final bytes", "exit status"])
p("F04", "One failing file never affects another and failure is never silent",
  "When a selected file cannot be read, decoded, parsed or written, that file is named in the error output and the exit status says failure. Every other selected file is still processed exactly as if the failing one were absent, and a file that failed before its write began keeps its bytes.",
  ["fault_sequences", "schedules", "inputs"],
  "All subsets of files failing in all ways (permission, I/O error, vanished, invalid UTF-8, syntax error, write error).",
  "Tests contain at most one failing file, failing in one way.",
  CLI, [("per-file results are collected, errors reported at the end, status folded", "crates/air/src/commands/format/paths.rs")],
  observe=["stderr", "exit status", "bytes of the other files"])
p("F05", "Once faults stop, one more `air format` reaches the fault-free result",
  "After any run of `air format` that was interrupted or hit faults without damaging a file, running it again on a healthy system yields exactly the tree that a single fault-free run would have produced and exits 0 when nothing is broken. A further `--check` then exits 0 and a further `air format` modifies nothing.",
  ["histories", "crash_points", "fault_sequences"],
  "All sequences fault run(s) -> healthy run -> check, with the interruption anywhere.",
  "No test runs the program twice around a failure.",
  CLI + ["crates/workspace/src/discovery.rs"], [("stateless command: all state is re-read from disk on every run", "crates/air/src/commands/format.rs")],
  observe=["tree before / after each run", "exit status of each run"])
p("F06", "Formatting a stream delivers the whole result or reports failure",
  "`air format --stdin-file-path` writes exactly the formatted text (or, for an excluded path, exactly its input) to standard output and exits 0, for every way the operating system splits, interrupts or shortens the reads and writes. If standard input cannot be read or any part of the output cannot be delivered, it exits non-zero; on a syntax error it writes nothing to standard output and exits non-zero.",
  ["fault_sequences", "inputs"],
  "All chunkings of stdin, short writes, EINTR, EPIPE, ENOSPC and EIO at every point of the output, with and without final newline, with and without exclusion and --check.",
  "Tests pipe small strings through healthy pipes.",
  ["crates/air/src/commands/format/stdin.rs"], [("read all of stdin, format, write all to stdout", "crates/air/src/commands/format/stdin.rs")],
  observe=["bytes received by the consumer of stdout", "exit status"])
p("F07", "Only selected files are ever written, and all selected files are",
  "A directory argument selects exactly the R files below it, hidden files and (inside a git repository) git-ignored files aside, that no exclusion of their governing configuration file (its `exclude` patterns, and the default exclusions unless switched off) covers, neither directly nor through an excluded parent directory; a file argument selects that file unless it is excluded. Nothing outside the selection is ever opened for writing, and a selected file is never left out.",
  ["inputs", "configurations", "schedules"],
  "All trees with nested configuration files and exclusion patterns, all argument lists, all walk interleavings and orders.",
  "Tests sample a few fixed trees and patterns.",
  ["crates/workspace/src/discovery.rs", "crates/workspace/src/file_patterns.rs", "crates/workspace/src/settings/default_exclude_patterns.rs", "crates/workspace/src/settings/default_include_patterns.rs"],
  [("walk filter by include / exclude patterns of the closest settings", "crates/workspace/src/discovery.rs")],
  observe=["files opened for writing", "final bytes"])
p("F08", "Each file is formatted under its closest configuration file or not at all",
  "A file reached through an argument is formatted with exactly the options of the closest configuration file found in the argument's own directory or one of its ancestors (`air.toml` before `.air.toml` within one directory; built-in defaults when there is none; the longest matching directory when several arguments contribute), whatever order files are discovered in. If such a configuration file cannot be read or is invalid, the command fails without modifying any file instead of falling back to other options.",
  ["configurations", "schedules", "fault_sequences"],
  "All placements of configuration files, all discovery orders, read faults and invalid contents in any of them.",
  "Unit tests resolve a few hand-made paths; no test combines nested configuration with parallel discovery or unreadable configuration.",
  ["crates/workspace/src/discovery.rs", "crates/workspace/src/resolve.rs", "crates/workspace/src/toml.rs", "crates/workspace/src/toml_options.rs", "crates/workspace/src/settings.rs"],
  [("settings discovered per ancestor directory and resolved by longest path prefix", "crates/workspace/src/resolve.rs")],
  state=[("path to settings map", "settings by directory", "crates/workspace/src/resolve.rs")],
  observe=["formatted bytes, which encode every option", "exit status"])

# ---------------------------------------------------------------- language server
p("L01", "The server's copy of a document always equals the client's",
  "After any sequence of open, change (full or incremental, several changes per message) and close notifications from a conforming client, every response about a document is computed from exactly the text the client had when it sent the request. This holds for every position encoding, every mix of line endings and Unicode text, and however the byte stream is split or the server's tasks are scheduled.",
  ["histories", "inputs", "schedules"],
  "All edit histories, position encodings, line-ending mixes, stream fragmentations and task schedules.",
  "Tests apply one or two edits to one document.",
  ["crates/lsp/src/documents.rs", "crates/lsp/src/handlers_state.rs", "crates/lsp/src/main_loop.rs", "crates/aether_lsp_utils/src/proto/from_proto.rs"],
  [("single main loop applies notifications and requests in arrival order", "crates/lsp/src/main_loop.rs"), ("incremental edits applied against a line index", "crates/aether_lsp_utils/src/proto/from_proto.rs")],
  state=[("document store", "text per open document", "crates/lsp/src/state.rs")],
  observe=["formatting edits and view-file responses"])
p("L02", "Formatting edits turn the client's text into exactly the formatted text",
  "Applying the edits of a formatting response to the text the document had when the request was sent gives exactly the formatted document, with the line endings the document was opened with. The edits are in bounds, ordered and non-overlapping under the negotiated position encoding; there are none when the text is already formatted or has syntax errors.",
  ["inputs", "histories", "configurations"],
  "All documents, edit histories before the request, encodings, line endings and settings.",
  "Tests compare a few ASCII documents with Unix line endings.",
  ["crates/lsp/src/handlers_format.rs", "crates/aether_lsp_utils/src/proto/to_proto.rs", "crates/aether_lsp_utils/src/text_edit.rs", "crates/aether_lsp_utils/src/diff.rs"],
  [("minimal diff converted to protocol positions", "crates/aether_lsp_utils/src/proto/to_proto.rs")],
  observe=["edits in formatting responses"])
p("L03", "Every request gets exactly one response and failures do not stop the server",
  "For a conforming client each request id is answered exactly once (result, error or cancelled), nothing unsolicited is answered, and answers do not depend on stream fragmentation, client delays, late or failing client replies, or cancellation. After any failed, cancelled or malformed exchange the server keeps serving, and once the client answers outstanding server requests all pending requests complete within a bounded number of steps.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of client traffic, cancellations, error or malformed replies to server requests, slow replies, unknown documents.",
  "Tests drive one request at a time with a client that always answers at once.",
  ["crates/lsp/src/tower_lsp.rs", "crates/lsp/src/main_loop.rs", "crates/lsp/src/handlers_state.rs"],
  [("request forwarded to the main loop with a response channel; handler errors are logged", "crates/lsp/src/main_loop.rs")],
  observe=["messages written by the server"])
p("L04", "Formatting uses the configuration files as of the last notification",
  "A formatting response uses the options and exclusions of the closest configuration file in the root of the innermost open workspace folder holding the document or in an ancestor of that root, as it was on disk when the server last looked: on opening the folder or on the last change notification for a configuration file in it. If that file could not be read or was invalid, nothing governs the folder until a later notification finds it usable again. An untitled document uses the configuration of the only open folder, or none when several are open.",
  ["histories", "configurations", "fault_sequences"],
  "All histories of configuration edits on disk, watched-file notifications, workspace folder changes, with disk faults.",
  "Tests change one configuration file once.",
  ["crates/lsp/src/workspaces.rs", "crates/lsp/src/handlers_state.rs", "crates/workspace/src/resolve.rs", "crates/workspace/src/discovery.rs"],
  [("settings resolver per workspace folder, reloaded on notification", "crates/lsp/src/workspaces.rs")],
  state=[("workspace settings resolver", "settings per workspace folder and directory", "crates/lsp/src/workspaces.rs")],
  observe=["formatting responses"])
p("L05", "Editor settings apply only to their own document and never beat a config file",
  "For a document no configuration file governs, indentation follows the most recent of the editor options pulled for it and the options sent with the formatting request; for a document governed by a configuration file, editor options never have any effect. One document's editor options never influence another document.",
  ["histories", "schedules", "configurations"],
  "All histories of opens, configuration changes, formatting requests over several documents and slow, partial or failing configuration replies.",
  "Tests use one document and immediate, complete replies.",
  ["crates/lsp/src/handlers_state.rs", "crates/lsp/src/settings.rs", "crates/lsp/src/settings_vsc.rs", "crates/lsp/src/workspaces.rs"],
  [("per-document settings merged only into fallback settings", "crates/lsp/src/workspaces.rs")],
  state=[("per-document settings", "indentation pulled from the client", "crates/lsp/src/documents.rs")],
  observe=["formatting responses", "workspace/configuration requests"])
p("L06", "Settings sent back to the editor are current, complete and only when wanted",
  "When the client has switched settings synchronisation on, every change notification for a configuration file in an open workspace folder, every opening of a document (unless the client fails to answer for its settings), and the switch itself, is followed by one synchronisation notification listing exactly the open documents then governed by a configuration file, each with the settings formatting would use, so that the last notification is always the whole truth for an editor that acts on it alone. When it is off or not yet known, no such notification is sent.",
  ["histories", "schedules"],
  "All histories of opened documents, configuration changes and synchronisation settings.",
  "Tests cover one document and one change.",
  ["crates/lsp/src/notifications/sync_file_settings.rs", "crates/lsp/src/handlers_state.rs"],
  [("notification sent after settings were reloaded", "crates/lsp/src/handlers_state.rs")],
  observe=["air/syncFileSettings notifications"])
p("L07", "The editor and the command line agree on which files are formatted",
  "A document with a file path is left alone by the language server exactly when its own path or one of its parent directories is excluded by the configuration in force for it, including the default exclusions; the same file, configuration and workspace would be skipped by `air format`.",
  ["configurations", "histories", "inputs"],
  "All exclusion patterns, nested configuration files, default-exclude switches and paths, before and after configuration reloads.",
  "Tests try single patterns on either side, never both sides on the same tree.",
  ["crates/lsp/src/file_patterns.rs", "crates/workspace/src/file_patterns.rs", "crates/workspace/src/discovery.rs"],
  [("exclusion test on the path and its parents", "crates/lsp/src/file_patterns.rs")],
  observe=["formatting responses", "files the CLI writes"])
p("L08", "Shutdown, exit and a vanished client always end the server cleanly",
  "After a shutdown request is answered the server rejects further requests; after `exit`, or when its input ends at any byte, the process terminates within a bounded number of steps, without panicking and without losing a response to a request it had completed reading while the client still listens.",
  ["crash_points", "schedules"],
  "End of input, exit or broken output at every byte position and with any requests in flight.",
  "Tests shut down only when idle.",
  ["crates/lsp/src/tower_lsp.rs", "crates/lsp/src/main_loop.rs", "crates/air/src/commands/language_server.rs"],
  [("loops owned by the backend are cancelled when it is dropped", "crates/lsp/src/main_loop.rs")],
  observe=["process exit", "server output"])
p("L09", "Range formatting changes only the logical lines the selection touches",
  "The edits of a range-formatting response replace exactly the logical lines touched by the requested range with their formatted text, leaving every other byte of the document alone, in the line endings the document was opened with and for every position encoding and edit history. When the range touches no logical line, or the document has syntax errors or is excluded, there are no edits.",
  ["inputs", "histories", "configurations"],
  "All documents, ranges, encodings and edit histories before the request.",
  "Tests use a dozen fixed ASCII ranges on freshly opened documents.",
  ["crates/lsp/src/handlers_format.rs", "crates/aether_lsp_utils/src/proto/to_proto.rs", "crates/aether_lsp_utils/src/proto/from_proto.rs"],
  [("deepest expression list enclosing both ends of the range", "crates/lsp/src/handlers_format.rs")],
  observe=["edits in range formatting responses"])
p("L10", "Log messages reach the client in order, at the level in force, and never block",
  "Log output forwarded to the client appears in the order it was produced and at the levels most recently set by the client for Air and for its dependencies (unless the environment sets them), and logging never delays, drops or reorders responses, even when the client is slow or its log-level change is invalid.",
  ["schedules", "histories", "fault_sequences"],
  "All log-level changes and all schedules of the log task against the main loop.",
  "No test observes log output.",
  ["crates/lsp/src/logging.rs", "crates/lsp/src/handlers_state.rs"],
  [("log channel drained by its own task, reloadable level filter", "crates/lsp/src/logging.rs")],
  observe=["window/logMessage notifications"])

# ---------------------------------------------------------------- wire
p("W01", "Message framing is independent of how the stream is cut",
  "Decoding a byte stream of well-formed messages yields exactly those messages in order, for every way the stream is cut into reads and every supported header form. Encoding a message and decoding it gives the same message, the announced length is the byte length of the body, and an end of stream loses no complete message.",
  ["schedules", "inputs", "fault_sequences"],
  "All chunkings including one byte at a time and cuts inside headers and multi-byte characters, all message sequences, all write splits.",
  "Tests cut one message at a few fixed positions.",
  ["crates/lsp_test/src/tower_lsp/codec.rs"], [("incremental header and body decoder", "crates/lsp_test/src/tower_lsp/codec.rs")],
  state=[("announced content length", "pending body length between reads", "crates/lsp_test/src/tower_lsp/codec.rs")],
  observe=["decoded messages and errors"])
p("W02", "A malformed message is reported once and decoding resumes at the next one",
  "When the stream holds a message whose header or body is malformed, the decoder reports errors for it but keeps making progress, never panics, never returns a message that was not sent, and delivers every well-formed message that follows the damage, for every cut of the stream.",
  ["fault_sequences", "inputs"],
  "All kinds of damage (bad header, missing or wrong length, bad content type, invalid JSON, garbage between messages) at all positions and cuts.",
  "One test damages one message in one way.",
  ["crates/lsp_test/src/tower_lsp/codec.rs"], [("skip to the next header after an error", "crates/lsp_test/src/tower_lsp/codec.rs")],
  observe=["decoded messages and errors"])

# ---------------------------------------------------------------- Zed extension
p("Z01", "The Zed extension only ever starts a complete `air` it was allowed to use",
  "The binary path the Zed extension returns follows the user's explicit setting first, then the worktree's `PATH`, then the extension's own download; a path into the extension's own storage is returned only when the complete binary of the requested release is there. A failing lookup or download is reported as an error and never yields a path that does not work.",
  ["fault_sequences", "histories", "crash_points"],
  "All histories of settings, PATH changes, new releases, network failures, interrupted downloads and file-system faults across restarts.",
  "The only test parses a release name.",
  ["editors/zed/src/lib.rs"], [("resolution order with a cached path and a versioned download directory", "editors/zed/src/lib.rs")],
  state=[("cached binary path", "last resolved download", "editors/zed/src/lib.rs")],
  observe=["returned command", "files in the extension's storage"])
p("Z02", "Upgrading or failing to upgrade never leaves the Zed extension without a server",
  "Old downloads are removed only once the requested release's binary is completely in place, and only the extension's own old downloads are removed. Once network and disk work again the next request succeeds and installs the latest release, and repeating a request without a new release downloads nothing. A download that a session was given before is given again as long as it is there, even while lookups fail.",
  ["histories", "fault_sequences", "crash_points"],
  "All histories of releases, faults, crashes and restarts.",
  "No test exercises downloading.",
  ["editors/zed/src/lib.rs"], [("cleanup of stale version directories after a download", "editors/zed/src/lib.rs")],
  observe=["files in the extension's storage", "downloads requested"])

p("Z03", "The Zed extension passes the user's arguments and options on unchanged",
  "The server is started with the arguments the user configured, whichever way the binary was found, and with `language-server` alone when none are configured; initialization options and workspace configuration are handed over exactly as the user wrote them, and null when there are none. Asking for options looks nothing up and changes no file.",
  ["configurations", "histories", "fault_sequences"],
  "All settings, including absent and malformed ones, in every state of the extension's storage and after any failure.",
  "No test reads settings.",
  ["editors/zed/src/lib.rs"], [("settings for the worktree, read on every request", "editors/zed/src/lib.rs")],
  observe=["returned command", "returned options and configuration"])

# ---------------------------------------------------------------- VS Code extension
p("V01", "Starting, stopping and restarting the VS Code client never overlap",
  "However start, stop and restart commands interleave and whichever of them fail, at most one language client runs at any time, operations take effect in the order they were requested, starting when started and stopping when stopped do nothing, and a failed start or stop leaves the extension stopped and able to start again. Deactivation is complete only once the server has stopped. State-change events report exactly these transitions.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of lifecycle commands with slow or failing client starts and stops.",
  "Tests start the extension once.",
  ["editors/code/src/lsp.ts"], [("queue with concurrency one around all lifecycle operations", "editors/code/src/lsp.ts")],
  state=[("lifecycle state", "started or stopped, with the client", "editors/code/src/lsp.ts")],
  observe=["client start / stop calls", "state-change events"])
p("V02", "The terminal PATH contribution mirrors the running server and the setting",
  "After every event, the extension contributes the running server's directory to terminal PATHs exactly when a server is running and `air.addExecutableToTerminalPath` is on. The contribution is withdrawn when the server stops or the setting is switched off, takes effect at once when it is switched on, and is never persisted across sessions.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of lifecycle operations and setting changes, with failures.",
  "No test covers it.",
  ["editors/code/src/environment.ts", "editors/code/src/settings.ts", "editors/code/src/extension.ts"], [("listener on lifecycle and configuration events", "editors/code/src/environment.ts")],
  observe=["environment variable collection"])
p("V03", "The server sees each document's own language-specific editor settings",
  "When the server asks for a setting scoped to a document that is open, the extension answers with that document's language-specific value; for a closed document or an unscoped item it passes on the default answer, and errors of the default answer are passed on unchanged. It never opens a document to answer, and answers keep the order and number of the items asked.",
  ["histories", "schedules"],
  "All sets of open documents, per-language settings and item lists, with documents closing while a request is in flight.",
  "The tests use settings without language overrides.",
  ["editors/code/src/lsp.ts"], [("configuration middleware", "editors/code/src/lsp.ts")],
  observe=["answers to workspace/configuration"])
p("V04", "Initialising a workspace folder never destroys what the user already had",
  "Initialising a workspace folder keeps every existing configuration file and every existing entry of settings (apart from the formatter entries it exists to set) and every byte of build-ignore files (whose added lines use the line endings the file uses throughout), in the chosen folder only, adds only what is missing, and running it again changes nothing. If a step fails, if it cannot be told whether a file exists, or if unsaved editors are not saved, success is not reported and nothing the user had is lost.",
  ["fault_sequences", "histories", "inputs"],
  "All initial folder contents, failures of every file operation, user answers and repetitions.",
  "No test covers it.",
  ["editors/code/src/command/workspace-folder-initialization.ts", "editors/code/src/workspace.ts"], [("create only if missing, merge otherwise", "editors/code/src/command/workspace-folder-initialization.ts")],
  observe=["workspace files", "settings updates", "messages shown"])
p("V05", "Editor indentation follows the latest settings the server sent",
  "After any sequence of synchronisation notifications and editor switches, the active editor of a document listed in the most recent notification uses the indentation it gives (with tabs, the user's own tab width stays in force); a document not listed there is left alone. Documents are told apart by their whole URI, on every platform.",
  ["histories", "schedules"],
  "All interleavings of notifications and editor switches.",
  "One test covers one notification and one editor.",
  ["editors/code/src/notification/sync-file-settings.ts"], [("map replaced on each notification and applied on activation", "editors/code/src/notification/sync-file-settings.ts")],
  state=[("settings by path", "last notification", "editors/code/src/notification/sync-file-settings.ts")],
  observe=["editor options"])
p("V06", "Formatting a workspace folder runs only on saved files and reports honestly",
  "The command runs the resolved `air` on the chosen folder only after every unsaved document in it, and no other, was saved with the user's consent. It reports success exactly when the process was spawned and exited with status 0, whatever the order in which process output, errors and exit arrive, and the full error output is logged otherwise.",
  ["schedules", "fault_sequences", "inputs"],
  "All user answers, failing saves, spawn errors, exit codes, signals and event orders and output chunkings.",
  "No test covers it.",
  ["editors/code/src/command/workspace-folder-formatting.ts", "editors/code/src/process.ts", "editors/code/src/workspace.ts"], [("process result collected on close or error", "editors/code/src/process.ts")],
  observe=["spawned processes", "messages shown", "log"])
p("V07", "An untrusted workspace can never choose the executable that is started",
  "In an untrusted workspace only the bundled `air` is started, whatever the settings say. In a trusted one the configured strategy decides, falling back between bundled and environment but never to or from an explicit path, and nothing is started when resolution fails.",
  ["configurations", "fault_sequences", "histories"],
  "All trust states, strategies, settings and presence of each executable, changing between restarts.",
  "No test covers it.",
  ["editors/code/src/binary.ts", "editors/code/src/lsp.ts"], [("resolution by strategy", "editors/code/src/binary.ts")],
  observe=["command line of the started server"])
p("V08", "The server starts with the user's own log settings as they are then",
  "Every start of the server hands over the log level and dependency log levels that the user's own settings hold at that moment, or none when they hold none; settings of a workspace or folder never take their place, and a changed setting is in force after the next restart.",
  ["configurations", "histories", "schedules"],
  "All histories of settings at every level, lifecycle operations and failures.",
  "No test changes a setting.",
  ["editors/code/src/settings.ts", "editors/code/src/lsp.ts"], [("user-level values read at every start", "editors/code/src/settings.ts")],
  observe=["initialization options of each client"])
p("V09", "A representation view follows the active R editor",
  "While a server runs and the editor of an R file is active, every representation document (syntax tree, tree-sitter tree, format tree) that one of the view commands opened comes to show the server's answer, of that document's own kind, for the text and cursor of the active editor as they are after the last edit: after the command ends, after an edit of an R file, and after switching to another R file's editor. The server is never asked about any other document.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of edits, editor switches, view commands, restarts, slow and failing requests.",
  "No test covers it.",
  ["editors/code/src/request/viewFile.ts", "editors/code/src/commands.ts", "editors/code/src/r-files.ts"], [("refresh ordered after the language client's own update", "editors/code/src/request/viewFile.ts")],
  observe=["requests sent to the server", "texts of the view documents"])
p("V10", "A running server holds exactly the open R documents",
  "Whenever a server runs, every open R document with a place on disk, without one yet (untitled) or in a notebook cell is open in that server, whatever its file is called; and no document that is closed, or that is in another language, is: across documents opening, closing and changing language, and across starts, stops, restarts and crashes of the server.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of documents opening, closing and changing language, interleaved with lifecycle operations that may be slow or fail.",
  "No test starts the extension.",
  ["editors/code/src/lsp.ts"], [("document selector and middleware", "editors/code/src/lsp.ts")],
  observe=["documents open in each client"])
p("V11", "Saving the file representations writes one faithful archive, or says it did not",
  "Each time the user saves the file representations, they are asked once where to. If they name a place, exactly one archive is written there, which holds each of the three representation documents exactly once, under its own name and with the text it then shows, and nothing else; if they dismiss the dialog, nothing is written. The command ends only once that is done, and when the archive cannot be written it fails or says so.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of exports, edits, editor switches and restarts, with failing requests, dismissed and slow dialogs, and failing writes.",
  "No test runs the command.",
  ["editors/code/src/commands.ts", "editors/code/src/request/viewFile.ts"], [("archive of the view documents", "editors/code/src/commands.ts")],
  observe=["entries of each archive written", "outcome of the command"])

# ---------------------------------------------------------------- not simulation targets
p("N01", "Formatting is idempotent",
  "Formatting already formatted R code returns it unchanged, for every program and every setting.",
  ["programs", "configurations"], "All R programs, all settings.",
  "Snapshot tests sample programs.", ["crates/air_r_formatter/src/lib.rs"], [("formatting rules", "crates/air_r_formatter/src")])
p("N02", "Formatting preserves the meaning of a program",
  "The formatted text parses to the same program as the input, up to whitespace and the documented rewrites, for every program that parses.",
  ["programs", "configurations"], "All R programs, all settings.",
  "Snapshot tests sample programs.", ["crates/air_r_formatter/src", "crates/air_r_parser/src"], [("formatting rules", "crates/air_r_formatter/src")])
p("N03", "No comment is lost, duplicated or moved across code",
  "Every comment of the input appears exactly once in the output, attached to the same code.",
  ["programs"], "All placements of comments.",
  "Snapshot tests sample placements.", ["crates/air_r_formatter/src/comments.rs"], [("comment placement", "crates/air_r_formatter/src/comments.rs")])
p("N04", "Skipped code is reproduced verbatim",
  "Code covered by a `# fmt: skip` directive, a `# fmt: skip file` directive or the skip list is reproduced byte for byte.",
  ["programs", "configurations"], "All programs, directives and skip lists.",
  "Snapshot tests sample programs.", ["crates/air_r_formatter/src/comments.rs", "crates/comments/src/directive.rs"], [("suppression", "crates/air_r_formatter/src/comments.rs")])
p("N05", "The syntax tree is lossless and syntax errors are always reported",
  "Concatenating the tokens of a parse gives the input back, and input that is not valid R is reported as an error rather than parsed to something else.",
  ["programs"], "All inputs.",
  "Tests sample inputs.", ["crates/air_r_parser/src/parse.rs"], [("tree-sitter walk to syntax tree", "crates/air_r_parser/src/parse.rs")])
p("N06", "Generated syntax code matches the grammar",
  "Reading the grammar and generating the syntax crates is deterministic and matches what is committed.",
  ["inputs"], "All grammars.",
  "One test parses the grammar.", ["xtask/codegen/src", "crates/biome_ungrammar/src"], [("code generation", "xtask/codegen/src")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
