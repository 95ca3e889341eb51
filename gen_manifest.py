#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed and how."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
BASE = ("Seeded search, not proof: holds for every simulated run of the search (count, faults and distinct traces in the evidence file). "
        "Every reported violation is a minimised case that replays bit for bit. ")
CLI = ("Real code: crates/air, workspace, settings, fs, line_ending, crates and the ignore/toml/clap/tracing crates. Stand-ins: the operating system's scheduler, clock, file system errors and "
       "standard streams (sim.c), and a small language in place of the R parser and formatter, whose own dependencies are not available offline. ")
SIM = "deterministic simulation: "
LSP = ("Real code: crates/air language-server, crates/lsp with its main, auxiliary and log loops, aether_lsp_utils, workspace, settings, and tokio's multi-threaded runtime on simulated threads. Stand-ins: the tower-lsp transport and lsp-types "
       "(re-implemented after the published crate, four requests at a time), the scheduler, clock and standard streams (sim.c), a small language in place of the R parser and formatter. ")
ZED = "Real code: editors/zed/src/lib.rs. Stand-ins: Zed's extension host, GitHub, the disk's faults. Assumes the host unpacks a download file by file in place. "
VSC = ("Real code: everything in editors/code/src but the tests and the zip export, with the settings package.json declares, bundled from the working tree. Stand-ins, after their documentation: the vscode API, vscode-languageclient, p-queue, which, fs-extra, child_process. "
       "Every promise the outside world settles is settled by the seeded scheduler. ")
CHECKS = {
 "F01": ("fault_enumeration", SIM + "seeded crash points, torn and failed writes over random trees; on-disk bytes against old/new", CLI + "A crash keeps what completed system calls wrote. Torn in-place writes are a known finding."),
 "F02": ("exploration", SIM + "seeded trees, read faults and schedules; every mutating call is an alarm, verdict against a model", CLI),
 "F03": ("exploration", SIM + "the same tree under several seeded thread schedules and directory orders; results compared with each other and a model", CLI),
 "F04": ("fault_enumeration", SIM + "seeded subsets of files failing in seeded ways; blame, exit status and neighbours against a model", CLI),
 "F05": ("fault_enumeration", SIM + "interrupted runs followed by healthy ones; convergence to the fault-free result", CLI + "Files damaged by the interrupted run (F01's known finding) are restored from a backup first."),
 "F06": ("fault_enumeration", SIM + "seeded chunking, short writes and errors on the standard streams; delivered bytes and status against a model", CLI),
 "F07": ("exploration", SIM + "seeded trees, exclusion patterns, argument lists and walk schedules; files written against an independent selection model", CLI + "Links to files and to directories are generated; broken links only as arguments."),
 "F08": ("exploration", SIM + "seeded nestings of valid, broken and unreadable configuration files; effect of every option against a model", CLI + "A configuration file whose stat fails counts as absent."),
 "W01": ("exploration", SIM + "seeded message streams cut at seeded places and interleaved over a simulated transport; decoded messages against a reference", "Real code: the codec of crates/lsp_test and tokio-util's FramedRead. "),
 "W02": ("fault_enumeration", SIM + "seeded malformed messages between well-formed ones; errors reported and messages recovered against a reference", "Real code: the codec of crates/lsp_test. "),
 "L01": ("exploration", SIM + "seeded edit histories in every position encoding over a simulated transport and task schedule; the server's copy of each document against a reference", LSP),
 "L02": ("exploration", SIM + "seeded edit and configuration histories; edits applied by the simulated editor against formatting the reference copy", LSP),
 "L03": ("fault_enumeration", SIM + "seeded sessions with cancelled, malformed and ill-answered exchanges and slow clients; every request id answered once, within bounded simulated time", LSP),
 "L04": ("fault_enumeration", SIM + "seeded histories of configuration edits, notifications, folders and disk faults; effect of every option against a model of the settings in force", LSP),
 "L05": ("fault_enumeration", SIM + "seeded histories over several documents with slow, partial and failing configuration replies; indentation used against a model", LSP),
 "L06": ("fault_enumeration", SIM + "seeded histories of documents, configuration files and the switch; every synchronisation notification against a model", LSP),
 "L07": ("exploration", SIM + "seeded exclusion patterns, trees and reloads; documents left alone against an independent selection model, shared with the command line's check", LSP),
 "L08": ("fault_enumeration", SIM + "seeded ends of a session (shutdown, exit, end of input at a seeded byte, vanished client) with requests in flight; responses, exit status and termination within bounded simulated time", LSP),
 "L09": ("exploration", SIM + "seeded edit histories and ranges in every encoding; bytes outside the touched logical lines and the text inside against a reference", LSP),
 "L10": ("exploration", SIM + "seeded level changes, slow clients and log task schedules; order and level of forwarded records against a model, responses not delayed", LSP),
 "Z01": ("fault_enumeration", SIM + "seeded histories of sessions with crash points, disk faults, cut-off downloads and failing lookups; the returned binary against the host's record", ZED),
 "Z02": ("fault_enumeration", SIM + "seeded histories of sessions with crash points, disk faults and releases; old downloads, files outside and repeated downloads as invariants, recovery once faults stop", ZED),
 "Z03": ("fault_enumeration", SIM + "seeded settings in every reachable state of the storage; returned arguments and options against the settings", ZED),
 "V01": ("fault_enumeration", SIM + "seeded interleavings of lifecycle operations with slow, failing and crashing clients; every start, stop and event against the order asked for, restart after faults stop", VSC),
 "V02": ("fault_enumeration", SIM + "seeded histories of lifecycle operations, failures and setting changes; the terminal contribution as an invariant after every step", VSC),
 "V03": ("exploration", SIM + "seeded documents, languages, settings and item lists, with documents opening and closing while the default answer is awaited; answers against a model", VSC),
 "V04": ("fault_enumeration", SIM + "seeded folder contents, answers, repetitions and failing file operations; files, settings and messages against what was there and what was asked", VSC),
 "V05": ("exploration", SIM + "seeded notifications, editor switches and restarts, on both path flavours; editor options against a model", VSC),
 "V06": ("fault_enumeration", SIM + "seeded answers, failing saves, spawn errors, exits, signals, event orders and output chunkings; spawned command, saves, messages and log against a model", VSC),
 "V07": ("fault_enumeration", SIM + "seeded trust, strategies, settings and executables changing between starts; the command started against a model", VSC + "Trust and executables change between lifecycle operations only."),
 "V08": ("exploration", SIM + "seeded settings at every level changing between starts; initialization options against the user's settings", VSC),
 "V09": ("fault_enumeration", SIM + "seeded edits, editor switches, view commands, restarts, slow and failing requests in virtual time; every request and every shown text against a model", VSC + "The language client sends a change within ten milliseconds, in order."),
 "V10": ("fault_enumeration", SIM + "seeded histories of documents opening, closing and changing language under slow, failing and crashing clients; the documents each running client holds as an invariant after every step", VSC + "The stand-in language client synchronises documents by the selector and middleware it is given, as the published one does."),
 "V11": ("fault_enumeration", SIM + "seeded interleavings of exports, edits, editor switches and restarts with failing requests, dismissed and slow dialogs and failing writes; entries of every archive against the texts the documents showed, outcome of every command", VSC + "Writing an archive succeeds at once or throws; a partly written archive is not simulated."),
}
PENDING = {}
PURE = ("a pure function of its input: no schedule, time, I/O, crash or second party for a simulator to decide, so deterministic simulation adds nothing over plain input generation; "
        "the code behind it (biome_* and tree-sitter dependencies) also does not build in this sandbox")
NA = {"N01": PURE, "N02": PURE, "N03": PURE, "N04": PURE, "N05": PURE, "N06": PURE}
def main():
    props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
    checks, na = [], []
    for p in props:
        if p in CHECKS:
            lvl, tech, note = CHECKS[p]
            checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json", "technique": tech, "level": lvl, "level_note": BASE + note.strip()})
        else: na.append({"property": p, "reason": NA.get(p) or PENDING[p]})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
main()
