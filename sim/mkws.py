#!/usr/bin/env python3
"""Builds a cargo workspace around /repo's working tree: every crate's sources are symlinked, dependencies that
are not available offline are replaced by the stand-ins in shims/, and one harness crate is added.
usage: mkws.py cli|lsp|codec   (prints the workspace directory)"""
import os, re, shutil, sys, tomllib
SIM = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD") or os.path.join(os.path.dirname(SIM), "build")
HARNESS = not os.environ.get("SIM_NO_HARNESS")
CRATES = {
    "cli": ["crates", "fs", "line_ending", "settings", "workspace", "air"],
    "lsp": ["aether_lsp_utils", "crates", "fs", "line_ending", "settings", "workspace", "lsp", "air"],
    "codec": [],
    "zed": ["../editors/zed"],
}
SHIMS = {  # dependency name -> directory in shims/
    n: n for n in ["biome_formatter", "biome_line_index", "biome_rowan", "biome_text_size", "biome_parser", "air_r_factory", "air_r_formatter",
                   "air_r_parser", "air_r_syntax", "colored", "clap_complete", "dissimilar", "strum", "struct-field-names-as-array",
                   "tree-sitter", "tree-sitter-r", "tower-lsp", "zed_extension_api"]}
def table(d, ind=""):
    if isinstance(d, bool): return "true" if d else "false"
    if isinstance(d, (int, float)): return str(d)
    if isinstance(d, str): return '"' + d.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(d, list): return "[" + ", ".join(table(x) for x in d) + "]"
    return "{ " + ", ".join(f'"{k}" = {table(v)}' for k, v in d.items()) + " }"
def write(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    with open(path, "w") as f: f.write(text)
def dump(doc):
    out = []
    for k, v in doc.items():
        if isinstance(v, dict) and v and k not in ("lints",):
            simple = {a: b for a, b in v.items()}
            out.append(f"[{k}]")
            for a, b in simple.items(): out.append(f'"{a}" = {table(b)}')
            out.append("")
        elif not isinstance(v, dict):
            out.insert(0, f"{k} = {table(v)}")
    return "\n".join(out) + "\n"
def offline_lock(text):
    """/repo's lock without the packages this machine does not have: cargo picks the nearest one it has."""
    have = set()
    base = os.path.join(os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo"), "registry/cache")
    for d in os.listdir(base): have |= {f[:-6] for f in os.listdir(f"{base}/{d}") if f.endswith(".crate")}
    head, *blocks = text.split("[[package]]\n")
    keep = []
    for b in blocks:
        f = dict(re.findall(r'^(name|version|source) = "([^"]*)"', b, re.M))
        if "source" in f and (not f["source"].startswith("registry") or f"{f['name']}-{f['version']}" not in have): continue
        keep.append(b)
    return "[[package]]\n".join([head] + keep)
def harness(kind, ws):
    hname = {"cli": "harness_cli", "lsp": "harness_lsp", "codec": "harness_codec", "zed": "harness_zed"}[kind]
    h = f"{ws}/harness"
    os.makedirs(h, exist_ok=True)
    hs = f"{SIM}/{hname}"
    for e in os.listdir(hs):
        if e in ("Cargo.toml", "target"): continue
        p = os.path.join(h, e)
        if not os.path.islink(p): os.symlink(os.path.join(hs, e), p)
    write(f"{h}/Cargo.toml", open(f"{hs}/Cargo.toml").read().replace("@SIM@", SIM).replace("@REPO@", REPO).replace("@WS@", ws))
def main(kind):
    ws = os.path.join(BUILD, "ws-" + kind)
    os.makedirs(os.path.join(ws, "crates"), exist_ok=True)
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    deps = root["workspace"]["dependencies"]
    members = []
    for c in CRATES[kind]:
        src = f"{REPO}/crates/{c}"
        c = os.path.basename(c)
        dst = f"{ws}/crates/{c}"
        os.makedirs(dst, exist_ok=True)
        for e in os.listdir(dst):
            p = os.path.join(dst, e)
            if os.path.islink(p) and (not os.path.lexists(os.path.join(src, e))): os.unlink(p)
        for e in os.listdir(src):
            if e in ("Cargo.toml", "tests", "benches", "examples", "target"): continue
            p = os.path.join(dst, e)
            if not os.path.islink(p): os.symlink(os.path.join(src, e), p)
        doc = tomllib.load(open(f"{src}/Cargo.toml", "rb"))
        for k in ("dev-dependencies", "lints", "badges", "bench", "test"): doc.pop(k, None)
        doc["package"].pop("metadata", None)
        doc.get("lib", {}).pop("crate-type", None)
        for n in set(doc.get("dependencies", {})) & set(SHIMS): # dependencies that are not the workspace's
            if not (isinstance(doc["dependencies"][n], dict) and doc["dependencies"][n].get("workspace")): doc["dependencies"][n] = {"path": f"{ws}/shims/{SHIMS[n]}"}
        write(f"{dst}/Cargo.toml", dump(doc))
        members.append(f"crates/{c}")
    # the stand-ins move into the workspace (some of them use workspace dependencies)
    for n in sorted(os.listdir(f"{SIM}/shims")):
        src, dst = f"{SIM}/shims/{n}", f"{ws}/shims/{n}"
        os.makedirs(dst, exist_ok=True)
        for e in os.listdir(src):
            if e == "Cargo.toml": write(f"{dst}/{e}", open(f"{src}/{e}").read())
            elif e != "target" and not os.path.islink(f"{dst}/{e}"): os.symlink(f"{src}/{e}", f"{dst}/{e}")
    newdeps = {}
    for n, v in deps.items():
        v = {"version": v} if isinstance(v, str) else dict(v)
        if n in SHIMS:
            v = {"path": f"{ws}/shims/{SHIMS[n]}"} | {k: x for k, x in v.items() if k == "features" and n == "biome_formatter"}
        elif n == "lsp" and kind == "cli": v = {"path": f"{ws}/shims/lsp_stub"}
        elif "path" in v:
            name = os.path.basename(v["path"])
            v["path"] = f"{ws}/crates/{name}" if name in CRATES[kind] else f"{REPO}/crates/{name}"
        newdeps[n] = v
    if HARNESS:
        newdeps["simrt"] = {"path": f"{SIM}/simrt"}
        harness(kind, ws)
        members += ["harness"]
    out = ["[workspace]", 'resolver = "2"', f"members = {table(members)}", "", "[workspace.package]"]
    for k, v in root["workspace"]["package"].items(): out.append(f"{k} = {table(v)}")
    out += ["", "[workspace.dependencies]"]
    for n, v in newdeps.items(): out.append(f'"{n}" = {table(v)}')
    if kind == "lsp": out += ["", "[patch.crates-io]", 'num_threads = { path = "shims/num_threads" }']
    out += ["", "[profile.dev]", "opt-level = 1", "debug = 0", "debug-assertions = true", "overflow-checks = true", "panic = \"unwind\"", "incremental = false", "", '[profile.dev.package."*"]', "opt-level = 0"]
    # what every simulated run spends its time in
    for n in ["regex-automata", "aho-corasick", "globset", "ignore", "serde_json", "memchr", "crossbeam-deque", "crossbeam-epoch"]:
        if kind in ("cli", "lsp") or n in ("serde_json", "memchr"): out += [f"[profile.dev.package.{n}]", "opt-level = 1"]
    out.append("")
    write(f"{ws}/Cargo.toml", "\n".join(out))
    lock = f"{ws}/Cargo.lock"
    if not os.path.exists(lock): write(lock, offline_lock(open(f"{REPO}/Cargo.lock").read()))
    print(ws)
if __name__ == "__main__": main(sys.argv[1])
