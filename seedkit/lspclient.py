"""A small editor: speaks LSP with `air language-server` over pipes. usage: python3 script.py AIR DIRECTORY"""
import json, os, queue, subprocess, sys, threading, time, urllib.parse
AIR, DIR = sys.argv[1], os.path.realpath(sys.argv[2])
TIMEOUT = 30
def uri(p): return "file://" + urllib.parse.quote(os.path.join(DIR, p))
def write(p, text):
    p = os.path.join(DIR, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="") as f: f.write(text)
def check(ok, why):
    if not ok:
        print("DEMO FAILS:", why, file=sys.stderr)
        os._exit(1)
class Server:
    def __init__(self, folders=("",), name="demo", options=None, utf8=False, config=None, env=None):
        """config: a function from a list of configuration items to their values (None: the capability is off)"""
        e = dict(os.environ); e.pop("AIR_LOG_LEVEL", None); e.update(env or {})
        self.p = subprocess.Popen([AIR, "language-server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=DIR, env=e)
        self.q, self.config, self.n, self.replies, self.notes, self.asked = queue.Queue(), config, 0, {}, [], []
        threading.Thread(target=self._read, daemon=True).start()
        caps = {"workspace": {"configuration": config is not None}}
        if utf8: caps["general"] = {"positionEncodings": ["utf-8"]}
        p = {"processId": None, "capabilities": caps, "clientInfo": {"name": name}, "workspaceFolders": [{"uri": uri(f), "name": "f"} for f in folders]}
        if options is not None: p["initializationOptions"] = options
        self.init = self.request("initialize", p)
        self.notify("initialized", {})
    def _read(self):
        f = self.p.stdout
        try:
            while True:
                n = 0
                while True:
                    l = f.readline()
                    if not l: self.q.put(None); return
                    l = l.strip()
                    if not l: break
                    if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
                self.q.put(json.loads(f.read(n)))
        except Exception as e: self.q.put(None)
    def raw(self, m):
        b = json.dumps(m).encode()
        try:
            self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b); self.p.stdin.flush()
        except (BrokenPipeError, ValueError): pass
    def notify(self, method, params): self.raw({"jsonrpc": "2.0", "method": method, "params": params})
    def send(self, method, params):
        self.n += 1
        m = {"jsonrpc": "2.0", "id": self.n, "method": method}
        if params is not None: m["params"] = params
        self.raw(m)
        return self.n
    def pump(self, until, timeout=TIMEOUT):
        end = time.time() + timeout
        while not until():
            try: m = self.q.get(timeout=max(0.01, end - time.time()))
            except queue.Empty: return False
            if m is None: return until()
            if "method" in m and "id" in m:
                self.asked.append(m)
                if m["method"] == "workspace/configuration":
                    r = self.config(m["params"]["items"])
                    self.raw({"jsonrpc": "2.0", "id": m["id"], **({"error": {"code": -32603, "message": "no"}} if r is None else {"result": r})})
                else: self.raw({"jsonrpc": "2.0", "id": m["id"], "result": None})
            elif "method" in m: self.notes.append(m)
            else: self.replies.setdefault(m.get("id"), []).append(m)
        return True
    def wait(self, n, timeout=TIMEOUT):
        check(self.pump(lambda: n in self.replies, timeout), f"request {n} is not answered")
        return self.replies[n][0]
    def request(self, method, params): return self.wait(self.send(method, params))
    def quiet(self):
        """everything sent so far has been handled, and what follows from it has arrived"""
        self.request("air/viewFile", {"textDocument": {"uri": "probe:x"}, "position": {"line": 0, "character": 0}, "kind": "SyntaxTree"})
        self.pump(lambda: False, 0.5)
    def open(self, u, text): self.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "r", "version": 1, "text": text}})
    def change(self, u, version, changes): self.notify("textDocument/didChange", {"textDocument": {"uri": u, "version": version}, "contentChanges": changes})
    def format(self, u, size=2, spaces=True): return self.request("textDocument/formatting", {"textDocument": {"uri": u}, "options": {"tabSize": size, "insertSpaces": spaces}})
    def format_range(self, u, a, b, size=2, spaces=True): return self.request("textDocument/rangeFormatting", {"textDocument": {"uri": u}, "range": rng(a, b), "options": {"tabSize": size, "insertSpaces": spaces}})
    def watch(self, *paths): self.notify("workspace/didChangeWatchedFiles", {"changes": [{"uri": uri(p), "type": 2} for p in paths]})
    def kill(self): self.p.kill()
def rng(a, b): return {"start": {"line": a[0], "character": a[1]}, "end": {"line": b[0], "character": b[1]}}
def values(sync=None, level=None, dep=None, doc=(None, None, None)):
    """answers configuration items"""
    d = {"editor.insertSpaces": doc[0], "editor.indentSize": doc[1], "editor.tabSize": doc[2], "air.logLevel": level, "air.dependencyLogLevels": dep, "air.syncFileSettingsWithClient": sync}
    return lambda items: [d.get(i.get("section")) for i in items]
def _offset(text, pos, utf8):
    lines = text.split("\n")
    l = lines[pos["line"]]
    b = l.encode("utf-8" if utf8 else "utf-16-le")[:pos["character"] * (1 if utf8 else 2)]
    return sum(len(x) + 1 for x in lines[:pos["line"]]) + len(b.decode("utf-8" if utf8 else "utf-16-le"))
def apply(text, edits, utf8=False):
    """the text after a response's edits"""
    es = [(_offset(text, e["range"]["start"], utf8), _offset(text, e["range"]["end"], utf8), e["newText"]) for e in edits or []]
    for a, b, n in sorted(es, reverse=True): text = text[:a] + n + text[b:]
    return text
def formatted(text, answer, utf8=False):
    check("result" in answer, f"formatting fails: {answer.get('error')}")
    return apply(text, answer["result"], utf8)
