# Drives the language server built in ./vscode-client/out from a scratch directory of its own.
import atexit, json, os, select, shutil, subprocess, sys, tempfile, time

class Server:
    def __init__(self, *args, settings=None, env=None, root=None, macros=None, log=None):
        self.own = root is None
        self.dir = root or tempfile.mkdtemp(prefix="seeded")
        if self.own:
            atexit.register(shutil.rmtree, self.dir, True)
            shutil.copytree("conf", os.path.join(self.dir, "conf"))
        a = [os.path.join(self.dir, "nclangsrv")] + list(args)
        if settings: a += ["--ncsetting-path", settings]
        if macros: a += ["--macro-desc-path", macros]
        if log: a += ["--log-path", log]
        self.p = subprocess.Popen(a, executable=os.path.abspath("vscode-client/out/nclangsrv"), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=dict(os.environ, **(env or {})), bufsize=0)
        self.buf = b""
        self.id = 0
    def send(self, o):
        b = o if isinstance(o, bytes) else json.dumps(o).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
    def recv(self, t=20):
        end = time.monotonic() + t
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i >= 0:
                n = int(self.buf[:i].split(b":")[1])
                if len(self.buf) >= i + 4 + n:
                    m = self.buf[i + 4:i + 4 + n]
                    self.buf = self.buf[i + 4 + n:]
                    return json.loads(m)
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.monotonic()))
            d = os.read(self.p.stdout.fileno(), 65536) if r else b""
            if not d:
                raise SystemExit("no answer")
            self.buf += d
    def req(self, method, params=None):
        self.id += 1
        self.send({"jsonrpc": "2.0", "id": self.id, "method": method, "params": params or {}})
        m = self.recv()
        if m.get("id") != self.id:
            raise SystemExit("unexpected answer %r" % m)
        return m.get("result")
    def open(self, uri, text):
        self.send({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "text": text}}})
        return self.recv()["params"]["diagnostics"]
    def change(self, uri, text):
        self.send({"jsonrpc": "2.0", "method": "textDocument/didChange",
                   "params": {"textDocument": {"uri": uri}, "contentChanges": [{"text": text}]}})
        return self.recv()["params"]["diagnostics"]
    def hover(self, uri, line, ch):
        return self.req("textDocument/hover", {"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}})
    def lens(self, uri):
        return self.req("textDocument/codeLens", {"textDocument": {"uri": uri}})
    def kill(self):
        self.p.kill(); self.p.wait()

def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
