"""A minimal LSP client over a child's stdio, used to drive the real server."""
import json, os, select, subprocess, threading, queue, time

class Server:
    def __init__(self, exe, args=(), env=None, stderr=None):
        self.p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=stderr if stderr is not None else subprocess.DEVNULL,
                                  env=dict(os.environ, **(env or {})))
        self.q = queue.Queue()
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()
        self.id = 0
        self.log = []          # every message received, in order

    def _read(self):
        f = self.p.stdout
        try:
            while True:
                n = None
                while True:
                    line = f.readline()
                    if not line:
                        self.q.put(None); return
                    line = line.strip()
                    if not line:
                        break
                    k, _, v = line.partition(b":")
                    if k.lower() == b"content-length":
                        n = int(v)
                if n is None:
                    continue
                body = f.read(n)
                if len(body) < n:
                    self.q.put(None); return
                self.q.put(json.loads(body))
        except Exception as e:
            self.q.put({"__bad__": repr(e)})
            self.q.put(None)

    def raw(self, data):
        try:
            self.p.stdin.write(data); self.p.stdin.flush()
            return True
        except (BrokenPipeError, OSError, ValueError):
            return False

    def send(self, msg):
        b = json.dumps(msg).encode()
        return self.raw(b"Content-Length: %d\r\n\r\n" % len(b) + b)

    def notify(self, method, params=None):
        m = {"jsonrpc": "2.0", "method": method}
        m["params"] = params if params is not None else {}
        return self.send(m)

    def request(self, method, params=None, id=None):
        if id is None:
            self.id += 1
            id = self.id
        self.send({"jsonrpc": "2.0", "id": id, "method": method, "params": params if params is not None else {}})
        return id

    def recv(self, timeout=20):
        try:
            m = self.q.get(timeout=timeout)
        except queue.Empty:
            raise TimeoutError("no message from server")
        if m is not None:
            self.log.append(m)
        return m

    def wait_reply(self, id, timeout=20, other=None):
        """The reply to id; anything else goes to other()."""
        end = time.time() + timeout
        while True:
            m = self.recv(max(0.01, end - time.time()))
            if m is None:
                raise EOFError("server closed its output")
            if m.get("id") == id and "method" not in m:
                return m
            if other:
                other(m)

    def close(self, timeout=10):
        try: self.p.stdin.close()
        except Exception: pass
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill(); self.p.wait()
            return "timeout"
