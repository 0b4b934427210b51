"""C04: messages are delivered in order and intact however the bytes arrive."""
from common import *
import random, threading, select, fcntl

def headers(h, n, rnd):
    """A well-formed header block for n bytes."""
    L = lambda x, e="\r\n": (x + e).encode()
    cl = {"plain": "Content-Length: %d", "lf": "Content-Length: %d", "lower": "content-length: %d", "upper": "CONTENT-LENGTH: %d", "mixed": "cOnTeNt-LeNgTh:%d", "nospace": "Content-Length:%d",
          "spaces": "Content-Length: \t  %d  \t", "zeros": "Content-Length: 000%d"}.get(h, "Content-Length: %d") % n
    other = rnd.choice(["Content-Type: application/vscode-jsonrpc; charset=utf-8", "X-Content-Length: 3", "Length: 7", "X: %s" % ("y" * rnd.choice([1, 127, 128, 129, 5000])), "no colon at all", ":", "Content-Type:", "{\"a\": 1}", " Content-Length 4"])
    e = "\n" if h == "lf" else "\r\n"
    ls = {"before": [other, cl], "after": [cl, other], "around": [other, cl, other], "twice": ["Content-Length: %d" % rnd.choice([n, 1, 10**6]), cl], "recover": [rnd.choice(["Content-Length: x", "Content-Length:", "Content-Length: -1"]), cl]}.get(h, [cl])
    end = {"blank": " \t\r\n"}.get(h, e)
    return b"".join(L(x, e) for x in ls) + end.encode()
BADLEN = {"none": [], "zero": ["Content-Length: 0"], "neg": ["Content-Length: -5"], "text": ["Content-Length: abc"], "float": ["Content-Length: 1.5"], "hex": ["Content-Length: 0x10"], "tail": ["Content-Length: 5 5"], "plus": ["Content-Length: +5"],
          "empty": ["Content-Length:"], "overflow": ["Content-Length: 18446744073709551617"], "huge": ["Content-Length: 9999999999999"], "max": ["Content-Length: 18446744073709551615"], "other": ["Content-Type: x", "Foo: 12"], "spelling": ["Content-Lenght: 12"], "undone": ["Content-Length: 10", "Content-Length: none"],
          "words": ["garbage"], "unit": ["Content-Length: 12b"]}

def message(b, k, rnd):
    """(bytes, params) of a request to be answered."""
    par = {"ascii": k, "utf8": ["é𝄞€" * rnd.randrange(1, 9), {"ключ": "中"}], "inner": "\r\n\r\nContent-Length: 5\r\n\r\n{\"x\"", "big": ["x" * rnd.choice([4000, 65536, 70001, 300000]), k], "control": "\u0000\u0001\u001f\u007f\u2028",
           "nested": {"a": [{"b": [[[]]] * 5}] * 5}, "escapes": "\"\\/\b", "numbers": [0, -1, 1.5, 2**53, 1e300], "nl": [1, {"a": 2}], "ws": {"k": k}, "ascii-escapes": "é𝄞😀", "null": None}[b]
    m = {"jsonrpc": "2.0", "id": k, "method": "echo", "params": par}
    if b == "nl": t = json.dumps(m, indent=1)
    elif b == "ws": t = " \r\n\t" + json.dumps(m, separators=(" ,\n", "\t: ")) + "\r\n "
    else: t = json.dumps(m, ensure_ascii=b != "utf8")
    return t.encode("utf-8"), par
def bad(b, rnd):
    return {"trunc": b'{"jsonrpc":"2.0","id":1,"method":"echo","params":[1', "extra": b'{"jsonrpc":"2.0","id":1,"method":"echo"}}', "text": b"hello world", "latin": b'{"jsonrpc":"2.0","id":1,"method":"echo","params":"\xe9"}', "quote": b'{"jsonrpc":"2.0","id":1,"method":"echo","params":"a',
            "space": b" ", "newlines": b"\r\n\r\n\r\n", "nul": b"\0\0\0", "two": b'{} {"jsonrpc":"2.0","id":1,"method":"echo"}', "header": b"Content-Length: 5\r\n\r\n", "comma": b'{"jsonrpc":"2.0","id":1,"method":"echo",}', "single": b"{'jsonrpc':'2.0'}",
            "surrogate": b'"\\ud800', "bom": b'\xef\xbb\xbf{"jsonrpc":"2.0","id":77,"method":"nothing"'}[b]
def quiet(b):
    return {"note": b'{"jsonrpc":"2.0","method":"nothing","params":1}', "array": b"[]", "number": b"5", "nover": b'{"id":1,"method":"echo"}', "reply": b'{"jsonrpc":"2.0","id":12345,"result":1}', "string": b'"x"', "batch": b'[{"jsonrpc":"2.0","id":1,"method":"echo"}]'}[b]

def material(case, rnd):
    out, par = b"", {}
    for k, f in enumerate(case["frames"], 1):
        if f["t"] == "badhdr":
            out += b"".join((x + "\r\n").encode() for x in BADLEN[f["h"]]) + b"\r\n"
            if f["b"] == "line": out += b'{"jsonrpc":"2.0","id":99,"method":"echo"}\r\n'
            continue
        if f["t"] == "msg": b, par[str(k)] = message(f["b"], k, rnd)
        elif f["t"] == "quiet": b = quiet(f["b"])
        elif f["t"] == "exit": b = b'{"jsonrpc":"2.0","method":"exit"}'
        else: b = bad(f["b"], rnd)
        h = headers(f["h"], len(b), rnd)
        out += h + b
        if k == len(case["frames"]) and case["cut"] != "whole":
            keep = rnd.randrange(0, len(b)) if case["cut"] == "body" else -rnd.randrange(1, len(h))
            out = out[:len(out) - len(b) + keep]
    return out, par

def drain_wait(p, secs):
    """Until the server has read all that was written."""
    end = time.time() + secs
    while time.time() < end:
        n = int.from_bytes(fcntl.ioctl(p.stdin.fileno(), 0x541B, b"\0\0\0\0"), "little")   # FIONREAD
        if n == 0: return
        time.sleep(0.0002)

def frames_of(b):
    """The messages in the server's output, strictly; a string if it is none."""
    out = []
    while b:
        m = re.match(rb"Content-Length: (\d+)\r\n\r\n", b)
        if not m: return "%r where a header has to be" % b[:80]
        n = int(m.group(1))
        body, b = b[m.end():m.end() + n], b[m.end() + n:]
        if len(body) < n: return "a frame is cut short: %r" % body[-80:]
        try: out.append(json.loads(body))
        except ValueError: return "a frame that is no JSON: %r" % body[:80]
    return out

def play(exe, case, rnd, env):
    data, par = material(case, rnd)
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, **ASAN_ENV, **env))
    buf = []
    t = threading.Thread(target=lambda: buf.append(p.stdout.read()), daemon=True)
    t.start()
    how = rnd.choice(["whole", "whole", "bytes", "random", "lines"])
    cuts = {"whole": [], "bytes": list(range(1, min(len(data), 400))), "random": sorted(rnd.sample(range(1, len(data)), min(len(data) - 1, rnd.randrange(1, 12)))) if len(data) > 2 else [],
            "lines": [i + 1 for i, x in enumerate(data[:3000]) if x == 10]}[how]
    try:
        a = 0
        for z in cuts + [len(data)]:
            p.stdin.write(data[a:z]); p.stdin.flush()
            a = z
            if z < len(data): drain_wait(p, 0.02)
        if rnd.random() < .3: time.sleep(0.002)
        if "exit" not in case["want"] or rnd.random() < .5: p.stdin.close()
    except BrokenPipeError:
        if "exit" not in case["want"]: return "the server stops reading", data
    try: p.wait(30)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        return "the server does not end", data
    finally:
        try: p.stdin.close()
        except OSError: pass
    t.join(10)
    got = frames_of(buf[0])
    if isinstance(got, str): return "the output is broken: " + got, data
    want = [{"jsonrpc": "2.0", "id": int(k), "result": par[k]} for k in case["want"] if k != "exit"]
    if got != want:
        ids = lambda ms: [m.get("id") for m in ms]
        if ids(got) != ids(want): return "answers to %s are received instead of %s" % (ids(got), ids(want)), data
        a, b = next((json.dumps(x), json.dumps(y)) for x, y in zip(got, want) if x != y)
        d = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
        return "the answer …%s is received instead of …%s" % (a[max(0, d - 30):d + 60], b[max(0, d - 30):d + 60]), data
    if p.returncode < 0: return "killed by signal %d" % -p.returncode, data

def writers(exe, rnd, env, threads, n, pad):
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, **ASAN_ENV, **env))
    m = lambda **k: (lambda b: b"Content-Length: %d\r\n\r\n" % len(b) + b)(json.dumps(dict({"jsonrpc": "2.0"}, **k)).encode())
    buf = []
    t = threading.Thread(target=lambda: buf.append(p.stdout.read()), daemon=True)
    t.start()
    p.stdin.write(m(method="storm", params={"threads": threads, "calls": 0, "notes": n, "pad": "é" * pad}))
    for i in range(n): p.stdin.write(m(id=i, method="echo", params="y" * pad))
    p.stdin.close()
    try: p.wait(60)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        return "the server does not end"
    t.join(10)
    got = frames_of(buf[0])
    if isinstance(got, str): return got
    for th in range(threads):
        x = [g["params"]["from"] for g in got if g.get("method") == "note" and g["params"]["from"].startswith("%d-" % th)]
        if x != ["%d-%d" % (th, i) for i in range(n)]: return "of thread %d the messages %s arrive" % (th, x)
    if any(g.get("method") == "note" and g["params"]["pad"] != "é" * pad for g in got): return "a message is changed"
    if [g for g in got if "id" in g] != [{"jsonrpc": "2.0", "id": i, "result": "y" * pad} for i in range(n)]: return "replies are lost or changed"

H = ["plain", "lf", "lower", "upper", "mixed", "nospace", "spaces", "zeros", "before", "after", "around", "twice", "recover", "blank"]
B = ["ascii", "utf8", "inner", "big", "control", "nested", "escapes", "numbers", "nl", "ws", "ascii-escapes", "null"]
BB = ["trunc", "extra", "text", "latin", "quote", "space", "newlines", "nul", "two", "header", "comma", "single", "surrogate", "bom"]
Q = ["note", "array", "number", "nover", "reply", "string", "batch"]
setof = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"

def run(c):
    exe = c.build("rpc_h")
    rnd = random.Random(c.seed)
    one = dict(Headers='{"plain"}', BadHeaders='{"none"}', Bodies='{"ascii"}', BadBodies='{"text"}', Quiet='{"note"}', MinFrames=0)
    for hup, n in (("TRUE", 2), ("FALSE", c.pick(2, 3))):
        r = c.tlc("Framing", dict(one, MaxFrames=n, Hup=hup, Interleave="TRUE"), invariants=["Prefix", "Whole"], name="reader_%s" % hup, may_fail=True)
        if r.violated != (hup == "TRUE"): raise Inconclusive("TLC's verdict on the reader is unexpected")
    for lk in ("FALSE", "TRUE"):
        r = c.tlc("Writers", dict(Threads='{"a", "b", "c"}', Messages=2, Parts=2, Locked=lk), invariants=["OneAtATime", "InOrder", "All"], name="writers_%s" % lk, may_fail=True)
        if r.violated != (lk == "FALSE"): raise Inconclusive("TLC's verdict on the writers is unexpected")
    inv = ["Prefix", "Whole", "Emit"]
    cases = c.tlc("Framing", dict(Headers=setof(H), BadHeaders=setof(BADLEN), Bodies=setof(B), BadBodies=setof(BB), Quiet=setof(Q), MinFrames=1, MaxFrames=1, Hup="FALSE", Interleave="FALSE"), invariants=inv, name="single").cases
    # each frame once more before and after a plain message
    cases = [k for k in cases]
    plain = {"t": "msg", "h": "plain", "b": "ascii"}
    r = c.tlc("Framing", dict(Headers='{"plain", "lf"}', BadHeaders=setof(BADLEN), Bodies='{"ascii"}', BadBodies=setof(BB), Quiet=setof(Q), MinFrames=2, MaxFrames=2, Hup="FALSE", Interleave="FALSE"), invariants=inv, name="pairs")
    pairs = [k for k in r.cases if k["frames"][1] == plain or k["frames"][0]["t"] == "exit"]
    cases += pairs
    r = c.tlc("Framing", dict(Headers=setof(H), BadHeaders=setof(BADLEN), Bodies=setof(B), BadBodies=setof(BB), Quiet=setof(Q), MinFrames=2, MaxFrames=12, Hup="FALSE", Interleave="FALSE"), invariants=inv, name="long", simulate=c.pick(250, 6000), depth=60, workers=1)
    cases += r.cases
    cases = list({json.dumps(k): k for k in cases}.values())
    if not c.thorough and len(cases) > 1700: cases = rnd.sample(cases, 1700)
    jobs = [("in", k) for k in cases]
    for th in (2, 4, 8):
        for n, pad in ((30, 3), (20, 2000), (6, 70000), (200, 0)):
            for _ in range(c.pick(2, 30)): jobs.append(("out", (th, n, pad)))
    rnd.shuffle(jobs)
    lock, errs = threading.Lock(), []
    def work(k):
        try:
            for n in range(k, len(jobs), 14):
                kind, x = jobs[n]
                r2 = random.Random(c.seed * 104729 + n)
                env = {}
                if r2.random() < .5: env["VERIF_IO"] = "%d,%d" % (n, r2.choice([20, 300, 900]))
                if kind == "out" and r2.random() < .7: env["VERIF_SCHED"] = "%d,%s" % (n, r2.choice(["100,300", "500,100"]))
                w = play(exe, x, r2, env) if kind == "in" else writers(exe, r2, env, *x)
                with lock:
                    c.validated += 1
                    if w and kind == "in":
                        c.violation("%s for frames %s, %s (%s): the stream is %r" % (w[0], x["frames"], x["cut"], env, w[1][:300]), {"case": x, "env": env, "stream": w[1].hex()})
                    elif w: c.violation("%d threads writing %d messages of %d characters (%s): %s" % (x + (env, w)), {"case": x, "env": env})
                    elif kind == "in" and len(x["frames"]) > 4: c.sample(x, 3)
        except Exception as e: errs.append(e); raise
    ts = [threading.Thread(target=work, args=(k,)) for k in range(14)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]

if __name__ == "__main__":
    main(run, "C04")
