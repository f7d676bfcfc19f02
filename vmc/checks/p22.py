"""P22: the cache of downloaded data survives crashes, truncation and races.

The real code runs against an HTTP server on the loopback interface whose answers are scripted, in a scratch folder.
Process death is a forked child that ends without any cleanup at the k-th step; a step is a line of the module under test,
an audited operation of the interpreter (open, rename, remove, mkdir, connect ...) or a chunk of a written file."""

import itertools
import json
import os
import pickle
import shutil
import socket
import struct
import sys
import tempfile
import threading
import time

import numpy as np

PROPERTY = "P22"
RULE = ("every state is one crash point, fault sequence or schedule of the real download code with a scripted server; a trace is one complete history ending with loads while the server is up and down; outcomes are distinct (answers, directory contents)")
BOUNDS = {
    "quick": "all histories of 1-3 loads x 10 server behaviours (refused, silent, error status, garbage, truncated or reset at every 5th byte, truncated chunks, too slow) x formats; process death at every line, every audited "
             "operation and every 7-byte chunk written, twice in a row; an I/O error at every audited operation and at every pair of them; two loads interleaved with up to 2 preemptions at every line, with both, one or no answer "
             "complete, and one of them dying at any line; bundled copies and environment settings",
    "thorough": "as quick with every byte of truncation, 3-byte chunks and 3 preemptions",
}

ROWS = np.array([[i + 0.5, 10 * i, -i] for i in range(6)])
TEXT = "\n".join(" ".join("%g" % v for v in r) for r in ROWS).encode() + b"\n"
OBJ = {"a": [1, 2, 3], "b": {"c": "value", "d": [0.5, None]}}
JSON = json.dumps(OBJ).encode()
ARGS = {"numpy": ("pymoo", "pf", "data.pf"), "path": ("pymoo", "pf", "data.pf"), "json": ("pymoo", "x.json")}
BODY = {"numpy": TEXT, "path": TEXT, "json": JSON}


class Server:
    """One answer per request, taken from a script; then the last answer again."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.count = 0
        self.script = ["ok"]
        self.body = TEXT
        self.open = True
        threading.Thread(target=self.serve, daemon=True).start()

    def url(self):
        return "http://127.0.0.1:%d/" % self.port

    def serve(self):
        while self.open:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.answer, args=(c,), daemon=True).start()

    def answer(self, c):
        try:
            c.settimeout(5)
            q = b""
            while b"\r\n\r\n" not in q:
                d = c.recv(4096)
                if not d:
                    return
                q += d
            b = self.script[min(self.count, len(self.script) - 1)]
            self.count += 1
            kind, _, arg = b.partition(":")
            body = self.body
            head = b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nConnection: close\r\n"
            full = head + b"Content-Length: %d\r\n\r\n" % len(body)
            if kind == "ok":
                c.sendall(full + body)
            elif kind == "okchunk":
                c.sendall(head + b"Transfer-Encoding: chunked\r\n\r\n" + b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + 9]), body[i:i + 9]) for i in range(0, len(body), 9)) + b"0\r\n\r\n")
            elif kind == "chunk":
                part = body[:int(arg)]
                c.sendall(head + b"Transfer-Encoding: chunked\r\n\r\n" + b"".join(b"%x\r\n%s\r\n" % (len(part[i:i + 9]), part[i:i + 9]) for i in range(0, len(part), 9)))
            elif kind == "trunc":
                c.sendall(full + body[:int(arg)])
            elif kind == "reset":
                c.sendall(full + body[:int(arg)])
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif kind == "status":
                c.sendall(b"HTTP/1.1 %s Error\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % (arg.encode(), len(body)) + body)
            elif kind == "garbage":
                c.sendall(body)
            elif kind == "hang":
                c.sendall(full + body[:20])
                time.sleep(1.0)
            elif kind == "silent":
                pass
        except OSError:
            pass
        finally:
            c.close()

    def close(self):
        self.open = False
        self.sock.close()


class Scratch:
    def __init__(self):
        self.top = tempfile.mkdtemp(prefix="vmc-p22-")
        self.n = 0

    def new(self):
        self.n += 1
        d = os.path.join(self.top, "c%d" % self.n)
        return d

    def done(self, d):
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def remote():
    import pymoo.util.remote as m
    if hasattr(m, "DOWNLOAD_TIMEOUT"):
        m.DOWNLOAD_TIMEOUT = 0.3
    socket.setdefaulttimeout(0.6)
    return m


def free_url():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return "http://127.0.0.1:%d/" % p


def complete(to, v):
    if to == "numpy":
        return isinstance(v, np.ndarray) and v.shape == ROWS.shape and np.allclose(v, ROWS)
    if to == "json":
        return v == OBJ
    return isinstance(v, str) and os.path.isfile(v) and open(v, "rb").read() == TEXT


def attempt(url, folder, to, package=None):
    """'full', 'error' or what was returned instead."""
    try:
        v = remote().Remote(url, folder, package).load(*ARGS[to], to=to)
    except Exception:
        return "error"
    return "full" if complete(to, v) else "partial: %r" % (v,)


def files(folder):
    out = []
    for d, _, fs in os.walk(folder):
        out += [os.path.relpath(os.path.join(d, f), folder) for f in fs]
    return sorted(out)


def dest_state(folder, to):
    f = os.path.join(folder, *ARGS[to])
    if not os.path.exists(f):
        return "absent"
    return "full" if open(f, "rb").read() == BODY[to] else "partial"


def settle(ctx, srv, folder, to, key, must=None, **d):
    """After any history: the cached file is complete or absent; without network it is returned whole or an error is raised; with network it is returned whole."""
    s = dest_state(folder, to)
    ctx.check(s != "partial", "cached:%s" % key, "an incomplete file is left where a valid one is expected", files=files(folder), **d)
    if must:
        ctx.check(s == must, "state:%s" % key, "the cache is %s, expected %s" % (s, must), **d)
    r = attempt(DOWN, folder, to)
    ctx.trans()
    ctx.check(r == ("full" if s == "full" else "error"), "offline:%s" % key, "a load without network gives %s although the cached file is %s" % (r, s), **d)
    srv.script, srv.count, srv.body = ["ok"], 0, BODY[to]
    r = attempt(srv.url(), folder, to)
    ctx.trans()
    ctx.check(r == "full", "online:%s" % key, "a load with the server up gives %s" % r, **d)
    ctx.check(srv.count == (0 if s == "full" else 1), "requests:%s" % key, "%d requests are made although the cached file is %s" % (srv.count, s), **d)
    ctx.check(attempt(DOWN, folder, to) == "full", "kept:%s" % key, "a file just downloaded is not used", **d)
    ctx.outcome(key, s, r, len(files(folder)))


DOWN = "http://127.0.0.1:9/"


def setup():
    global DOWN
    DOWN = free_url()
    return Server(), Scratch()


def behaviours(to, step):
    n = len(BODY[to])
    b = ["ok", "okchunk", "down", "silent", "status:404", "status:500", "garbage", "hang"]
    b += ["trunc:%d" % j for j in range(0, n, step)] + ["trunc:%d" % (n - 1)]
    b += ["reset:%d" % j for j in range(0, n, max(step, 10))] + ["chunk:%d" % j for j in range(0, n + 1, max(step, 10))] + ["chunk:%d" % n]
    return b


def u_history(ctx, to, step, depth, slow):
    srv, sc = setup()
    try:
        B1 = behaviours(to, step)
        B = [b for b in ("ok", "okchunk", "down", "silent", "status:404", "garbage", "trunc:0", "trunc:25", "reset:25", "chunk:18")]
        hists = [(b,) for b in B1] + [h for n in range(2, depth + 1) for h in itertools.product(B, repeat=n)]
        for h in hists:
            if "hang" in h and not slow:
                continue
            folder = sc.new()
            cached = False
            ctx.state()
            for b in h:
                srv.script, srv.count, srv.body = [b], 0, BODY[to]
                r = attempt(DOWN if b == "down" else srv.url(), folder, to)
                ctx.trans()
                good = cached or b.startswith("ok")
                ctx.check(r == ("full" if good else "error"), "load:%s" % b.split(":")[0], "a load gives %s although the server answers %s%s" % (r, b, " and the file is cached" if cached else ""), history=h)
                ctx.check(srv.count == (0 if cached or b == "down" else 1), "requests", "%d requests for one load%s" % (srv.count, " of a cached file" if cached else ""), history=h)
                cached = good
                ctx.check(files(folder) == ([os.path.join(*ARGS[to])] if cached else []), "left", "unexpected files after a load: %s" % files(folder), history=h)
            settle(ctx, srv, folder, to, "history", must="full" if cached else "absent", history=h)
            ctx.trace()
            sc.done(folder)
    finally:
        srv.close()
        sc.close()


# --- process death and I/O errors at every step ---------------------------------------------------

AUDIT = {"open", "os.rename", "os.remove", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.rmdir", "os.chmod", "os.utime", "shutil.move", "shutil.copyfile", "tempfile.mkstemp", "socket.connect", "socket.__new__"}


def child(action, kind, k, chunk, folder):
    """Run action in a forked process that dies (or meets an I/O error) at the k-th step.  -> (steps seen, result or None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = 0
        try:
            os.close(r)
            hits = [0]

            def step(what):
                hits[0] += 1
                if hits[0] - 1 in k:
                    if kind.startswith("fault"):
                        raise OSError(28, "No space left on device (injected at %s)" % what)
                    os._exit(9)

            if kind == "line":
                name = remote().__file__

                def local(frame, event, arg):
                    if event == "line":
                        step(frame.f_lineno)
                    return local

                def tracer(frame, event, arg):
                    return local if frame.f_code.co_filename == name else None
                remote().__loader__
                sys.settrace(tracer)
            elif kind in ("audit", "fault"):
                def hook(event, args):
                    if event in AUDIT and (event != "open" or in_scratch(args[0], folder)):
                        step(event)
                attempt(DOWN, folder + "-none", "numpy")  # everything is imported before steps are counted
                shutil.rmtree(folder + "-none", ignore_errors=True)
                sys.addaudithook(hook)
            elif kind in ("write", "fault-write"):
                import builtins
                real = builtins.open
                builtins.open = lambda f, mode="r", *a, **kw: Torn(real(f, mode, buffering=0), step, chunk) if "w" in mode and "b" in mode and in_scratch(f, folder) else real(f, mode, *a, **kw)
            res = action()
            sys.settrace(None)
            os.write(w, pickle.dumps((hits[0], res)))
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        out += d
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(out) if out else None


def in_scratch(f, folder):
    try:
        return not isinstance(f, int) and os.path.abspath(os.fspath(f)).startswith(folder)
    except TypeError:
        return False


class Torn:
    """A file written in small chunks, each of them a step."""

    def __init__(self, f, step, chunk):
        self.f, self.step, self.chunk = f, step, chunk

    def write(self, data):
        for i in range(0, len(data), self.chunk):
            self.step("write")
            self.f.write(data[i:i + self.chunk])
        self.step("written")
        return len(data)

    def __getattr__(self, a):
        return getattr(self.f, a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()


def u_crash(ctx, kind, to, chunk, twice):
    """Death (or an I/O error) at every step of one load, then at every step of the next one."""
    srv, sc = setup()
    try:
        def go(folder, k):
            srv.script, srv.count, srv.body = ["ok"], 0, BODY[to]
            url = srv.url()
            return child(lambda: attempt(url, folder, to), kind, k, chunk, folder)

        folder = sc.new()
        total, res = go(folder, ())
        ctx.check(res == "full" and total > 0, "crash:base:%s" % kind, "a load without a fault gives %s" % res)
        sc.done(folder)
        base_left = None
        for k in range(total + 1):
            for k2 in ([None] + list(range(total + 1)) if twice else [None]):
                folder = sc.new()
                ctx.state()
                if kind.startswith("fault"):
                    ks = (k,) if k2 is None else (k, k2)
                    if k2 is not None and k2 <= k:
                        continue
                    out = go(folder, ks)
                    ctx.trans()
                    if ctx.check(out is not None and (out[1] in ("full", "error")), "fault:result", "an I/O error during a load gives %s" % (out and out[1],), steps=ks):
                        if out[1] == "error" and k2 is None:
                            ctx.check(dest_state(folder, to) in ("absent", "full") and all(f == os.path.join(*ARGS[to]) for f in files(folder)), "fault:left", "a failed attempt leaves files behind: %s" % files(folder), steps=ks)
                else:
                    ks = (k, k2)
                    for kk in ks:
                        if kk is None:
                            continue
                        out = go(folder, (kk,))
                        ctx.trans()
                        ctx.check(out is None or out[1] == "full", "crash:result", "a load gives %s" % (out and out[1],), steps=ks)
                        s = dest_state(folder, to)
                        ctx.check(s != "partial", "crash:cached", "process death leaves an incomplete file where a valid one is expected", steps=ks, kind=kind)
                        ctx.check(attempt(DOWN, folder, to) == ("full" if s == "full" else "error"), "crash:offline", "after process death a load without network does not give the cached file or an error", steps=ks, kind=kind)
                settle(ctx, srv, folder, to, "crash-%s" % kind, steps=ks)
                ctx.trace()
                sc.done(folder)
        ctx.sample(dict(kind=kind, steps=total))
    finally:
        srv.close()
        sc.close()


# --- two loads at once -------------------------------------------------------------------------------

class Actor(threading.Thread):
    def __init__(self, fn, name):
        super().__init__(daemon=True)
        self.fn, self.file = fn, name
        self.go, self.at = threading.Semaphore(0), threading.Semaphore(0)
        self.result, self.finished = None, False

    def run(self):
        def local(frame, event, arg):
            if event == "line":
                self.at.release()
                self.go.acquire()
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename == self.file else None
        sys.settrace(tracer)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.result = "died: %r" % e
        finally:
            sys.settrace(None)
            self.finished = True
            self.at.release()

    def step(self):
        """Run to the next line; False if finished or waiting for the other one."""
        if self.finished:
            return False
        self.go.release()
        return self.at.acquire(timeout=1.5)


def schedule(fns, name, first, cuts, abandon=None):
    """Actor `first` runs cuts[0] lines, then the other cuts[1] lines and so on; what is left runs to its end in order.
    abandon = (actor, line): that actor is never scheduled again after that many lines."""
    actors = [Actor(f, name) for f in fns]
    for a in actors:
        a.start()
        a.at.acquire(timeout=5)
    done = [0] * len(actors)
    cur = first

    def may(i):
        return not actors[i].finished and not (abandon and abandon[0] == i and done[i] >= abandon[1])

    for c in cuts:
        for _ in range(c):
            if not may(cur) or not actors[cur].step():
                break
            done[cur] += 1
        cur = 1 - cur
    for _ in range(2):
        for i in (cur, 1 - cur):
            while may(i) and actors[i].step():
                done[i] += 1
    return actors, done


def u_race(ctx, to, first, answers, bound, abandon):
    srv, sc = setup()
    mod = remote()
    name = mod.__file__
    try:
        def one(cuts, ab=None):
            folder = sc.new()
            srv.script, srv.count, srv.body = list(answers), 0, BODY[to]
            url = srv.url()
            fns = [lambda: attempt(url, folder, to)] * 2
            actors, done = schedule(fns, name, first, cuts, ab)
            ctx.state()
            ctx.trans(sum(done))
            d = dict(first=first, cuts=cuts, answers=answers, abandoned=ab)
            for i, a in enumerate(actors):
                if ab and ab[0] == i and not a.finished:
                    continue
                ctx.check(a.finished, "race:stuck", "two loads at once do not end", **d)
                ctx.check(a.result in ("full", "error"), "race:result", "one of two loads at once gives %s" % a.result, **d)
                if all(x.startswith("ok") for x in answers):
                    ctx.check(a.result == "full", "race:error", "one of two loads at once fails although the server answers", **d)
            settle(ctx, srv, folder, to, "race", must="full" if any(a.finished and a.result == "full" for a in actors) else None, **d)
            ctx.trace()
            sc.done(folder)
            return done

        n = max(one(())) + 1
        ctx.sample(dict(lines=n, answers=answers))
        if abandon:
            for who in (0, 1):
                for k in range(n + 1):
                    one((), (who, k))
                    for c in range(0, n + 1, 3):
                        one((c,), (who, k))
        elif bound >= 2:
            for c in itertools.product(range(n + 1), repeat=2):
                one(c)
            if bound >= 3:
                for c in itertools.product(range(0, n + 1), range(1, n + 1, 2), range(1, n + 1, 2)):
                    one(c)
    finally:
        srv.close()
        sc.close()


def u_places(ctx):
    """Cached copy before bundled copy before network; the cache folder follows the environment; a failure is not remembered."""
    srv, sc = setup()
    try:
        for to in ("numpy", "json", "path"):
            for cache, bundle, net in itertools.product((False, True), (False, True), ("ok", "down", "trunc:20")):
                folder, pack = sc.new(), sc.new()
                for have, d in ((cache, folder), (bundle, pack)):
                    if have:
                        f = os.path.join(d, *ARGS[to])
                        os.makedirs(os.path.dirname(f))
                        open(f, "wb").write(BODY[to])
                # other data may be bundled in any case
                os.makedirs(pack, exist_ok=True)
                open(os.path.join(pack, "other.txt"), "wb").write(b"1 2")
                srv.script, srv.count, srv.body = [net], 0, BODY[to]
                before = (files(folder), files(pack))
                r = attempt(DOWN if net == "down" else srv.url(), folder, to, pack)
                ctx.trans()
                ctx.state()
                good = cache or bundle or net == "ok"
                d = dict(cached=cache, bundled=bundle, network=net)
                ctx.check(r == ("full" if good else "error"), "places:result", "a load gives %s" % r, **d)
                ctx.check(srv.count == (0 if cache or bundle or net == "down" else 1), "places:network", "the network is used although a copy exists", **d)
                ctx.check(files(pack) == before[1] and (files(folder) == before[0] or (not cache and not bundle and net == "ok")), "places:written", "files appear where none should", **d)
                ctx.trace()
        data = {}
        for env in itertools.product((False, True), repeat=2):
            d1, d2, home = sc.new(), sc.new(), sc.new()
            for d in (d1, os.path.join(d2, "pymoo"), os.path.join(home, ".cache", "pymoo")):
                f = os.path.join(d, *ARGS["numpy"])
                os.makedirs(os.path.dirname(f))
                open(f, "wb").write(TEXT)
            want = d1 if env[0] else os.path.join(d2, "pymoo") if env[1] else os.path.join(home, ".cache", "pymoo")

            def action():
                for k, on, v in (("PYMOO_DATA_DIR", env[0], d1), ("XDG_CACHE_HOME", env[1], d2)):
                    os.environ.pop(k, None)
                    if on:
                        os.environ[k] = v
                os.environ["HOME"] = home
                return remote().Remote.get_instance().load(*ARGS["numpy"], to="path")
            out = child(action, "none", (), 1, home)
            ctx.trans()
            ctx.state()
            ctx.check(out is not None and os.path.realpath(out[1]) == os.path.realpath(os.path.join(want, *ARGS["numpy"])), "places:env", "the cache folder %s does not follow the environment" % (out and out[1],), data_dir=env[0], xdg=env[1])

        def problem():
            os.environ["PYMOO_DATA_DIR"] = data["d"]
            socket.socket.connect = lambda *a: (_ for _ in ()).throw(OSError("no network"))
            import socket as s
            s.getaddrinfo = lambda *a, **k: (_ for _ in ()).throw(OSError("no network"))
            from pymoo.problems import get_problem
            p = get_problem("kursawe")
            out = []
            for present in data["seq"]:
                f = os.path.join(data["d"], "pymoo", "pf", "kursawe.pf")
                if present:
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    open(f, "wb").write(b"-20 0\n-15 -5\n-18 -2\n")
                try:
                    v = p.pareto_front()
                    out.append(None if v is None else v.tolist())
                except Exception:
                    out.append("error")
            return out

        for n in (1, 2, 3):
            for k in range(n + 1):
                data.update(d=sc.new(), seq=[False] * k + [True] * (n - k))
                out = child(problem, "none", (), 1, data["d"])
                ctx.trans()
                ctx.state()
                ctx.check(out is not None and out[1] == ["error"] * k + [[[-20.0, 0.0], [-18.0, -2.0], [-15.0, -5.0]]] * (n - k), "places:problem", "a reference front after failed attempts is %s" % (out and out[1],), available=data["seq"])
                ctx.trace()
    finally:
        srv.close()
        sc.close()


def units(tier):
    q = tier == "quick"
    U = [("u_places", {})]
    for to in ("numpy", "json", "path"):
        U.append(("u_history", dict(to=to, step=5 if q else 1, depth=3, slow=to == "numpy")))
    for kind in ("line", "audit", "write", "fault", "fault-write"):
        for to in ("numpy", "json"):
            U.append(("u_crash", dict(kind=kind, to=to, chunk=7 if q else 3, twice=True)))
    for first in (0, 1):
        for answers in (("ok", "ok"), ("trunc:25", "ok"), ("ok", "trunc:25"), ("reset:30", "status:500")):
            U.append(("u_race", dict(to="numpy", first=first, answers=answers, bound=2 if q else 3, abandon=False)))
        U.append(("u_race", dict(to="json", first=first, answers=("ok", "ok"), bound=2, abandon=False)))
        U.append(("u_race", dict(to="numpy", first=first, answers=("ok", "ok"), bound=1, abandon=True)))
    return U
