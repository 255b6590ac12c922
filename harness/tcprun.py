"""Drives a real TCPServer and real TCPClients (in other processes, or in the
same one) and records what their users see."""
import multiprocessing as mp
import os, queue, threading, time
import tcpchild
from tcpchild import build, digest, mutate, tag_of, quick_sleep
from common import MachineryError, Patience

WAIT, SHORT = Patience(80.0, 15.0), 0.04
ctx = mp.get_context("forkserver")
ctx.set_forkserver_preload(["tcpchild"])


class Remote:
    local = False

    def __init__(self):
        self.conn, c = ctx.Pipe()
        self.p = ctx.Process(target=tcpchild.main, args=(c,), daemon=True)
        self.p.start()
        c.close()
        self.dead = False

    def call(self, *cmd):
        if self.dead:
            return ("hang",)
        self.conn.send(cmd)
        if not self.conn.poll(WAIT.limit + 10):
            self.kill()
            return ("hang",)
        return self.conn.recv()

    def kill(self):
        self.dead = True
        self.p.kill()
        self.p.join()
        self.conn.close()


class Local:
    local, dead = True, False

    def __init__(self):
        self.host = tcpchild.Host()

    def call(self, *cmd):
        if cmd[0] == "reset":
            self.host = tcpchild.Host()
            return ("ok",)
        out = queue.Queue()
        t = threading.Thread(target=lambda: out.put(self.host.run(cmd)), daemon=True)
        t.start()
        try:
            return out.get(timeout=WAIT.limit + 10)
        except queue.Empty:
            self.dead = True
            return ("hang",)


_remotes = []


def remote(i):
    while len(_remotes) <= i:
        _remotes.append(Remote())
    if _remotes[i].dead:
        _remotes[i] = Remote()
    return _remotes[i]


class TcpRun:
    def __init__(self, rng, n, maxsize):
        from daisy.tcp import TCPServer
        time.sleep = quick_sleep
        self.rng, self.n, self.maxsize = rng, n, maxsize
        self.server = TCPServer(host="127.0.0.1")
        self.addr = self.server.address
        k = rng.randint(1, 3)
        hosts = [remote(i) for i in range(k)] + ([Local()] if rng.random() < .4 else [])
        self.host = {c: rng.choice(hosts) for c in range(1, n + 1)}
        self.hosts = hosts
        self.st = {c: "none" for c in range(1, n + 1)}
        self.up = {c: 0 for c in self.st}      # messages that might arrive (only to choose timeouts)
        self.down = {c: 0 for c in self.st}
        self.told = {c: False for c in self.st}
        self.streams, self.via = {}, {}
        self.events = []
        self.nm = 0
        self.dead = set()
        self.kids = []
        self.bad = False

    def spec(self, c, way):
        r = self.rng
        self.nm += 1
        ty = r.choice(["TCPMessage"] * 4 + ["AcquireBlock", "SendBlock", "ReleaseBlock", "BlockFailed",
                                            "ClientException", "RequestShutdown"])
        size = r.choice([0, 1, 3, 4, 5, 100, 255, 256, 257, 1000, 4096, 65530, 65536, 70000,
                         min(300000, self.maxsize), self.maxsize]) if r.random() < .6 else r.randint(0, 2000)
        odd = "odd" if ty in ("BlockFailed", "ClientException") and r.random() < .5 else ""
        return {"tag": "%d:%s:%d:%s" % (c, way, self.nm, odd), "ty": ty, "size": min(size, self.maxsize),
                "salt": r.randint(0, 10**6)}

    def add(self, op, c=0, d="", res="ok", via=0, which=()):
        self.events.append({"op": op, "c": c, "d": d, "res": res, "via": via, "which": list(which)})

    def do(self, op, c=0, must=False):
        r = self.rng
        if op == "connect":
            if self.st[c] != "none":
                return
            x = self.host[c].call("connect", c, *self.addr)
            self.st[c] = "open"
            self.add(op, c, res=self.ok(x))
        elif op == "csend":
            if self.st[c] not in ("open", "cut") or c in self.dead:
                return
            x = self.host[c].call("send", c, self.spec(c, "up"), r.random() < .5)
            self.add(op, c, x[1] if x[0] == "ok" else "", self.ok(x, self.st[c] == "open"))
            if x[0] == "ok":
                self.up[c] += 1
        elif op == "ssend":
            if c not in self.streams or self.st[c] == "left" and r.random() < .7:
                return
            m = build(self.spec(c, "down"))
            d, res = digest(m), "ok"
            try:
                self.streams[c].send_message(m)
                if r.random() < .5:
                    mutate(m)
                self.down[c] += 1
            except Exception as e:
                res = "err"
            self.add(op, c, d, res)
        elif op == "sget":
            self.sget(must)
        elif op == "cget":
            if self.st[c] not in ("open", "cut") or c in self.dead:
                return
            want = self.st[c] == "cut" or self.down[c] > 0
            if not want and not must and r.random() < .85:
                return
            x = self.host[c].call("get", c, WAIT.limit if want else SHORT)
            if want and x[0] in ("none", "hang"):
                WAIT.spent = True
            if x[0] == "hang":
                x = ("none",)
            if x[0] == "msg":
                self.down[c] -= 1
            elif self.st[c] == "open" and (want or x[0] == "err"):
                self.bad = True
            self.add(op, c, x[1] if x[0] == "msg" else "", x[0])
        elif op == "leave":
            if self.st[c] != "open":
                return
            x = self.host[c].call("leave", c)
            self.st[c] = "left"
            self.add(op, c, res=self.ok(x))
        elif op == "kill":
            h = self.host[c]
            if self.st[c] != "open" or h.local:
                return
            which = [x for x in self.st if self.host[x] is h and self.st[x] in ("open", "cut")]
            if r.random() < .4:
                # it leaves processes behind
                for _ in range(r.choice([1, 1, 3])):
                    x = h.call("fork")
                    if x[0] == "ok":
                        self.kids.append(x[1])
            h.kill()
            # clients that are not connected yet get another process
            new = remote([i for i, x in enumerate(_remotes) if x is h][0])
            for x in self.st:
                if self.host[x] is h:
                    self.host[x] = new
            for x in which:
                self.st[x] = "gone"
            self.add(op, which=which)
        elif op == "close":
            self.server.disconnect()
            for x in self.st:
                if self.st[x] in ("open", "gone"):
                    self.dead = self.dead | ({x} if self.st[x] == "gone" else set())
                    self.st[x] = "cut"
            self.add(op)
        elif op == "closed":
            if c not in self.streams or any(self.st[x] == "gone" and not self.told[x] for x in self.st):
                return
            if self.st[c] == "none":
                return
            v = self.streams[c].closed()
            if self.st[c] != "open" and not v:
                # closing happens in the event loop
                end = WAIT.until()
                while not v and not WAIT.over(end):
                    time.sleep(0.004)
                    v = self.streams[c].closed()
                self.bad = self.bad or not v
            self.add(op, c, res="yes" if v else "no")

    def ok(self, x, bad=True):
        if x[0] == "ok":
            return "ok"
        if bad:
            self.bad = True
        return "err"

    def sget(self, must=False):
        want = any((self.st[x] in ("open", "left") and self.up[x] > 0)
                   or (self.st[x] == "gone" and not self.told[x]) for x in self.st)
        if not want and not must and self.rng.random() < .85:
            return          # most likely nothing to see
        end = WAIT.until() if want else time.time() + SHORT
        while True:
            try:
                m = self.server.get_message(timeout=0.02)
            except Exception as e:
                c = next((x for x in self.st if self.st[x] == "gone" and not self.told[x]),
                         next((x for x in self.st if self.st[x] == "cut" and not self.told[x]), 0))
                if c:
                    self.told[c] = True
                else:
                    self.bad = True
                self.exc = repr(e)
                return self.add("sget", c, res="err")
            if m is not None:
                break
            if WAIT.over(end) if want else time.time() > end:
                self.bad = self.bad or want
                return self.add("sget", res="none")
        tag = tag_of(m)
        try:
            c = int(tag.split(":")[0])
        except ValueError:
            c = 0
        s = m.stream
        via = self.via.setdefault(id(s), c) if c not in self.streams or self.streams[c] is s else -1
        if c and c not in self.streams:
            self.streams[c] = s
        if c in self.up:
            self.up[c] -= 1
        self.add("sget", c, digest(m), "msg", via)

    def finish(self):
        """Everything that should arrive arrives, nothing else."""
        for _ in range(4 * self.nm + 20):
            if self.bad:
                break
            self.do("sget", must=True)
            e = self.events[-1]
            if e["res"] == "none":
                break
        for c in self.st:
            while not self.bad and self.st[c] in ("open", "cut") and c not in self.dead:
                self.do("cget", c, must=True)
                if self.events[-1]["res"] != "msg":
                    break
            if not self.bad:
                self.do("closed", c)

    def close(self):
        for pid in self.kids:
            try:
                os.kill(pid, 9)
            except OSError:
                pass
        for s in [self.server] + list(self.streams.values()):
            try:
                if s is self.server:
                    s.disconnect()
                    s.ioloop.add_callback(s.stop)
            except Exception:
                pass
        for h in self.hosts:
            if not h.dead:
                # leave clients to end by themselves
                h.call("reset")


def flood_case(rng, params, i):
    """Thousands of messages that nobody reads for a while."""
    n = rng.choice([1, 3])
    t = TcpRun(rng, n, 50)
    t.spec = lambda c, way: dict(TcpRun.spec(t, c, way), ty="AcquireBlock", size=rng.randint(0, 30))
    try:
        for c in range(1, n + 1):
            for op in ("connect", "csend", "sget"):
                t.do(op, c)
        for way, get in rng.choice([[("csend", "sget")], [("ssend", "cget")]]):
            to = [rng.randint(1, n) for _ in range(rng.randint(1100, 2200))]
            for c in to:
                if not t.bad:
                    t.do(way, c)
            threading.Event().wait(rng.choice([0.3, 2.5]))      # (time.sleep is replaced)
            # the other direction is not affected
            if rng.random() < .5 and not t.bad:
                back = [("ssend", "cget"), ("csend", "sget")][way == "ssend"]
                for op in back:
                    t.do(op, to[0])
            if rng.random() < .3 and not t.bad and way == "ssend":
                t.do("leave", to[-1])
            for c in to:
                if not t.bad:
                    t.do(get, c)
        t.finish()
    finally:
        t.close()
    return {"n": n, "events": t.events}, {"exc": getattr(t, "exc", "")}


def crowd_case(rng, params, i):
    """Many clients at once, or few with huge messages."""
    huge = i % 3 == 2
    n = 2 if huge else rng.randint(18, 40)
    t = TcpRun(rng, n, 70000)
    if huge:
        size = (rng.choice([68, 75, 95]) if i % 12 == 5 else rng.choice([17, 20, 34, 40])) * 10**6 + rng.randint(0, 100)
        t.spec = lambda c, way: dict(TcpRun.spec(t, c, way), ty=rng.choice(["TCPMessage", "AcquireBlock"]),
                                     size=size, salt=2 * rng.randint(0, 10**5))
    try:
        cs = list(range(1, n + 1))
        rng.shuffle(cs)
        for c in cs:
            t.do("connect", c)
            if rng.random() < .5:
                t.do("csend", c)
        for op in ("csend", "sget", "ssend", "cget"):
            rng.shuffle(cs)
            for c in cs:
                if not t.bad:
                    t.do(op, c)
        for _ in range(rng.choice([0, 3])):
            c = rng.choice(cs)
            t.do(rng.choice(["leave", "csend", "ssend"]), c)
        if rng.random() < .7 and not t.bad:
            t.do("close")
        t.finish()
    finally:
        t.close()
    return {"n": n, "events": t.events}, {"exc": getattr(t, "exc", "")}


def tcp_case(rng, params, hist=None):
    n = 4 if hist else rng.choice([1, 2, 3, 4, 6, 9])
    big = rng.random() < 0.15
    t = TcpRun(rng, n, params.get("maxsize", 3 * 10**6) if big else 70000)
    try:
        if hist:
            for x in hist:
                if not t.bad:
                    t.do(x["op"], x["c"])
        else:
            style = rng.choice(["mix", "burst", "burst", "talk"])
            pk = rng.choice([0, 0, .04])
            for c in range(1, n + 1):
                if rng.random() < .8:
                    t.do("connect", c)
            for _ in range(rng.randint(5, 40)):
                if t.bad:
                    break
                c = rng.randint(1, n)
                if t.st[c] == "none" or rng.random() < .03:
                    t.do("connect", c)
                if rng.random() < pk:
                    t.do("kill", c)
                elif rng.random() < .03:
                    t.do("leave", c)
                elif rng.random() < .03:
                    t.do("closed", c)
                elif style == "burst":
                    way = rng.choice(["csend", "ssend"])
                    for _ in range(rng.choice([1, 2, 5, 20])):
                        t.do(way, c)
                    for _ in range(rng.choice([0, 1, 2, 5, 20])):
                        if not t.bad:
                            t.do("sget" if way == "csend" else "cget", c)
                elif style == "talk":
                    for op in ("csend", "sget", "ssend", "cget"):
                        if not t.bad:
                            t.do(op, c)
                else:
                    t.do(rng.choice(["csend", "csend", "ssend", "ssend", "sget", "sget", "cget"]), c)
            if rng.random() < .3 and not t.bad:
                t.do("close")
        t.finish()
    finally:
        t.close()
    return {"n": n, "events": t.events}, {"exc": getattr(t, "exc", "")}


def frames(specs):
    """What real clients put on the wire for these messages."""
    import socket
    from daisy.tcp import TCPClient
    time.sleep = quick_sleep
    out = []
    for sp in specs:
        ls = socket.create_server(("127.0.0.1", 0))
        cl = TCPClient(*ls.getsockname())
        s, _ = ls.accept()
        m = build(sp)
        cl.send_message(m)
        s.settimeout(0.3)
        data = b""
        try:
            while True:
                x = s.recv(65536)
                if not x:
                    break
                data += x
        except socket.timeout:
            pass
        out.append((data, digest(m)))
        s.close()
        ls.close()
    return out


def storm_case(rng, params):
    """Many short-lived servers: clients connect to a server right after the
    one before closed its connections (as when one run follows another)."""
    import socket
    from daisy.tcp import TCPServer
    n = 4
    fr = frames([{"tag": "%d:up:%d:" % (c, c), "ty": rng.choice(["TCPMessage", "AcquireBlock"]),
                  "size": 20 * c, "salt": c} for c in range(1, n + 1)])
    end = time.time() + params.get("seconds", 6)
    rounds = 0
    mode = rng.random() < .7
    while True:
        rounds += 1
        ev = []

        def add(op, c=0, d="", res="ok", via=0):
            ev.append({"op": op, "c": c, "d": d, "res": res, "via": via, "which": []})
        server = TCPServer(host="127.0.0.1")
        ss = []
        for c in range(1, n + 1):
            ss.append(socket.create_connection(server.address))
            add("connect", c)
        for c in range(1, n + 1):
            ss[c - 1].sendall(fr[c - 1][0])
            add("csend", c, fr[c - 1][1])
        got = 0
        stop = WAIT.until()
        while got < n and not WAIT.over(stop):
            try:
                m = server.get_message(timeout=0.02)
            except Exception:
                continue        # about connections of the round before
            if m is not None:
                t = tag_of(m).split(":")[0]
                add("sget", int(t) if t.isdigit() else 0, digest(m), "msg", int(t) if t.isdigit() else 0)
                got += 1
        if got < n:
            add("sget", res="none")
        if mode:
            server.disconnect()
        for s in ss:
            s.close()
        if not mode:
            server.disconnect()
        if got < n or time.time() > end:
            break
    return {"n": n, "events": ev}, {"rounds": rounds}
