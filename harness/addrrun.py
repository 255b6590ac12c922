"""Real servers on a machine with a made-up network: which address the default
route has, if any, and whether connections to it work."""
import errno, socket, threading, time
import asyncio, tornado.ioloop, tornado.tcpserver, tornado.tcpclient   # noqa

Real = socket.socket


class Net:
    det = ""          # address of the default route
    broken = {}       # address -> what fails there
    refuse = 0        # so many times there is no free port


def fails(addr, what):
    return Net.broken.get(addr[0] if isinstance(addr, tuple) else addr) == what


class Socket(Real):
    """Sockets of the made-up network."""
    def connect(self, address):
        if self.type & 0xf == socket.SOCK_DGRAM:
            if Net.det == "":
                raise OSError(errno.ENETUNREACH, "Network is unreachable")
            self.__dict__["_seen"] = Net.det
            return
        if fails(address, "connect"):
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if fails(address, "timeout"):
            raise socket.timeout("timed out")
        return super().connect(address)

    def connect_ex(self, address):
        try:
            self.connect(address)
            return 0
        except OSError as e:
            return e.errno or errno.ETIMEDOUT

    def getsockname(self):
        if "_seen" in self.__dict__:
            return (self.__dict__["_seen"], 45678)
        return super().getsockname()

    def bind(self, address):
        if Net.refuse and address[0] in ("", "0.0.0.0", "::"):
            Net.refuse -= 1
            raise OSError(errno.EADDRINUSE, "Address already in use")
        if fails(address, "bind"):
            raise OSError(errno.EADDRNOTAVAIL, "Cannot assign requested address")
        return super().bind(address)

    def _here(self):
        try:
            return Real.getsockname(self)
        except OSError:
            return ("", 0)

    def _peer(self):
        try:
            return Real.getpeername(self)
        except OSError:
            return ("", 0)

    def accept(self):
        if fails(self._here(), "accept"):
            raise socket.timeout("timed out")
        return super().accept()

    def sendall(self, *a):
        if fails(self._peer(), "send"):
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        return super().sendall(*a)

    def send(self, *a):
        if fails(self._peer(), "send"):
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        return super().send(*a)

    def recv(self, *a):
        if fails(self._here(), "eof"):
            return b""
        if fails(self._here(), "recv"):
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        return super().recv(*a)

    def recv_into(self, *a):
        if fails(self._here(), "eof"):
            return 0
        if fails(self._here(), "recv"):
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        return super().recv_into(*a)


socket.socket = Socket
socket.gethostname = lambda: "this.machine"
_by_name = socket.gethostbyname
socket.gethostbyname = lambda h: "127.0.0.99" if h == "this.machine" else _by_name(h)
from common import *                    # noqa
from world import *                     # noqa
from daisy.tcp import TCPServer, TCPClient, TCPMessage          # noqa


WAIT = Patience(60, 8)


def server_of(host):
    """A server, or the one inside of daisy's Server."""
    if host is None:
        return TCPServer()
    return TCPServer(host=host)


def addr_case(rng, params, i):
    net = rng.choice(["", "127.0.0.1", "127.0.0.%d" % rng.randint(2, 250), "127.1.%d.9" % rng.randint(0, 255), "192.0.2.7"])
    Net.det = net
    Net.broken = {}
    how = rng.choice(["", "", "", "connect", "bind", "recv", "timeout", "accept", "send", "eof"])
    if net and net != "127.0.0.1" and how:
        Net.broken = {net: how}
    works = bool(net) and not Net.broken and net != "192.0.2.7"
    servers, recs, ports = [], [], []
    for _ in range(rng.choice([0, 0, 1, 2])):
        tries = rng.choice([1, 1, 2, 5, 40])
        no = rng.choice([0, tries - 1, tries - 1, tries, tries + 1])
        Net.refuse = no
        what = "made"
        try:
            t = TCPServer(host="127.0.0.1", max_port_tries=tries)
            servers.append(t)
            recs.append({"host": "127.0.0.1", "det": net, "works": works, "ip": str(t.address[0]),
                         "port": int(t.address[1]), "reachable": True, "heard": False, "answered": False})
        except Exception as e:
            what = "none" if type(e).__name__ == "NoFreePort" else "raised"
        Net.refuse = 0
        ports.append({"tries": tries, "no": no, "what": what})
    try:
        for _ in range(rng.randint(1, 3)):
            host = rng.choice(["", "", "localhost", "127.0.0.1", "127.0.0.77", "some.host.example"])
            via = rng.random()
            if via < 0.4:
                from daisy import Server
                s = Server(host=host or None)
                t = s.tcp_server
                ip, port = s.hostname, s.port
            else:
                t = server_of(host or None)
                ip, port = t.address
            servers.append(t)
            recs.append({"host": host, "det": net, "works": works, "ip": str(ip), "port": int(port),
                         "reachable": host != "some.host.example", "heard": False, "answered": False})
        for k, r in enumerate(recs):
            if not r["reachable"]:
                continue
            try:
                c = TCPClient(r["ip"], r["port"])
                c.send_message(TCPMessage("hello %d" % k))
                m, end = None, WAIT.until()
                while m is None and not WAIT.over(end):
                    for j, t in enumerate(servers):
                        x = t.get_message(timeout=0.02)
                        if x is not None:
                            m = (j, x)
                r["heard"] = m is not None and m[0] == k and m[1].payload == "hello %d" % k
                if m is not None:
                    m[1].stream.send_message(TCPMessage("welcome %d" % k))
                    a = c.get_message(timeout=WAIT.limit)
                    r["answered"] = a is not None and a.payload == "welcome %d" % k
                c.disconnect()
            except (Exception, HangError):
                pass
    finally:
        for t in servers:
            try:
                t.disconnect()
                t.ioloop.add_callback(t.stop)
            except Exception:
                pass
        Net.det, Net.broken = "", {}
    return {"servers": recs, "ports": ports}, {"det": net, "broken": how}
