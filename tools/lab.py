"""Helpers of the demonstrations: run the built programs against a small private DNS."""
import json, os, shutil, socket, struct, subprocess, sys, tempfile, threading, time

ROOTS = ["198.41.0.4", "199.9.14.201", "192.33.4.12", "199.7.91.13", "192.203.230.10", "192.5.5.241", "192.112.36.4",
         "198.97.190.53", "192.36.148.17", "192.58.128.30", "193.0.14.129", "199.7.83.42", "202.12.27.33"]
A, NS, CNAME, SOA, TXT, MX = 1, 2, 5, 6, 16, 15


def enter_netns(addrs):
    """Go on in a network namespace of our own, which has nothing but these addresses."""
    if os.environ.get("LAB_NETNS") != "1":
        env = dict(os.environ, LAB_NETNS="1")
        os.execvpe("unshare", ["unshare", "-Urn", sys.executable] + sys.argv, env)
    run = lambda *a: subprocess.run(a, check=True)
    run("ip", "link", "set", "lo", "up")
    for a in addrs:
        run("ip", "addr", "add", a + "/32", "dev", "lo")


# ---- messages ----
def enc_name(n):
    out = b""
    for l in n.strip(".").split("."):
        if l:
            out += bytes([len(l)]) + l.encode()
    return out + b"\0"


def query(qid, name, qtype=A, rd=True, flags=None):
    f = (0x0100 if rd else 0) if flags is None else flags
    return struct.pack(">6H", qid, f, 1, 0, 0, 0) + enc_name(name) + struct.pack(">2H", qtype, 1)


def dec_name(m, p):
    labels, end, jumps = [], None, 0
    while True:
        l = m[p]
        if l & 0xc0 == 0xc0:
            if end is None:
                end = p + 2
            p = ((l & 0x3f) << 8) | m[p + 1]
            jumps += 1
            if jumps > 50:
                raise ValueError("pointer loop")
            continue
        p += 1
        if l == 0:
            break
        labels.append(m[p:p + l].decode("latin1"))
        p += l
    return ".".join(labels) + ".", (end if end is not None else p)


class Msg:
    def __init__(self, raw):
        self.raw = raw
        self.id, self.flags, qd, an, ns, ar = struct.unpack(">6H", raw[:12])
        self.qr, self.aa, self.tc, self.rcode = self.flags >> 15, (self.flags >> 10) & 1, (self.flags >> 9) & 1, self.flags & 15
        p = 12
        self.questions = []
        for _ in range(qd):
            n, p = dec_name(raw, p)
            t, c = struct.unpack(">2H", raw[p:p + 4])
            p += 4
            self.questions.append((n, t))
        secs = []
        for cnt in (an, ns, ar):
            rrs = []
            for _ in range(cnt):
                n, p = dec_name(raw, p)
                t, c, ttl, l = struct.unpack(">2HIH", raw[p:p + 10])
                p += 10
                if len(raw) < p + l:
                    raise ValueError("record beyond the end")
                d = raw[p:p + l]
                if t in (NS, CNAME):
                    d = dec_name(raw, p)[0]
                elif t == A:
                    d = socket.inet_ntoa(d)
                p += l
                rrs.append((n, t, ttl, d))
            secs.append(rrs)
        self.an, self.ns, self.ar = secs
        if p != len(raw):
            raise ValueError("bytes left over")

    def a(self):
        return sorted(d for (_, t, _, d) in self.an if t == A)


def rr(name, qtype, ttl, data):
    if qtype == A:
        d = socket.inet_aton(data)
    elif qtype in (NS, CNAME):
        d = enc_name(data)
    elif qtype == TXT:
        d = bytes([len(data)]) + data.encode()
    else:
        d = data
    return enc_name(name) + struct.pack(">2HIH", qtype, 1, ttl, len(d)) + d


def reply(q, an=(), ns=(), ar=(), aa=True, rcode=0, tc=False, qid=None, question=None):
    """A reply to the parsed query q."""
    f = 0x8000 | (0x0400 if aa else 0) | (0x0200 if tc else 0) | rcode
    n, t = question or q.questions[0]
    return (struct.pack(">6H", q.id if qid is None else qid, f, 1, len(an), len(ns), len(ar)) + enc_name(n) + struct.pack(">2H", t, 1)
            + b"".join(an) + b"".join(ns) + b"".join(ar))


# ---- upstream servers ----
class Auth:
    """A server on addr:53; fn(query, tcp) gives the bytes to send, a list of them, or None."""

    def __init__(self, addr, fn, tcp=True, udp=True):
        self.addr, self.fn, self.log = addr, fn, []
        if udp:
            self.u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.u.bind((addr, 53))
            threading.Thread(target=self.udp, daemon=True).start()
        if tcp:
            self.t = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            self.t.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.t.bind((addr, 53))
            self.t.listen(64)
            threading.Thread(target=self.tcp, daemon=True).start()

    def asked(self, name=None):
        return [q for q in self.log if name is None or q[1].lower() == name.lower()]

    def udp(self):
        while True:
            data, peer = self.u.recvfrom(4096)
            threading.Thread(target=self.one, args=(data, peer), daemon=True).start()

    def one(self, data, peer):
        q = Msg(data)
        self.log.append((time.time(), q.questions[0][0], q.questions[0][1], False, q.id))
        r = self.fn(q, False)
        for m in ([] if r is None else r if isinstance(r, list) else [r]):
            self.u.sendto(m, peer)

    def tcp(self):
        while True:
            c, _ = self.t.accept()
            threading.Thread(target=self.conn, args=(c,), daemon=True).start()

    def conn(self, c):
        try:
            m = recv_tcp(c, 5)
            q = Msg(m)
            self.log.append((time.time(), q.questions[0][0], q.questions[0][1], True, q.id))
            r = self.fn(q, True)
            for m in ([] if r is None else r if isinstance(r, list) else [r]):
                c.sendall(struct.pack(">H", len(m)) + m)
        except (OSError, ValueError):
            pass
        finally:
            c.close()


# ---- clients ----
def recv_tcp(c, timeout):
    c.settimeout(timeout)

    def exact(n):
        b = b""
        while len(b) < n:
            x = c.recv(n - len(b))
            if not x:
                raise OSError("closed")
            b += x
        return b
    return exact(struct.unpack(">H", exact(2))[0])


def ask_raw(port, data, timeout=5, host="127.0.0.1"):
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        s.settimeout(timeout)
        s.connect((host, port))
        s.send(data)
        return s.recv(65535)
    except OSError:
        return None
    finally:
        s.close()


_id = [100]


def ask(port, name, qtype=A, timeout=5, host="127.0.0.1"):
    _id[0] += 1
    r = ask_raw(port, query(_id[0] & 0xffff, name, qtype), timeout, host)
    return None if r is None else Msg(r)


def ask_tcp(port, name, qtype=A, timeout=5, host="127.0.0.1"):
    _id[0] += 1
    q = query(_id[0] & 0xffff, name, qtype)
    try:
        with socket.create_connection((host, port), timeout) as s:
            s.sendall(struct.pack(">H", len(q)) + q)
            return Msg(recv_tcp(s, timeout))
    except OSError:
        return None


# ---- the programs ----
def free_port():
    while True:
        u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        u.bind(("127.0.0.1", 0))
        p = u.getsockname()[1]
        t = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            t.bind(("127.0.0.1", p))
            return p
        except OSError:
            pass
        finally:
            u.close()
            t.close()


class Prog:
    def __init__(self, name, conf, files=None, env=None, wait=True):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        for f, text in (files or {}).items():
            with open(os.path.join(self.dir, f), "w" if isinstance(text, str) else "wb") as h:
                h.write(text)
        self.port = conf["udp_server"]["port"]
        with open(os.path.join(self.dir, "conf.json"), "w") as h:
            json.dump(conf, h)
        self.out = open(os.path.join(self.dir, "log"), "wb")
        exe = os.path.join(os.environ.get("LAB_BIN", os.path.join(os.getcwd(), "target/debug")), name)
        self.p = subprocess.Popen([exe, "conf.json"], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.out,
                                  env=dict(os.environ, **(env or {})))
        if wait:
            self.wait_up()

    def wait_up(self):
        end = time.time() + 20
        want = {("tcp", self.port), ("udp", self.port)}
        while time.time() < end:
            have = set()
            for proto, state in (("tcp", "0A"), ("udp", "07")):
                for l in open("/proc/self/net/" + proto).read().splitlines()[1:]:
                    f = l.split()
                    if f[3] == state:
                        have.add((proto, int(f[1].split(":")[1], 16)))
            if want <= have:
                return
            if self.p.poll() is not None:
                raise SystemExit("the program ended: " + self.log())
            time.sleep(0.02)
        raise SystemExit("the program did not start: " + self.log())

    def log(self):
        return open(os.path.join(self.dir, "log"), errors="replace").read()

    def alive(self):
        return self.p.poll() is None

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.out.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def server_conf(port, udp_threads=4, tcp_threads=4, read_timeout=2, write_timeout=2, log_level="Info"):
    return {"log_level": log_level,
            "udp_server": {"address": "127.0.0.1", "port": port, "write_timeout": write_timeout, "threads": udp_threads},
            "tcp_server": {"address": "127.0.0.1", "port": port, "read_timeout": read_timeout, "write_timeout": write_timeout, "threads": tcp_threads}}


def nameserver(zone, text, subs=(), env=None, files=None, wait=True, port=None, **kw):
    """subs: (zone, text, min_ttl). """
    conf = server_conf(port or free_port(), **kw)
    fs = {"zone": text}
    conf["zone"] = {"zone": zone, "file": "zone", "starting_ttl": 1000, "sub_zones": []}
    for i, s in enumerate(subs):
        fs["sub%d" % i] = s[1]
        conf["zone"]["sub_zones"].append({"zone": s[0], "file": "sub%d" % i, "starting_ttl": 1000, "min_ttl": s[2] if len(s) > 2 else 0})
    fs.update(files or {})
    return Prog("nameserver", conf, fs, env, wait)


def resolver(env=None, wait=True, max_ns=5, retries=2, cnames=10, read=1, write=1, clean=60, silent=True, verbose=False, color=False, port=None, **kw):
    conf = server_conf(port or free_port(), **kw)
    conf["resolver"] = {"max_ns_queried": max_ns, "max_ns_retries": retries, "max_cname_redir": cnames, "read_timeout": read, "write_timeout": write,
                        "cache_conf": {"clean_period": clean, "entries_cleaned": 1000},
                        "trace_conf": {"silent": silent, "verbose": verbose, "color": color}}
    return Prog("resolver", conf, None, env, wait)


def check(cond, what):
    if not cond:
        print("DEMO FAILED:", what)
        sys.stdout.flush()
        sys.exit(1)
