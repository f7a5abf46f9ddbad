#!/usr/bin/env python3
"""Development aid: random string and key commands to the model server and to a real redis-server (no module),
reply by reply. Not a check: it looks at the harness, not at the library."""
import os, random, socket, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.abspath(__file__))
n = int(sys.argv[1]) if len(sys.argv) > 1 else 20000
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
BIN = os.path.join(here, "..", "harness", "target", "debug", "mcap-verif")


class C:
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX); self.s.connect(path); self.f = self.s.makefile("rb")

    def send(self, *a):
        a = [x if isinstance(x, bytes) else str(x).encode() for x in a]
        self.s.sendall(b"*%d\r\n" % len(a) + b"".join(b"$%d\r\n%s\r\n" % (len(x), x) for x in a))
        return self.read()

    def read(self):
        l = self.f.readline()
        t, v = l[:1], l[1:-2]
        if t == b"-":
            return "error"
        if t in b"+:":
            return (t, v)
        if t == b"$":
            return None if v == b"-1" else self.f.read(int(v) + 2)[:-2]
        if t == b"*":
            return None if v == b"-1" else [self.read() for _ in range(int(v))]
        raise Exception(l)


with tempfile.TemporaryDirectory() as d:
    sock = os.path.join(d, "r.sock")
    r = subprocess.Popen(["redis-server", "--port", "0", "--unixsocket", sock, "--save", "", "--dir", d],
                         stdout=subprocess.DEVNULL)
    m = subprocess.Popen([BIN, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    try:
        time.sleep(1)
        real, model = C(sock), C(m.stdout.readline().strip())
        rnd = random.Random(seed)
        keys = ["a", "b", "c", "d e", b"\x00\xff", ""]
        k = lambda: rnd.choice(keys)
        now = int(time.time())
        num = lambda: rnd.choice([1, 5, 100, 1000, 86400, 0, -1, "x", "", "1.5", 10**12, 2**63])
        opts = ["NX", "XX", "GET", "KEEPTTL", "EX", "PX", "EXAT", "PXAT", "nx", "ex", "FOO"]
        bad = 0
        hist = {}
        for i in range(n):
            c = rnd.randrange(20)
            if c < 6:
                a = ["SET", k(), rnd.randrange(5)]
                for _ in range(rnd.choice([0, 0, 1, 1, 2, 3])):
                    o = rnd.choice(opts)
                    a.append(o)
                    if o.upper() in ("EX", "PX", "EXAT", "PXAT"):
                        a.append(num() if "AT" not in o else (now + 50) * (1000 if o[0] == "P" else 1))
            else:
                a = [["GET", k()], ["DEL", k(), k()], ["EXISTS", k(), k()], ["SETNX", k(), 7], ["SETEX", k(), num(), 1],
                     ["PSETEX", k(), num(), 1], ["EXPIRE", k(), num()], ["PEXPIRE", k(), num()], ["PERSIST", k()], ["TTL", k()],
                     ["PTTL", k()], ["MGET", k(), k()], ["GETDEL", k()], ["PING"], ["UNLINK", k()], ["RENAME", k(), k()],
                     ["GETSET", k(), 3], ["GETEX", k()], ["SET", k()]][c % 14 if rnd.random() < .8 else rnd.randrange(19)]
            x, y = real.send(*a), model.send(*a)
            hist[a[0]] = hist.get(a[0], 0) + 1
            if x != y and not (a[0] in ("TTL", "PTTL") and x and y and abs(int(x[1]) - int(y[1])) < 3000):
                bad += 1
                if bad < 30:
                    print(a, "real", x, "model", y)
                real.send("FLUSHALL"); [model.send("DEL", q) for q in keys]
        print(n, "commands", bad, "differences", hist)
    finally:
        r.kill(); m.kill()
