"""Concretises histories of PdcColl and runs them on the collections of src/commons and the server's hash table."""
import random

import comp
import pdcbuild

KINDS = {"hash": "icupsnSILUD", "set": "icupsn"}
FACTORS = ["2.0", "1.5", "1.1", "1.0", "3"]


def build():
    t = pdcbuild.Tree(name="asan", san="address")
    drv = pdcbuild.VERIF + "/drv/coll.c"
    a = t.commons("coll", [drv], more=t.commons_sources())
    b = t.commons("collsrv", [drv], more=["server/pdc_hash-table.c", "commons/utils/pdc_malloc.c"], extra=["-DSERVER_HT"])
    c = t.commons("collhtab", [drv], more=["commons/profiling/pdc_hashtab.c"], extra=["-DHTAB"])
    return a, b, c


def hexs(b):
    return "".join("%02x" % x for x in b) or "-"


class Keys:
    """abstract key number -> (text on the command line, what the trace shows)"""

    def __init__(self, kind, R):
        self.kind, self.R = kind, R
        self.mode = R.randrange(4)
        self.word = "".join(R.choice("abcxyz.-_") for _ in range(R.randint(1, 12)))
        self.map = {}
        self.mul = R.choice([1, 1, R.randint(2, 260)])    # steps that have divisors in common with sizes

    def base(self, k):
        R, m = self.R, self.mode
        if self.kind == "D":
            return "%.17g" % [k, k / 4, (k - 150) * 1e10, k * 1e300][m]
        if self.kind == "L":
            return [k, (k - 150) << 32, k * 193 - 2 ** 63, R.getrandbits(64) - 2 ** 63][m]
        if self.kind in "icI":
            return [k * self.mul, k * 193 - 9000, (k - 150) * 10000019 % (2 ** 32) - 2 ** 31, R.randint(-2 ** 31, 2 ** 31 - 1)][m]
        if self.kind in "uU":
            return [k, k << 32, k * 193 + 2 ** 63, R.getrandbits(64)][m]
        if self.kind == "p":
            return [k * 16, k << 32, k * 193 + 1, R.getrandbits(63) | 1][m]
        if self.kind == "n":
            k //= R.choice([1, 1, 2])
        t = ["%d" % k, self.word + "%d" % k, "%d%s" % (k, self.word * 8), "a" * k][m]
        if self.kind == "s" and m == 0:
            return bytes([1 + k % 255]) + bytes([200 + k // 255])
        return t.encode()

    def __call__(self, k):
        if k not in self.map:
            self.map[k] = self.base(k)
        v = self.map[k]
        if isinstance(v, bytes):
            if self.kind == "n":
                v = bytes(self.R.choice([c, c ^ 32]) if chr(c).isalpha() else c for c in v)
            return hexs(v), list(v)
        return str(v), str(v)


class ArtKeys:
    def __init__(self, R):
        self.R, self.mode, self.map = R, R.randrange(6), {}
        self.pre = bytes(R.choice(b"ab\x01\xff") for _ in range(R.choice([0, 1, 5, 9, 10, 11, 14, 20])))
        self.word = bytes(R.randrange(97, 101) for _ in range(40))
        self.bytes = list(range(1, 256))
        R.shuffle(self.bytes)

    def base(self, k):
        R = self.R
        if self.mode == 0:
            return self.pre + bytes([self.bytes[(k - 1) % 255]]) + (b"x" * (k // 255))
        if self.mode == 1:
            return self.word[: k % 41]
        if self.mode == 2:
            return bytes(R.choice(b"ab") for _ in range(R.randint(0, 7)))
        if self.mode == 3:
            return bytes(R.randrange(1, 256) for _ in range(R.randint(0, 3)))
        if self.mode == 4:
            w = b"interest%d" % (k % 37)
            return w[k % len(w):]
        return self.pre[: R.randrange(len(self.pre) + 1)] + bytes(R.choice(b"ab\xff") for _ in range(R.randint(0, 14)))

    def __call__(self, k):
        if k not in self.map:
            self.map[k] = self.base(k)
        v = self.map[k]
        return hexs(v), list(v)

    def prefix(self, k):
        v = bytes(self(k)[1])
        R = self.R
        p = v[: R.randint(0, len(v))]
        c = R.random()
        if c < .25 and p:                       # differs somewhere
            i = R.randrange(len(p))
            p = p[:i] + bytes([R.choice(self.bytes)]) + p[i + 1:]
        elif c < .4:
            p = v + bytes([R.choice(b"ab\xff")])
        return hexs(p), list(p)


def plan(job):
    """-> [(command line, the fields of the event that the reply does not have)]"""
    R = random.Random(job["seed"])
    what, srv = job["what"], job.get("srv")
    val = 0
    keys, kind, size, out = {}, {}, {}, []

    def add(line, **f):
        out.append((line, f))

    def v():
        nonlocal val
        val += 1
        return val

    same = R.choice(KINDS["set"]) if what == "set" else None
    skeys = Keys(same, R) if same else None
    # a union or an intersection shares the elements of its operands: sets that own theirs have none
    owns = what == "set" and same != "p" and R.random() < .4
    for c in job["hist"]:
        o, m = c["op"], c["m"]
        if o == "new":
            own = int(c["own"])
            if what == "hash":
                kind[m] = R.choice({None: KINDS["hash"], "srv": "ics", "htab": "icsp"}[srv])
                keys[m] = Keys(kind[m], R)
                add("hnew %d %s %d %d" % (m, kind[m], own, R.choice([0, 1, 7, 8, 13, 40])), kind=kind[m], own=own)
            elif what == "set":
                kind[m], keys[m] = same, skeys
                own = int(owns)
                add("snew %d %s %d" % (m, same, own), kind=same, own=own)
            elif what == "art":
                keys[m] = ArtKeys(R)
                add("anew %d" % m)
            else:
                kind[m] = R.choice("ddkv")
                size[m] = 0
                if kind[m] == "v":
                    add("vnew %d %d %s" % (m, R.choice([-1, 0, 1, 2, 3, 16, 100]), R.choice(FACTORS)))
                else:
                    add("%snew %d" % (kind[m], m))
            continue
        if what == "seq":
            seq_op(c, kind, size, add, v, R)
            continue
        if o in ("uni", "int") and (owns or c["a"] not in keys or c["b"] not in keys):
            continue
        if o not in ("uni", "int") and m not in keys:
            continue
        K = keys.get(m)
        if o == "free":
            add(("hfree %d" if what == "hash" else "sfree %d") % m)
            del keys[m]
        elif o in ("uni", "int"):
            add("s%s %d %d %d" % (o, m, c["a"], c["b"]), a=c["a"], b=c["b"])
            kind[m], keys[m] = same, skeys
        elif o in ("fill", "drain"):
            ks = [k for k in range(c["a"], min(301, c["a"] + c["w"])) if (k - c["a"]) % c["s"] == 0]
            if R.random() < .5:
                R.shuffle(ks)
            for k in ks:
                one(what, "put" if o == "fill" else "del", m, k, K, add, v, c)
        elif o == "empty":
            if srv == "htab":
                add("hempty %d" % m)
        elif o == "sweep":
            if srv == "htab":
                w, s = R.choice([(1, 0), (2, 0), (2, 1), (3, 1)]), R.choice([0, 0, 1, 5])
                add("hsweep %d %d %d %d" % (m, w[0], w[1], s), w=w[0], r=w[1], stop=s)
        elif o == "list":
            if what == "hash":
                add("hiter %d" % m)
            elif what == "set":
                add(R.choice(["sarr %d", "siter %d"]) % m)
            else:
                s = R.choice([0, 0, 1, 5])
                add("aiter %d %d" % (m, s), stop=s)
        elif o == "prefix":
            if what == "art":
                t, b = K.prefix(c["k"])
                s = R.choice([0, 0, 0, 2])
                add("apre %d %s %d" % (m, t, s), p=b, stop=s)
        elif o == "ends":
            if what == "art":
                add("amin %d" % m)
                add("amax %d" % m)
        else:
            one(what, o, m, c["k"], K, add, v, c)
    for m in list(keys):
        if what == "hash":
            add("hiter %d" % m)
            add("hfree %d" % m)
        elif what == "set":
            add("sarr %d" % m)
            add("sfree %d" % m)
        else:
            add("aiter %d 0" % m, stop=0)
            add("anum %d" % m)
            add("afree %d" % m)
    for m in size:
        add("%s %d" % ("viter" if kind[m] == "v" else kind[m] + "num", m))
        while kind[m] != "v" and size[m]:
            add("%s %d" % (R.choice(["dgf", "dgb"]) if kind[m] == "d" else "kpop", m))
            size[m] -= 1
        add("%sfree %d" % (kind[m], m))
    return out


def one(what, o, m, k, K, add, v, c):
    if o == "num":
        add({"hash": "hnum", "set": "snum", "art": "anum"}[what] + " %d" % m)
        return
    t, b = K(k)
    if what == "hash":
        if o == "put":
            x = v()
            add("hput %d %s %d" % (m, t, x), k=b, v=x)
        else:
            add("h%s %d %s" % (o, m, t), k=b)
    elif what == "set":
        add("%s %d %s" % ({"put": "sadd", "del": "sdel", "get": "sq"}[o], m, t), k=b)
    elif o in ("put", "putn"):
        x = v()
        add("a%s %d %s %d" % (o, m, t, x), k=b, v=x)
    else:
        add("a%s %d %s" % (o, m, t), k=b)


def seq_op(c, kind, size, add, v, R):
    o, m = c["op"], c["m"]
    d = kind[m]
    if o == "free":
        return
    if o in ("num", "list", "get"):
        if d == "v" and o == "get":
            i = R.randint(0, size[m] + 1)
            add("vget %d %d" % (m, i), i=i)
        elif d == "v" and o == "list":
            add("viter %d" % m)
        else:
            add("%snum %d" % (d, m))
        return
    w, cnt = (c["w"], c["c"]) if o == "run" else (o, 1)
    for _ in range(cnt):
        if w[0] == "p":
            x = v()
            add("%s %d %d" % ({"d": "d" + w, "k": "kpush", "v": "vadd"}[d], m, x), v=x)
            size[m] += 1
        elif d == "v":
            i = R.randint(0, max(0, size[m]))
            add("vget %d %d" % (m, i), i=i)
        elif d == "k" and not size[m]:
            add("knum %d" % m)
        else:
            add("%s %d" % ("d" + w if d == "d" else "kpop", m))
            size[m] = max(0, size[m] - 1)


def runner(job):
    exe = job["exe"]
    p = plan(job)
    res, crash = comp.run(exe, [x[0] for x in p])
    evs = [{"op": "reset"}]
    for r, (_, f) in zip(res, p):
        e = dict(r)
        e.update(f)
        evs.append(e)
    return {"events": evs, "crash": crash} if crash else {"events": evs}


INTS = [0, 1, -1, 2, 193, -193, 2 ** 31 - 1, -2 ** 31, 2 ** 30, -2 ** 30]
U64 = [0, 1, 2, 193, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 32 + 1, 2 ** 33]


def enc(n, bias):
    return list((n + bias).to_bytes(8, "big"))


def cmp_runner(job):
    R = random.Random(job["seed"])
    lines, f = [], []
    for _ in range(job["n"]):
        k = R.choice("iupsn")
        if k == "i":
            a, b = (R.choice(INTS) if R.random() < .6 else R.randint(-2 ** 31, 2 ** 31 - 1) for _ in "ab")
            ta, tb, ea, eb = a, b, enc(a, 2 ** 31), enc(b, 2 ** 31)
        elif k in "up":
            a, b = (R.choice(U64) if R.random() < .6 else R.getrandbits(64) for _ in "ab")
            ta, tb, ea, eb = a, b, enc(a, 0), enc(b, 0)
        else:
            a = [R.choice(b"aAbBzZ@[`{09\x01\x7f") for _ in range(R.randint(0, 5))]
            if k == "s" and R.random() < .3:
                a = [R.choice([1, 127, 128, 255]) for _ in range(R.randint(0, 3))]
            b = list(a)
            for _ in range(R.choice([0, 0, 1, 2])):
                x = R.random()
                if b and x < .4:
                    b[R.randrange(len(b))] = R.choice(b"aAbBzZ@[`{09\x01\x7f")
                elif b and x < .7:
                    b.pop()
                else:
                    b.append(R.choice(b"aAzZ"))
            if R.random() < .4:
                b = [c ^ 32 if chr(c).isalpha() and c < 128 and R.random() < .5 else c for c in b]
            if R.random() < .5:
                a, b = b, a
            ta, tb, ea, eb = hexs(a), hexs(b), a, b
        lines.append("cmp %d %s %s" % (ord(k), ta, tb))
        f.append(dict(kind=k, a=ea, b=eb))
    res, crash = comp.run(job["exe"], lines)
    evs = [{"op": "reset"}] + [dict(r, **x) for r, x in zip(res, f)]
    return {"events": evs, "crash": crash} if crash else {"events": evs}
