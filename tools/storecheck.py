"""C14, C15: the storage layer of a table against spec/Storage.tla (and the layouts of spec/StorageLayout.tla).

A history is (id, columns, ops); an operation is (op, args): ins/badlen [vals], upd/updbad [k, vals], del [k], delbad [], vac [],
add [col], rem [name].  A column is [name, type, length, flags].  Values are N i<int> d<bits> b0|b1 t<seconds> s<hex>.
Values are written by column, so an operation carries a seed for them and they are made when the columns are known (resolve)."""
import os
import random
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor

import dscheck
import sqlrun
from sqlrun import ModelFailure, NPROC

SIZES = {"INTEGER": 8, "DOUBLE": 8, "TINYINT": 1, "DATE": 8, "DATETIME": 8}


def value(rng, c):
    t = c[1]
    if rng.random() < .15:
        return "N"
    if t == "INTEGER":
        v = rng.choice([0, 1, -1, 7, 2**31, -2**31, 2**63 - 1, -2**63, rng.randrange(10**6)])
        return "i%d" % (v if c[2] >= 8 else rng.randrange(100))
    if t == "TINYINT":
        return "b%d" % rng.randrange(2)
    if t == "DOUBLE":
        return "d" + struct.pack(">d", rng.choice([0.0, 1.5, -2.25, 1e300, 1e-300, 0.1])).hex()
    if t in ("DATE", "DATETIME"):
        return "t%d" % rng.choice([0, 1, 86400, 951782400, 4102444800, -86400])
    n = rng.choice([0, 1, 2, c[2] - 1, c[2] - 1]) if c[2] > 1 else 0
    return "s" + bytes(rng.choice([97, 98, 255, 1, 32]) for _ in range(max(0, min(n, c[2] - 1)))).hex()


def resolve(h):
    """replace value seeds by values of the columns at that point; add/rem follow the specification of what is accepted"""
    hid, cols, ops = h
    cur, out = [list(c) for c in cols], []
    for op, a in ops:
        if op in ("ins", "badlen"):
            rng = random.Random(a[0])
            out.append((op, [[value(rng, c) for c in cur]]))
        elif op in ("upd", "updbad"):
            rng = random.Random(a[1])
            out.append((op, [a[0], [value(rng, c) for c in cur]]))
        else:
            out.append((op, a))
            if op == "add":
                c = a[0]
                if c[2] >= 1 and len(cur) < 128 and c[0] not in [x[0] for x in cur]:
                    cur.append(c)
            elif op == "rem":
                cur = [c for c in cur if c[0] != a[0]]
    return out


def spec(c):
    return "%s %s %d %s" % (c[0], c[1], c[2], c[3] or ".")


def script(h):
    hid, cols, ops = h
    out = ["H " + hid] + ["C " + spec(c) for c in cols]
    for op, a in resolve(h):
        if op in ("ins", "badlen"):
            out.append(op + " " + " ".join(a[0]))
        elif op in ("upd", "updbad"):
            out.append("%s %d %s" % (op, a[0], " ".join(a[1])))
        elif op == "del":
            out.append("del %d" % a[0])
        elif op == "add":
            out.append("add " + spec(a[0]))
        elif op == "rem":
            out.append("rem " + a[0])
        else:
            out.append(op)
    return "\n".join(out) + "\n"


def colrec(c):
    return dict(n=c[0], t=c[1], p=c[2], f=c[3] or "")


def parsed(col):
    n, t, p, f = col.split(" ")
    return dict(n=n, t=t, p=int(p), f=f.rstrip("."))


def lines_of(h, raw):
    hid = h[0]
    start = [e for e in raw if e["ev"] == "S"]
    obs = [e for e in raw if e["ev"] in ("E", "DIED", "GARBAGE")]
    if not start:
        start = [dict(cols=["%s" % spec(c) for c in h[1]], rows=[])]
    out = [dict(ev="reset", h=hid, i=0, cols=[parsed(c) for c in start[0]["cols"]], rows=start[0]["rows"])]
    for i, (op, a) in enumerate(resolve(h)):
        if i >= len(obs):
            break
        e = obs[i]
        args = dict(vals=[], col=colrec(["", "", 0, ""]), name="")
        if op in ("ins", "badlen"):
            args["vals"] = a[0]
        elif op in ("upd", "updbad"):
            args["vals"] = a[1]
        elif op == "add":
            args["col"] = colrec(a[0])
        elif op == "rem":
            args["name"] = a[0]
        d = dict(ev="op", h=hid, i=i + 1, op=op, a=args, st="OK", r="", at="", cols=[], rows=[], dead=0)
        if e["ev"] != "E":
            d["st"] = "HANG" if e.get("why") == "HANG" else "DIED"
            out.append(d)
            return out
        d.update(r=e["r"], at=e["at"], cols=[parsed(c) for c in e["cols"]], rows=e["rows"], dead=e["dead"])
        out.append(d)
    if not any(e["ev"] == "CLOSED" for e in raw) and len(out) == len(h[2]) + 1:
        out.append(dict(ev="op", h=hid, i=len(h[2]) + 1, op="destroy", a=dict(vals=[], col=colrec(["", "", 0, ""]), name=""), st="DIED", r="", at="", cols=[], rows=[], dead=0))
    return out


def drive(exe, hs, timeout=600):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", MDRV_LIMIT="20")
    p = subprocess.run([exe, "store"], input="".join(map(script, hs)).encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=timeout)
    if p.returncode:
        raise ModelFailure("driver exited with %d" % p.returncode)
    return sqlrun.parse_driver(p.stdout.decode("latin-1"))


def judge(sc, exes, hs):
    n = max(1, min(NPROC, len(hs)))
    parts = [hs[i::n] for i in range(n)]

    def one(i):
        raw = sqlrun.Recorded()
        for k, exe in enumerate(exes):
            sub = parts[i][k::len(exes)]
            if sub:
                raw.add(drive(exe, sub))
        lines = []
        for h in parts[i]:
            if raw.of(h[0]) is not None:
                lines += lines_of(h, raw.of(h[0]))
        return sqlrun.validate(sc, lines, "st%d" % i, "StoreTrace")

    mm, tally, events = [], {}, 0
    with ThreadPoolExecutor(n) as ex:
        for m, d in ex.map(one, range(n)):
            mm += m
            events += d["events"]
            for k, v in d["tally"].items():
                tally[k] = tally.get(k, 0) + v
    return mm, tally, events


# ---- histories ---------------------------------------------------------------------------------------------------
def fill_to(cols, size, rng):
    """columns that bring a row to exactly `size` bytes with its header"""
    have = 24 + sum(8 if c[1] == "VARCHAR" else c[2] for c in cols)
    return cols + [["pad", rng.choice(["INTEGER", "DOUBLE"]), size - have, "n"]]


def layout_walks(sc, rng, rows, narrow, wide, addsize, columns=True):
    """walks through every transition of StorageLayout with blocks of `narrow` rows, and `wide` when a column has been added"""
    edges, gen, states = dscheck.tlc_print(sc, "StorageLayout", {"MaxRows": rows, "Narrow": narrow, "Wide": wide, "Emit": "TRUE"}, "sl%d.%d" % (narrow, wide), inv=["Fits", "KeepsLive"])
    out = []
    if not columns:
        edges = [e for e in edges if e["op"] not in ("add", "rem") and not e["f"][1]]
    for i, w in enumerate(dscheck.cover(edges, [[], False], rng, 80)):
        base = [["v", "VARCHAR", 5, "n"], ["id", "INTEGER", 8, ""], ["d", "DATE", 8, "n"], ["w", "VARCHAR", 2, "n"]]
        rng.shuffle(base)
        # the largest row with `narrow` rows per block; with addsize more bytes only `wide` fit
        size = 4088 // narrow // 8 * 8
        cols = fill_to(base[:rng.randint(2, 4)], size, rng)
        rng.shuffle(cols)
        ops = []
        for op, k in w:
            if op == "ins":
                ops.append(("ins", [rng.randrange(10**9)]))
            elif op == "del":
                ops.append(("del", [k]))
            elif op == "vac":
                ops.append(("vac", []))
            elif op == "add":
                ops.append(("add", [["extra", "VARCHAR" if addsize == 8 and rng.random() < .5 else rng.choice(["INTEGER", "DATETIME"]), addsize, "nu"]]))
            else:
                ops.append(("rem", ["extra"]))
            if rng.random() < .25:
                ops.append(("upd", [rng.randrange(20), rng.randrange(10**9)]))
        out.append(("l%d.%d.%d" % (narrow, wide, i), cols, ops))
    return out, gen, states


def rand_col(rng, n, wide=.15):
    t = rng.choice(["VARCHAR", "INTEGER", "TINYINT", "DOUBLE", "DATE", "DATETIME"])
    p = rng.choice([1, 2, 8, 30]) if t == "VARCHAR" else SIZES[t]
    if t in ("INTEGER", "DOUBLE") and rng.random() < wide:
        p = 8 * rng.choice([10, 40, 63, 100, 120])
    return [n, t, p, rng.choice(["", "n", "n", "u", "np", "a", "i"])]


def rand_history(rng, i, columns):
    few = rng.random()
    nc = rng.choice([1, 2, 3, 5, 9]) if few < .8 else rng.choice([7, 8, 9, 15, 16, 17, 60, 63, 64, 65, 100, 124, 126, 127, 128])
    cols = [rand_col(rng, "c%d" % k, .3 if few < .8 else 0) for k in range(nc)]
    if few < .6 and sum(8 if c[1] == "VARCHAR" else c[2] for c in cols) < 300:
        cols.append(["big", "INTEGER", 8 * rng.choice([40, 62, 90, 120]), "n"])
    if sum(8 if c[1] == "VARCHAR" else c[2] for c in cols) > 3000:
        cols = cols[:3]
    names = [c[0] for c in cols]
    ops, live = [], 0
    n = rng.choice([15, 30, 50]) if nc < 20 else rng.choice([10, 18])
    grow = rng.choice([.4, .6, .8])
    for _ in range(rng.choice([0, 0, 4, 9, 14]) if nc < 20 else 4):
        ops.append(("ins", [rng.randrange(10**9)]))
    pc = .3 if columns else 0
    for k in range(n):
        x = rng.random()
        if x < pc:
            if rng.random() < .5:
                if rng.random() < .8:
                    c = rand_col(rng, "a%d" % k, .1)
                    names.append(c[0])
                else:
                    c = rng.choice([rand_col(rng, rng.choice(names or ["q"])), ["z%d" % k, "VARCHAR", 0, ""], ["z%d" % k, "INTEGER", -1, ""]])
                ops.append(("add", [c]))
            else:
                ops.append(("rem", [rng.choice(names) if names and rng.random() < .9 else rng.choice(["nosuch", "C0", "c"])]))
                if ops[-1][1][0] in names:
                    names.remove(ops[-1][1][0])
        elif x < pc + .05:
            ops.append((rng.choice(["vac", "vac", "delbad"]), []))
        elif x < pc + .07:
            ops.append(rng.choice([("badlen", [rng.randrange(10**9)]), ("updbad", [rng.randrange(9), rng.randrange(10**9)])]))
        elif rng.random() < grow:
            ops.append(("ins", [rng.randrange(10**9)]))
        elif rng.random() < .65:
            ops.append(("del", [rng.choice([0, 0, rng.randrange(50)])]))
        else:
            ops.append(("upd", [rng.randrange(50), rng.randrange(10**9)]))
    return ("r%d" % i, cols, ops)


def long_history(rng, i, columns):
    """many small rows: several full blocks, then a mass deletion and vacuums"""
    cols = [rand_col(rng, "c%d" % k, 0) for k in range(rng.choice([1, 2, 3]))]
    if not rng.randrange(3):
        cols = [["x", "INTEGER", 8, ""]]
    rs = 24 + sum(8 if c[1] == "VARCHAR" else c[2] for c in cols)
    per = 4095 // rs
    ops = [("ins", [rng.randrange(10**9)]) for _ in range(rng.choice([per - 1, per, per + 1, 2 * per]))]
    n = len(ops)
    keep = rng.choice([0, 1, n // 2, per - 1, n - 3])
    ops += [("del", [rng.choice([0, rng.randrange(n)])]) for _ in range(n - keep)]
    ops += [("vac", [])] + [("ins", [rng.randrange(10**9)]) for _ in range(3)]
    if columns:
        ops += rng.choice([[], [("add", [["more", "VARCHAR", 4, "n"]])], [("rem", [cols[0][0]])] if len(cols) > 1 else []])
    ops += [("ins", [1]), ("vac", []), ("upd", [3, 5])]
    return ("m%d" % i, cols, ops)


def workload(prop, sc, seed, tier, scale):
    big = tier == "thorough"
    rng = random.Random("%s/%d" % (prop, seed))
    hs, gen, states = [], 0, 0
    for rows, narrow, wide, add in ([(9, 4, 3, 8), (9, 3, 2, 640), (8, 5, 3, 400), (9, 2, 1, 1600)] if big else [(7, 4, 3, 8), (6, 3, 2, 640)]):
        w, g, s = layout_walks(sc, rng, rows, narrow, wide, add, prop == "C15")
        hs += w
        gen += g
        states += s
    n = int((5000 if big else 600) * scale)
    hs += [rand_history(rng, i, prop == "C15") for i in range(n)]
    hs += [long_history(rng, i, prop == "C15") for i in range(int((60 if big else 8) * scale))]
    rng.shuffle(hs)
    return hs, gen, states


def owns(prop, h, m):
    """C15: requests to change the columns and whatever follows one; C14: histories without any"""
    if prop == "C14":
        return True
    return any(op in ("add", "rem") for op, _ in h[2][:m["i"]])


def shrink(sc, exes, h, m):
    hid, cols, ops = h
    ops = ops[:max(1, min(m["i"], len(ops)))]
    for _ in sqlrun.Budget(6):
        n = len(ops)
        cands = []
        for size in {max(1, n // 2), max(1, n // 4), max(1, n // 16), 1}:
            cands += [ops[:a] + ops[min(a + size, n - 1):] for a in range(0, n - 1, size)]
        cands = cands[:200]
        if not cands:
            break
        mm, _, _ = judge(sc, exes, [("s%d" % k, cols, c) for k, c in enumerate(cands)])
        good = {x["h"] for x in mm if x["i"] >= len(cands[int(x["h"][1:])])}
        if not good:
            break
        ops = min((cands[int(g[1:])] for g in good), key=len)
    return (hid, cols, ops)


if __name__ == "__main__":
    import sys
    import time
    sc = sqlrun.Scratch()
    try:
        exes = [sqlrun.build(sc, "plain"), sqlrun.build(sc, "asan")]
        for p in sys.argv[1:]:
            t = time.time()
            hs, gen, st = workload(p, sc, 1, os.environ.get("VERIF_TIER", "quick"), 1)
            print(p, len(hs), gen, st, time.time() - t)
            mm, tally, ev = judge(sc, exes, hs)
            print(ev, tally, len(mm), mm[:5], time.time() - t)
            d = {h[0]: h for h in hs}
            for m in mm[:2]:
                print(script(shrink(sc, exes, d[m["h"]], m))[:1500], m)
    finally:
        sc.close()
