"""C19 and C24: memory.  Histories for spec/ResourceTrace.tla, run on builds whose allocations go through harness/wrap_shim.c."""
import random

import render
import sqlgen
import sqlrun
import workloads
from sqlgen import BOOL, DATE, DBL, DTIME, INT, STR

MIX = dict(insert=5, update=4, delete=3, select=8, create=1)


def gen(rng, **kw):
    p = dict(tables=(1, 3), cols=(1, 4), join=.4, group=.3, count=.15, arith=.25, prefix_rows=5, p_noise=.15, bad=.1, flags=.25, length=(10, 18), w=MIX, collist=.4,
             types=[INT, DBL, STR, STR, BOOL, DATE, DTIME], names=["A", "B", "C", "T1"])
    p.update(kw)
    return sqlgen.Gen(rng, **p)


def op(k, a, **kw):
    return dict(op=k, s=a, sql=render.sql(a), **kw)


def mem_history(rng):
    x = rng.random()
    if x < .15:
        asts = [o["s"] for o in workloads.big(["select", "count", "group", "update", "delete", "insert"], (10, 40))(rng, "quick")]
    elif x < .3:
        asts = [o["s"] for o in workloads.cursors(True, rng.random() < .3)(rng, "quick") if o["op"] == "Q" or o["op"] == "K"]
    elif x < .4:
        asts = gen(rng, p_noise=.4, bad=.3, tables=(1, 2)).history()
    elif x < .5:
        asts = gen(rng, p_noise=.2, bad=.8, p_sentence=.7, alias=.3).history()
    elif x < .6:
        asts = gen(rng, tables=(3, 4), join=1.0, join_tables=(2, 4), w=dict(select=10, insert=1), p_noise=.1).history()
    else:
        asts = gen(rng).history()
    return [op("M", a) for a in asts]


def sparse_insert(g):
    """rows that are NULL wherever they may be"""
    t = g.table()
    cols = g.cols_of(t)
    return dict(k="insert", t=t, cols=[], vals=[[["v", ("N",) if not c["nn"] and g.r.random() < .8 else g.value(c["t"], c["p"] or 10)] for c in cols] for _ in range(g.r.randint(1, 3))])


def fault_history(rng, step):
    g = gen(rng, p_noise=.05, bad=0, p_extreme=.02, cols=(1, 3), prefix_rows=4, length=(3, 6))
    asts = g.history()
    head = [a for a in asts]
    ops = [op("Q", a) for a in head]
    kinds = ["insert", "insert", "update", "delete", "select", "select", "create", "sentence"]
    for _ in range(rng.randint(2, 3)):
        k = rng.choice(kinds)
        if k == "insert" and rng.random() < .3:
            a = g.insert(None, rng.randint(2, 5))
        elif k == "insert" and rng.random() < .4:
            a = sparse_insert(g)
        else:
            a = getattr(g, k)()
        t = a.get("t") or (a["from"][0][0] if "from" in a else "A")
        tail = [a, workloads.sel(t)]
        if t in g.db and rng.random() < .6:
            tail.append(g.insert(t, 1))
        if t in g.db and rng.random() < .6:      # every cell that is left is written
            tail.append(dict(k="update", t=t, set=[[c["n"], g.value(c["t"], c["p"] or 10)] for c in g.cols_of(t)], where=[]))
            tail.append(workloads.sel(t))
        if rng.random() < .4:
            tail.append(getattr(g, rng.choice(["update", "delete", "select"]))())
        ops.append(op("E", a, tail=[op("T", x) for x in tail], **{"from": rng.randrange(step), "step": step}))
        ops.append(op("Q", a))
    return ops


def block_fault_history(rng, step):
    """an INSERT of several rows into a table whose block is nearly full"""
    s = workloads.wide_schema(rng, ncols=rng.choice([20, 30, 61]), varchar=rng.random() < .6)
    per = 4096 // (24 + 8 * len(s["cols"]))
    n = rng.choice([per - 1, per, max(0, per - 2)])
    ops = [op("Q", s)] + [op("Q", workloads.wide_rows(rng, s, [i])) for i in range(n)]
    a = workloads.wide_rows(rng, s, range(100, 100 + rng.randint(2, 5)))
    tail = [workloads.sel("A"), workloads.wide_rows(rng, s, [200]), workloads.sel("A", [["count"]])]
    ops.append(op("E", a, tail=[op("T", x) for x in tail], **{"from": rng.randrange(step), "step": step}))
    b = workloads.sel("A", None, workloads.idcond(rng, n)) if rng.random() < .5 else dict(k="update", t="A", set=[["c0", ("S", "zz") if s["cols"][1]["t"] == STR else ("I", 5)]], where=[])
    ops.append(op("E", b, tail=[op("T", x) for x in tail], **{"from": rng.randrange(step), "step": step}))
    return ops


def histories(prop, seed, tier, scale, asan):
    big = tier == "thorough"
    out = []
    if prop == "C19":
        n = int((4000 if big else 450) * scale)
        for i in range(n):
            rng = random.Random("C19/%d/%d/%d" % (seed, asan, i))
            out.append(("m%d.%d" % (asan, i), mem_history(rng)))
        for i in range(0 if asan else n // 9):       # what is left behind when memory runs out
            rng = random.Random("C19/fault/%d/%d" % (seed, i))
            out.append(("f%d.%d" % (asan, i), block_fault_history(rng, 40) if i % 8 == 7 else fault_history(rng, 10)))
    else:
        n = int(((400 if big else 32) if asan else (1500 if big else 130)) * scale)
        step = 12 if asan else 3 if big else 9
        for i in range(n):
            rng = random.Random("C24/%d/%d/%d" % (seed, asan, i))
            out.append(("f%d.%d" % (asan, i), block_fault_history(rng, step * 3) if i % 8 == 7 else fault_history(rng, step)))
    return out


def narrow(ops, fault):
    """only the failing allocation: `fault` is "<allocation>.<all>" of the last operation"""
    ops = [dict(o) for o in ops]
    if fault and ops[-1]["op"] == "E":
        ops = [o for o in ops if o["op"] != "E"] + [dict(ops[-1])]
        at, everything = (int(x) for x in fault.split("."))
        ops[-1]["from"] = max(0, at - 1 - everything)
        ops[-1]["step"] = 1 << 20
    return ops
