"""C21: threads executing statements on one database, under schedules chosen by harness/sched_shim.c; spec/Concurrent.tla explains the outcomes or not."""
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

import render
import sqlgen
import sqlrun
import workloads
from sqlgen import BOOL, DATE, DBL, INT, STR

NEVER = 1000000000


def contended(rng):
    """few rows that every statement touches"""
    cols = [dict(n=n, t=INT, p=0, nn=0, uq=0, ai=0, pk=0) for n in ("x", "y")] + ([dict(n="s", t=STR, p=12, nn=0, uq=0, ai=0, pk=0)] if rng.random() < .5 else [])
    val = lambda i: [("I", i), ("I", i)] + [("S", "v%d" % i)] * (len(cols) - 2)
    table = lambda t, ine: dict(k="create", t=t, ine=ine, cols=cols, idx=[])
    rows = lambda t, ids: dict(k="insert", t=t, cols=[], vals=[[["v", v] for v in val(i)] for i in ids])
    setup = [table("A", 0)] + ([rows("A", range(rng.randint(1, 5)))] if rng.random() < .85 else [])
    late = rng.random() < .35      # threads create a table as well
    names = [c["n"] for c in cols]

    def where(i):
        return rng.choice([[], [], ["cmp", "<", ["c", "", "x"], ["v", ("I", rng.randrange(6))]], ["cmp", "=", ["c", "", "x"], ["c", "", "y"]], ["cmp", ">=", ["c", "", "y"], ["v", ("I", rng.randrange(12))]]])

    def stmt(i):
        t = "B" if late and rng.random() < .5 else "A"
        x = rng.random()
        if t == "B" and x < .5:
            return table("B", rng.randrange(2))
        if x < .3:
            return rows(t, [10 * i + j for j in range(rng.choice([1, 1, 2, 4]))])
        if x < .55:
            return dict(k="update", t=t, set=[[n, v] for n, v in zip(names, val(10 * i))], where=where(i))
        if x < .7:
            return dict(k="delete", t=t, where=where(i))
        if x < .9:
            return workloads.sel(t)
        if x < .95:
            return workloads.sel(t, [["count"]])
        return dict(k="bad", why="syntax", text="SELECT * FROM A WHERE;") if rng.random() < .5 else workloads.sel("Nope")

    threads = spread(rng, stmt)
    if rng.random() < .25:          # all start with the same table
        for ops in threads:
            ops.insert(0, table("B", int(rng.random() < .7)))
    return setup, threads


def spread(rng, stmt):
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    n, threads = 0, []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(1, {2: 4, 3: 3, 4: 2}[nt])):
            n += 1
            ops.append(stmt(n))
        threads.append(ops)
    return threads


def program(rng):
    """statements before the threads start, and the statements of each thread"""
    x = rng.random()
    if x < .45:
        return contended(rng)
    if x < .55:
        s = workloads.wide_schema(rng, ncols=rng.choice([60, 61, 100]))
        setup = [s, workloads.wide_rows(rng, s, range(rng.randint(2, 9)))]
        mk = [lambda i: workloads.wide_rows(rng, s, [100 + i]), lambda i: dict(k="delete", t="A", where=workloads.idcond(rng, 9)),
              lambda i: dict(k="update", t="A", set=[["c0", ("I", i)]], where=workloads.idcond(rng, 9)), lambda i: workloads.sel("A", [workloads.col("id"), workloads.col("c0")]),
              lambda i: workloads.sel("A", [["count"]])]
        stmt = lambda i: rng.choice(mk)(i)
    else:
        g = sqlgen.Gen(rng, tables=(1, 2), cols=(1, 3), types=rng.choice([[INT], [INT, STR], [INT, STR, DBL, BOOL, DATE]]), prefix_rows=5, join=.2, group=.15, count=.15, p_noise=.1,
                       p_null=.1, p_extreme=0, bad=0, p_mutant=0, p_sentence=0, arith=.05, maxrows=30, length=(0, 0), names=["A", "B", "C"], p_where=.6)
        setup = g.history()
        kinds = [g.insert] * 4 + [g.update] * 4 + [g.delete] * 2 + [g.select] * 3 + [g.create] * (3 if x > .85 else 1) + [g.bad]
        stmt = lambda i: rng.choice(kinds)()
    return setup, spread(rng, stmt)


def schedule(rng, n, full):
    """seed, mean, points, range, lock%, hot, fine (harness/sched_shim.c).  A statement takes some hundred steps in the engine and some thousand in all, several times that with accesses to memory."""
    seed = rng.randrange(1, 1 << 40)
    fine = int(rng.random() < .35)
    k = (1 if full else .1) * (4 if fine else 1)
    hot = rng.choice([0, 0, 16, 64, 256, 1024])
    if rng.random() < .5:
        return "%d %d 0 1 %d %d %d" % (seed, max(1, int(k * rng.choice([5, 10, 30, 100, 300, 1000, 3000]))), rng.choice([0, 20, 60]), hot, fine)
    return "%d 0 %d %d %d %d %d" % (seed, rng.choice([1, 2, 3, 5, 10, 30]), int(k * max(1, n) * rng.choice([800, 2500, 4000])), rng.choice([0, 0, 50]), hot, fine)


def histories(seed, tier, scale, per=4):
    n = int((6000 if tier == "thorough" else 800) * scale)
    out = []
    for i in range(n):
        rng = random.Random("C21/%d/%d" % (seed, i))
        setup, threads = program(rng)
        for k in range(per):
            out.append(("c%d.%d" % (i, k), setup, threads, schedule(rng, sum(len(t) for t in threads), k % 2 == 1)))
    return out


def script(h):
    hid, setup, threads, sched = h
    o = ["H " + hid] + ["Q " + render.escape(render.sql(s)) for s in setup]
    for k, ops in enumerate(threads):
        o += ["T %d %s" % (k, render.escape(render.sql(s))) for s in ops]
    return "\n".join(o + ["P " + sched, "G", ""])


def project(db):
    return {t["name"]: dict(cols=t["cols"], rows=sqlrun.enc_rows(t["rows"])) for t in db}


def record(h, raw):
    """the run as spec/Concurrent.tla reads it; None when the threads never started"""
    hid, _, threads, _ = h
    init = final = None
    ops = [[] for _ in threads]
    died, conf, race = "", [], []
    for j in raw:
        if j["ev"] == "INIT":
            init = project(j["db"])
        elif j["ev"] == "CONF":
            conf = [[dict(t=a["t"], vc=a["vc"]) for a in c] for c in j["pairs"]]
            race = [c for c in j["pairs"] if c[0]["vc"][c[0]["t"]] > c[1]["vc"][c[0]["t"]]]
        elif j["ev"] == "FINAL":
            final = project(j["db"])
        elif j["ev"] in ("DIED", "DEADLOCK", "GARBAGE"):
            died = died or (j.get("why") or j["ev"])
        elif j["ev"] == "OP":
            s = threads[j["t"]][len(ops[j["t"]])]
            e = dict(s=sqlrun.enc_stmt(s), inv=j["inv"], resp=j["resp"])
            j.setdefault("st", "NULLOUT")
            e["st"] = j["st"]
            sqlrun.set_outcome(e, j)
            ops[j["t"]].append(e)
    if init is None and not died:
        return None, died
    if final is None or died:
        # the process did not get through: no order explains that
        ops = [[dict(s=sqlrun.enc_stmt(s), inv=0, resp=NEVER, st="DIED", n=0, msg=0, cols=[], rows=[]) for s in t] for t in threads]
        init = final = init or {}
    if race and not died:
        died = "unordered accesses to memory: " + "; ".join(sorted({" and ".join(sorted(str(a["pc"]) for a in c)) for c in race}))
    return dict(h=hid, init=init, ops=ops, final=final, conf=conf), died


def judge(sc, exes, hs, tag="c"):
    """returns ({id: why} of the runs that nothing explains, states, steps)"""
    n = max(1, min(sqlrun.NPROC, len(hs)))
    parts = [hs[i::n] for i in range(n)]

    def one(i):
        part, runs, why = parts[i], [], {}
        for k, exe in enumerate(exes):
            sub = [h for h in part if int(h[0].split(".")[1]) % len(exes) == k]
            if not sub:
                continue
            raw = sqlrun.run_driver_text(exe, "".join(script(h) for h in sub), "conc", dict(MDRV_LIMIT="8"))
            for h in sub:
                run, died = record(h, raw.of(h[0]) or [])
                if run and raw.of(h[0]) is not None:
                    runs.append(run)
                    why[h[0]] = died
        path = sc.path("runs-%s-%d.ndjson" % (tag, i))
        with open(path, "w") as f:
            for x in runs:
                f.write(json.dumps(x) + "\n")
        out = sqlrun.run_tlc(sc, "Concurrent", path, "%s%d" % (tag, i))
        os.unlink(path)
        m = re.search(r'^"RUNS (.*)"$', out, re.M)
        if not m:
            raise sqlrun.ModelFailure("TLC did not finish the runs:\n" + out[-3000:])
        d = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        ok = set(d["explained"])
        return {h: why[h] or "no order of the statements explains the outcomes" for h in why if h not in ok}, d["states"], d["steps"], len(runs)

    bad, states, steps, runs = {}, 0, 0, 0
    with ThreadPoolExecutor(n) as ex:
        for b, s, t, k in ex.map(one, range(n)):
            bad.update(b)
            states += s
            steps += t
            runs += k
    return bad, states, steps, runs


def shrink(sc, exes, h):
    """fewer statements under the same schedule, as long as nothing explains the run"""
    for _ in sqlrun.Budget(4):
        hid, setup, threads, sched = h
        cands = [(setup[:i] + setup[i + 1:], threads) for i in range(len(setup))]
        cands += [(setup, [t[:j] + t[j + 1:] if k == i else t for k, t in enumerate(threads)]) for i in range(len(threads)) for j in range(len(threads[i]))]
        base = hid.split(".")[-1]
        hs = [("s%d.%s" % (i, base), a, [t for t in b if t], sched) for i, (a, b) in enumerate(cands)]
        bad = judge(sc, exes, [x for x in hs if x[2]], "shrink")[0]
        good = [x for x in hs if x[0] in bad]
        if not good:
            return h
        h = good[0]
    return h
