#!/usr/bin/env python3
"""check.py <property>   decide one property on /repo's current working tree.

VERIF_SEED (default 1) and VERIF_TIER (quick | thorough) come from the environment.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: the machinery failed.
"""
import glob
import json
import subprocess
import re
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcgen
import render
import sqlrun
import workloads
from sqlrun import ModelFailure, ROOT, Scratch

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
EVID = os.path.join(ROOT, "evidence")

# ---- which divergences from the specification break which property ----------------------------------------------


def has_arith(s):
    return s["k"] == "insert" and any(e[0] != "v" for t in s["vals"] for e in t)


def aspects(m):
    return set(m["asp"])


KNOWN = ("ok", "may")      # accepted, or accepted at the implementation's choice with a settled meaning
LOST = {"DIED", "HANG"}
WRITE = {"rejected", "target-rows", "other-table", "affected", "status", "typed", "schema", "table-missing"} | LOST
READ = {"rejected", "result-rows", "result-columns", "status"} | LOST


def own_insert(m, s):
    return s["k"] == "insert" and m["v"] in KNOWN and not has_arith(s) and bool(aspects(m) & WRITE)


def own_kind(kind):
    return lambda m, s: s["k"] == kind and m["v"] in KNOWN and bool(aspects(m) & WRITE)


def plain_select(s):
    return s["k"] == "select" and len(s["from"]) == 1 and not s["group"] and not any(i[0].startswith("count") for i in s["items"])


def own_c04(m, s):
    return plain_select(s) and m["v"] in KNOWN and bool(aspects(m) & READ)


def own_c05(m, s):
    return s["k"] == "select" and len(s["from"]) > 1 and not s["group"] and m["v"] in KNOWN and bool(aspects(m) & READ)


def own_c06(m, s):
    return s["k"] == "select" and (s["group"] or any(i[0].startswith("count") for i in s["items"])) \
        and (m["v"] in KNOWN and bool(aspects(m) & READ) or m["v"] == "rej" and m["why"] in ("group", "count-twice") and "accepted" in m["asp"])


def own_c07(m, s):
    a = aspects(m)
    return bool(a & {"rejected-changed", "no-message"}) or (m["v"] == "rej" and bool(a & ({"accepted"} | LOST))) \
        or (m["v"] in ("any", "may") and bool(a & LOST))


def own_c08(m, s):
    a = aspects(m)
    return s["k"] == "create" or (m["v"] == "rej" and m["why"] in ("table", "column") and "accepted" in a) \
        or "schema" in a or "table-missing" in a or m.get("named")


def nulls_given(s):
    if s["k"] == "insert":
        return bool(s["cols"]) or any(e == ["v", ("N",)] for t in s["vals"] for e in t)
    return s["k"] == "update" and any(v == ("N",) for _, v in s["set"])


def own_c09(m, s):
    a = aspects(m)
    return "null-in-not-null" in a or (m["why"] == "notnull" and bool(a & ({"accepted", "rejected-changed"} | LOST))) \
        or ("rejected" in a and nulls_given(s))


def own_c10(m, s):
    a = aspects(m)
    return s["k"] in ("select", "update", "delete") and bool(s.get("where")) and \
        (m["v"] in KNOWN and bool(a & (WRITE | READ)) or m["why"] == "cond-type" and "accepted" in a)


def own_c11(m, s):
    a = aspects(m)
    return has_arith(s) and (m["v"] in KNOWN and bool(a & WRITE) or bool(a & LOST) or (m["why"] in ("type", "notnull") and "accepted" in a))


def own_c12(m, s):
    a = aspects(m)
    return m["k"] == "fetch" or (s["k"] == "select" and m["v"] in KNOWN and bool(a & {"result-rows", "DIED", "HANG", "rejected", "status"}))


def own_c13(m, s):
    a = aspects(m)
    return m["k"] in ("fetch", "free") or "select-changed" in a or (s["k"] == "select" and bool(a & {"rejected-changed"} | a & LOST))


def own_c22(m, s):
    a = aspects(m)
    return "typed" in a or (m["why"] in ("type", "length", "date", "cond-type") and bool(a & ({"accepted", "rejected-changed"} | LOST)) and s["k"] != "create") \
        or (m["v"] in KNOWN and s["k"] in ("insert", "update") and bool(a & {"target-rows"}))


def own_c23(m, s):
    a = aspects(m)
    return "other-table" in a or "select-changed" in a or (m["why"] in ("table", "exists") and "accepted" in a) \
        or (m["v"] in KNOWN and bool(a & {"rejected", "target-rows", "table-missing", "DIED", "HANG", "result-rows"}))


OWN = {"C01": own_insert, "C02": own_kind("update"), "C03": own_kind("delete"), "C04": own_c04, "C05": own_c05, "C06": own_c06, "C07": own_c07,
       "C08": own_c08, "C09": own_c09, "C10": own_c10, "C11": own_c11, "C12": own_c12, "C13": own_c13, "C22": own_c22, "C23": own_c23}

# ---- reporting --------------------------------------------------------------------------------------------------


def evidence(prop, level, coverage, t0, violations=0, assumptions=None):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, wall_s=round(time.time() - t0, 2), violations=violations,
             assumptions=assumptions or [])
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(d, f, indent=1, default=str)


reported = 0


def violation(prop, n, data):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "replay-%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    global reported
    reported += 1


def show(ops):
    return [o["op"] + (o.get("slot") or "") + (" " + o["sql"] if "sql" in o else "") for o in ops]


def known_findings(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


# ---- the SQL properties ------------------------------------------------------------------------------------------


def op_stmt(ops, i):
    """statement of operation i (1-based); cursor operations have the SELECT that opened their slot"""
    if i > len(ops):
        return dict(k="close")
    o = ops[i - 1]
    if "s" in o:
        return o["s"]
    for p in reversed(ops[:i]):
        if p["op"] == "K" and p["slot"] == o["slot"]:
            return p["s"]
    return dict(k="close")


# the statements a property is about, by whose absence a later divergence is explained
SUBJECT = {"C07": lambda o, e: e.get("st") == "ERR",
           "C02": lambda o, e: o["op"] == "Q" and o["s"]["k"] == "update",
           "C03": lambda o, e: o["op"] == "Q" and o["s"]["k"] == "delete",
           "C13": lambda o, e: o["op"] in "KFX" or o["s"]["k"] == "select"}


class SqlCheck:
    def __init__(self, prop, scratch):
        self.prop, self.sc = prop, scratch
        self.exes = [sqlrun.build(scratch, "plain"), sqlrun.build(scratch, "asan")]

    def run(self, hs, shards=None):
        return sqlrun.run_all(self.sc, self.exes, hs, shards)

    def owned(self, mism, hs):
        d = dict(hs)
        own = OWN[self.prop]
        out = []
        for m in mism:
            s = op_stmt(d[m["h"]], m["i"])
            if own(m, s):
                out.append(m)
        return out

    def confirm(self, m, ops):
        """the same history again, on each build"""
        hs = [("r%d" % k, ops) for k in range(len(self.exes))]
        mm = []
        for k, exe in enumerate(self.exes):
            raw = sqlrun.run_driver(exe, [hs[k]])
            lines = sqlrun.trace_lines(hs[k][0], ops, raw.get(hs[k][0], [{"ev": "DIED", "why": "CRASH"}]))
            x, _ = sqlrun.validate(self.sc, lines, "confirm")
            mm += x
        own = OWN[self.prop]
        return [x for x in mm if x["i"] == m["i"] and own(x, op_stmt(ops, x["i"]))]

    def shrink(self, m, ops):
        """drop operations as long as the last one still diverges"""
        ops = ops[:m["i"]]
        own = OWN[self.prop]
        for _ in sqlrun.Budget(5):
            cands = []
            n = len(ops)
            size = max(1, n // 4)
            for a in range(0, n - 1, size):
                cands.append(ops[:a] + ops[min(a + size, n - 1):])
            if size > 1:
                cands += [ops[:a] + ops[a + 1:] for a in range(n - 1)]
            hs = [("s%d" % k, c) for k, c in enumerate(cands)]
            try:
                mm, _, _ = self.run(hs)
            except Exception:
                break
            good = [c for h, c in hs if any(x["h"] == h and x["i"] == len(c) and own(x, op_stmt(c, x["i"])) for x in mm)]
            if not good:
                break
            ops = min(good, key=len)
        return ops

    def decide(self, hs, cov):
        """judge the histories; returns the number of confirmed violations"""
        mism, tally, events = self.run(hs)
        cov["transitions"] += events
        cov["states"] += events + len(hs)
        cov["traces_validated_against_impl"] += len(hs)
        for k, v in tally.items():
            cov["steps"][k] = cov["steps"].get(k, 0) + v
        cov["divergences_of_other_properties"] += len(mism)
        d = dict(hs)
        seen, n = set(), 0
        todo = self.owned(mism, hs)
        cov["divergences_of_other_properties"] -= len(todo)
        if self.prop in SUBJECT:
            todo += self.aftermath([m for m in mism if m not in todo], d)
        for m in todo:
            key = (m["k"], tuple(sorted(m["asp"])), m["why"])
            if key in seen or n >= 3 or (n and sqlrun.late()):
                continue
            ops = d[m["h"]]
            if not m.get("aftermath") and not self.confirm(m, ops):
                continue
            seen.add(key)
            n += 1
            small = ops if m.get("aftermath") else self.shrink(m, ops)
            violation(self.prop, n, dict(property=self.prop, divergence=m, history=show(small), full_history=show(ops[:m["i"]]),
                                         how="build/mdrv sql, one operation per line; the last operation diverges from spec/MidoriSQL.tla"))
        return n

    def aftermath(self, mism, d):
        """a later statement misbehaves, but only because a statement the property is about came before it"""
        out, pairs = [], []
        subject = SUBJECT[self.prop]
        hang = [m for m in mism if "HANG" in m["asp"]]
        for m in [m for m in mism if m not in hang][:40] + hang[:2]:
            if sqlrun.late():
                break
            ops = d[m["h"]][:m["i"]]
            raw = sqlrun.run_driver(self.exes[0], [("x", ops)]).get("x", [])
            keep = [o for k, o in enumerate(ops) if k == len(ops) - 1 or not (k < len(raw) and subject(o, raw[k]))]
            if len(keep) < len(ops) and (ops[-1]["op"] == "Q" or self.prop == "C07"):
                pairs.append((m, ops, keep))
        if pairs:
            hs = []
            for k, (m, ops, keep) in enumerate(pairs):
                hs += [("a%d" % k, ops), ("b%d" % k, keep)]
            mm, _, _ = self.run(hs)
            for k, (m, ops, keep) in enumerate(pairs):
                if any(x["h"] == "a%d" % k and x["i"] == len(ops) for x in mm) and not any(x["h"] == "b%d" % k and x["i"] == len(keep) for x in mm):
                    out.append(dict(m, aftermath=True))
        return out


def check_sql(prop, t0):
    sc = Scratch()
    try:
        c = SqlCheck(prop, sc)
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps={}, divergences_of_other_properties=0)
        hs, states, trans = mcgen.histories(prop, sc, SEED, TIER)
        cov.update(model_states=states, model_transitions=trans, model_walks=len(hs))
        hs += workloads.histories(prop, SEED, TIER, SCALE)
        n = 0
        for a in range(0, len(hs), 1500):
            n += c.decide(hs[a:a + 1500], cov)
            if n:
                break
        cov["samples"] = [show(o)[:12] for _, o in hs[:1] + hs[-1:]]
        cov["states"] += states
        cov["transitions"] += trans
        cov["explanation"] = "walks that take every transition of the models MidoriMC / Cursors that bears on the property, and random histories: every recorded call of the histories was judged by TLC against Exec of spec/MidoriSQL.tla, with the whole database before and after it"
        for k in known_findings(prop):
            if probe(c, k):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        evidence(prop, "model_checking", cov, t0, n,
                 ["the projection of the database read through its public structures is faithful", "statements outside the generated grammar are not covered"])
        return 1 if n else 0
    finally:
        sc.close()


def probe(c, k):
    """does a recorded finding still fail?"""
    ops = [dict(op="Q", s=dict(k="free"), sql=q) for q in k["history"]]
    raw = sqlrun.run_driver(c.exes[0], [("k", ops)]).get("k", [])
    raw = [r for r in raw if r["ev"] == "Q"]
    if len(raw) < len(ops):
        return True
    last = raw[-1]
    return not (last["st"] == "ERR" or [[v[-1] for v in r] for r in last.get("rows", [])] == k["right_rows"])


# ---- C20: spelling does not matter --------------------------------------------------------------------------------


def check_c20(prop, t0):
    sc = Scratch()
    OWN["C20"] = lambda m, s: True
    try:
        c = SqlCheck(prop, sc)
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps={}, divergences_of_other_properties=0)
        n_h = int(workloads.SIZE[TIER] * SCALE * .9)
        plain, dec = [], []
        import sqlgen
        for i in range(n_h):
            rng = random.Random("C20/%d/%d" % (SEED, i))
            g = sqlgen.Gen(rng, join=.3, group=.2, arith=.15, p_noise=.05, p_extreme=.2, tables=(1, 3), length=(8, 16), flags=.3)
            asts = g.history()
            st = render.Style(rng, case=True, space=rng.random() < .8, comments=rng.random() < .6, synonyms=rng.random() < .5, parens=rng.random() < .5)
            plain.append(("p%d" % i, sqlrun.plain_ops(asts)))
            dec.append(("d%d" % i, sqlrun.plain_ops(asts, st)))
        total = 0
        for a in range(0, n_h, 1200):
            mm, tally, ev = c.run(dec[a:a + 1200])
            cov["transitions"] += ev
            cov["states"] += ev
            cov["traces_validated_against_impl"] += len(dec[a:a + 1200])
            for k, v in tally.items():
                cov["steps"][k] = cov["steps"].get(k, 0) + v
            # the plain spelling of the same history: a divergence it shares is not about spelling
            dd, pp = dict(dec), dict(plain)
            first = {}
            for m in mm:
                first.setdefault(m["h"], m)
            todo = list(first.values())[:60]
            if todo:
                pm, _, _ = c.run([("p" + m["h"][1:], pp["p" + m["h"][1:]]) for m in todo])
                shared = {(x["h"][1:], x["i"]) for x in pm}
                todo = [m for m in todo if (m["h"][1:], m["i"]) not in shared]
                cov["divergences_of_other_properties"] += len(mm) - len(todo)
            seen = set()
            for m in todo:
                key = (m["k"], tuple(sorted(m["asp"])))
                if key in seen or total >= 3 or (total and sqlrun.late()) or not c.confirm(m, dd[m["h"]]):
                    continue
                seen.add(key)
                total += 1
                small = [o for o in dd[m["h"]][:m["i"]]]
                violation(prop, total, dict(property=prop, divergence=m, history=show(small), plain=show(pp["p" + m["h"][1:]])[:m["i"]]))
            if total:
                break
        cov["samples"] = [show(o)[:6] for _, o in dec[:2]]
        cov["explanation"] = "each history is written in a random spelling (letter case of keywords, white space, comments, synonyms, redundant parentheses) and judged by TLC against the same ASTs"
        evidence(prop, "model_checking", cov, t0, total)
        return 1 if total else 0
    finally:
        sc.close()


# ---- C14 .. C18: storage and containers ----------------------------------------------------------------------------------


def check_ds(prop, t0):
    if prop in ("C14", "C15"):
        import storecheck as dscheck
    else:
        import dscheck
    sc = Scratch()
    try:
        exes = [sqlrun.build(sc, "plain"), sqlrun.build(sc, "asan")]
        hs, gen, states = dscheck.workload(prop, sc, SEED, TIER, SCALE)
        d = {h[0]: h for h in hs}
        n, seen = 0, set()
        events, tally, done = 0, {}, 0
        for a in range(0, len(hs), 12000):
            part = hs[a:a + 12000]
            mm, t, ev = dscheck.judge(sc, exes, part)
            events += ev
            done += len(part)
            for k, v in t.items():
                tally[k] = tally.get(k, 0) + v
            for m in mm:
                key = (m["k"], tuple(sorted(m["asp"])))
                h = d[m["h"]]
                if key in seen or n >= 3 or (n and sqlrun.late()) or not dscheck.owns(prop, h, m):
                    continue
                again, _, _ = dscheck.judge(sc, exes, [h, ("again",) + h[1:]])
                if not again:
                    continue
                seen.add(key)
                n += 1
                small = dscheck.shrink(sc, exes, h, m)
                violation(prop, n, dict(property=prop, divergence=m, history=dscheck.script(small).split("\n"), how="mdrv %s; the last operation diverges from spec/%s.tla" % (("store", "Storage") if prop in ("C14", "C15") else ("ds", "Containers"))))
            if n:
                break
        cov = dict(states=states + events, transitions=gen + events, traces_validated_against_impl=done, steps=tally, model_states=states, model_transitions=gen,
                   samples=[dscheck.script(h).split("\n")[:10] for h in hs[:2] + hs[-1:]],
                   explanation="histories generated from the models (every operation sequence up to a depth, or walks that together take every transition of the model of the "
                               "algorithm) and at random were run on the real code; TLC judged the answer and the whole content after every operation")
        evidence(prop, "model_checking", cov, t0, n, ["callers respect the documented calling conditions"])
        return 1 if n else 0
    finally:
        sc.close()


# ---- C19, C24: memory ----------------------------------------------------------------------------------------------------


def own_resources(prop, m):
    a = aspects(m)
    if prop == "C19":
        return bool(a & {"unreachable-memory", "memory-grows", "not-released"})
    return bool(a - {"not-released"})          # every history is free of surprises until allocations fail; `#` marks what followed a failure


def check_resources(prop, t0):
    import rescheck
    sc = Scratch()
    try:
        exes = [sqlrun.build(sc, "wrap"), sqlrun.build(sc, "wasan")]
        env = {"MDRV_LIMIT": "120"}
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps={}, divergences_of_other_properties=0)
        n, seen = 0, set()
        for asan in (0, 1):
            hs = rescheck.histories(prop, SEED, TIER, SCALE, asan)
            d = dict(hs)
            cov["samples"] += [show(o)[:10] for _, o in hs[:1]]
            for a in range(0, len(hs), 600):
                part = hs[a:a + 600]
                mm, tally, ev = sqlrun.run_all(sc, [exes[asan]], part, module="ResourceTrace", env=env)
                cov["transitions"] += ev
                cov["states"] += ev
                cov["traces_validated_against_impl"] += len(part)
                for k, v in tally.items():
                    cov["steps"][k] = cov["steps"].get(k, 0) + v
                for m in mm:
                    hid, _, fault = m["h"].partition("#")
                    if prop == "C24" and not fault or not own_resources(prop, m):
                        cov["divergences_of_other_properties"] += 1
                        continue
                    key = (m["k"], tuple(sorted(m["asp"])), bool(fault))
                    if key in seen or n >= 3 or (n and sqlrun.late()):
                        continue
                    ops = rescheck.narrow(d[hid][:m["i"]], fault)
                    again, _, _ = sqlrun.run_all(sc, [exes[asan]], [(hid, ops)], module="ResourceTrace", env=env)
                    if not any(own_resources(prop, x) and ("#" in x["h"] or prop == "C19") for x in again):
                        continue
                    seen.add(key)
                    n += 1
                    violation(prop, n, dict(property=prop, divergence=m, history=show(ops), allocation_that_fails=fault or None, tail=[show(o["tail"]) for o in ops if "tail" in o],
                                            how="mdrv sql built with harness/wrap_shim.c; spec/ResourceTrace.tla rejects the recorded step"))
            if n:
                break
        cov["explanation"] = ("memory in use before and after every statement (each repeated while it leaves the database as it was), and blocks nothing refers to, judged by spec/ResourceTrace.tla"
                              if prop == "C19" else
                              "statements run once per allocation they make, with that allocation (or all from it on) refused; the outcome and the statements that follow in the same "
                              "process are judged by spec/ResourceTrace.tla: success as specified, or an error that leaves every table intact (or whole rows of the statement applied)")
        evidence(prop, "model_checking", cov, t0, n, ["only malloc, calloc, realloc and their callers in libc (strdup, regcomp) fail; not the stack"] if prop == "C24" else
                 ["blocks are considered reachable when any live block, global or stack word holds their address"])
        return 1 if n else 0
    finally:
        sc.close()


# ---- C21: concurrent statements -------------------------------------------------------------------------------------------


def check_c21(prop, t0):
    import conccheck
    sc = Scratch()
    try:
        exes = [sqlrun.build(sc, "conc"), sqlrun.build(sc, "casan")]
        hs = conccheck.histories(SEED, TIER, SCALE)
        d = {h[0]: h for h in hs}
        n, seen = 0, set()
        states = steps = runs = 0
        for a in range(0, len(hs), 4000):
            bad, s, t, k = conccheck.judge(sc, exes, hs[a:a + 4000])
            states, steps, runs = states + s, steps + t, runs + k
            for hid, why in bad.items():
                if why in seen or n >= 3 or (n and sqlrun.late()):
                    continue
                again, _, _, _ = conccheck.judge(sc, exes, [d[hid]], "again")
                if hid not in again:
                    continue
                seen.add(why)
                n += 1
                small = conccheck.shrink(sc, exes, d[hid])
                if why.startswith("unordered"):
                    pcs = [hex(int(x)) for x in re.findall(r"\d+", why)]
                    why += "\n" + subprocess.run(["addr2line", "-f", "-a", "-p", "-e", exes[0]] + pcs, capture_output=True, text=True).stdout
                violation(prop, n, dict(property=prop, why=why, script=conccheck.script(small).split("\n"),
                                        how="mdrv conc, built with harness/sched_shim.c; spec/Concurrent.tla finds no sequential order with these outcomes and this final database"))
            if n:
                break
        cov = dict(states=states, transitions=steps, traces_validated_against_impl=runs, samples=[conccheck.script(h).split("\n") for h in hs[:2]],
                   explanation="threads executing generated statements under seeded schedules that switch threads at basic blocks and at locks; for every run TLC searched the orders that "
                               "respect each thread and real time for one in which every statement has the observed outcome and the database ends as observed, and that the synchronisation "
                               "operations order the conflicting accesses to memory")
        evidence(prop, "model_checking", cov, t0, n, ["between accesses to global variables (in part of the schedules: to any shared memory) a basic block is executed without interruption", "the memory is sequentially consistent (runs with unordered conflicting accesses are rejected)"])
        return 1 if n else 0
    finally:
        sc.close()


CHECKS = {p: check_sql for p in workloads.WORK}
CHECKS["C21"] = check_c21
CHECKS["C19"] = CHECKS["C24"] = check_resources
CHECKS["C20"] = check_c20
for _p in ("C14", "C15", "C16", "C17", "C18"):
    CHECKS[_p] = check_ds


def main():
    prop = sys.argv[1]
    t0 = time.time()
    for f in glob.glob(os.path.join(EVID, "replay-%s-*.json" % prop)):
        os.unlink(f)
    try:
        rc = CHECKS[prop](prop, t0)
    except ModelFailure as e:
        print("ERROR: " + str(e), file=sys.stderr)
        sys.exit(1 if reported else 2)
    except Exception:
        traceback.print_exc()
        sys.exit(1 if reported else 2)
    print("%s %s: %s (%.1f s)" % (prop, TIER, "violated" if rc else "held", time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
