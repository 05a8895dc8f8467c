"""Walks through the graph of spec/MidoriMC.tla (and spec/Cursors.tla): every database reachable within the bounds, every
statement of the profile in each.  Each transition that bears on the property is taken by some walk."""
import json
import os
import random
import re
import shutil
import subprocess
from collections import deque

import render
import sqlrun
from sqlrun import ModelFailure

LAWS = dict(rows=["AllTyped", "NeverNull", "FrameHolds", "InsertAdds", "UpdateAgrees", "DeleteAgrees", "ConditionLaws", "SelectProjects"],
            types=["AllTyped", "FrameHolds", "InsertAdds", "UpdateAgrees", "DeleteAgrees", "ConditionLaws", "SelectProjects", "GroupLaws"],
            join=["FrameHolds", "JoinLaws", "GroupLaws"], join3=["FrameHolds", "JoinLaws", "GroupLaws"], group=["FrameHolds", "SelectProjects", "GroupLaws"],
            schema=["AllTyped", "NeverNull", "FrameHolds", "CreateAdds"], schema3=["AllTyped", "NeverNull", "FrameHolds", "CreateAdds"])


def py(x):
    """a statement as TLC printed it -> the AST of the renderer"""
    if isinstance(x, dict):
        return {k: py(v) for k, v in x.items()}
    if isinstance(x, list):
        if x and x[0] in ("I", "B", "S") and len(x) == 2:
            return (x[0], x[1])
        if x and x[0] == "J" and len(x) == 3:
            return ("I", (-1 if x[1] else 1) * sum(d * 10000 ** i for i, d in enumerate(x[2])))
        if x == ["N"]:
            return ("N",)
        if x and x[0] == "D" and len(x) == 2 and isinstance(x[1], int):
            return ("D", x[1] / 1024.0)
        return [py(v) for v in x]
    return x


def model(sc, module, consts, props, tag, view=None, timeout=850, prop=None):
    """run TLC on a module that prints its graph; returns the lines it printed and the number of states"""
    cfg, meta = sc.path("mc-%s.cfg" % tag), sc.path("mc-" + tag)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in consts.items()) +
                "".join("INVARIANT %s\n" % i for i in props) + ("VIEW %s\n" % view if view else "") + ("PROPERTY %s\n" % prop if prop else ""))
    os.makedirs(meta, exist_ok=True)
    p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx4g", "-Djava.io.tmpdir=" + meta, "-cp", sqlrun.JAR, "tlc2.TLC", "-workers", "4", "-noGenerateSpecTE", "-metadir", meta,
                        "-config", cfg, os.path.join(sqlrun.SPEC, module + ".tla")], capture_output=True, text=True, timeout=timeout, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    if "Model checking completed. No error has been found." not in p.stdout:
        raise ModelFailure("model %s %s: %s" % (module, tag, [x for x in p.stdout.split("\n") if not x.startswith('"ST')][-12:]))
    return p.stdout, int(re.search(r"(\d+) distinct states found, 0 states left", p.stdout).group(1))


def graph(sc, module, consts, props, tag, view=None):
    text, n = model(sc, module, dict(consts, Emit="TRUE"), props + ["Printed"], tag, view)
    stmts, out, init = None, {}, None
    for line in text.split("\n"):
        k = re.match(r'^"(STATE|STMTS) (.*)"$', line)
        if k:
            j = json.loads(k.group(2).replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\'))
            if k.group(1) == "STMTS":
                stmts = [py(s) for s in j]
            else:
                out[j["f"]] = j["to"]
                init = j["f"] if j["init"] else init
    if n != len(out) or not stmts:
        raise ModelFailure("model %s %s: %d states, %d printed" % (module, tag, n, len(out)))
    return stmts, out, init, n


def walks(stmts, to, init, want, rng, maxlen):
    """sequences of statement numbers from the empty database that take every wanted transition; want(s, effect)"""
    ids = {f: i for i, f in enumerate(to)}
    moves, todo, left = [], [], 0
    for f, ts in to.items():
        m, td = {}, []
        for i, t in enumerate(ts):
            if t == "-":
                continue
            m[i] = ids[f] if t in ("", "!", "?") else ids[t]
            if want(stmts[i], t):
                td.append(i)
        rng.shuffle(td)
        left += len(td)
        moves.append(m)
        todo.append(td)
    steps = [[(i, d) for i, d in m.items() if d != k] for k, m in enumerate(moves)]
    for s in steps:
        rng.shuffle(s)
    out, total = [], left
    while left:
        cur, ops = ids[init], []
        while len(ops) < maxlen and left:
            if todo[cur]:
                i = todo[cur].pop()
                left -= 1
                ops.append(i)
                cur = moves[cur][i]
                continue
            seen, dq, found = {cur: None}, deque([cur]), None
            while dq and found is None:
                s = dq.popleft()
                for i, d in steps[s]:
                    if d not in seen:
                        seen[d] = (s, i)
                        if todo[d]:
                            found = d
                            break
                        dq.append(d)
            if found is None:
                break
            path, s = [], found
            while seen[s]:
                s, i = seen[s]
                path.append(i)
            ops += reversed(path)
            cur = found
        if not ops:
            break
        out.append(ops)
    return out, total - left


def kind(*ks):
    return lambda s, t: s["k"] in ks


def multi(s, t):
    return s["k"] == "select" and len(s["from"]) > 1


def grouped(s, t):
    return s["k"] == "select" and bool(s["group"] or any(i[0].startswith("count") for i in s["items"]))


def refused(s, t):
    return t == "!"


def conditional(s, t):
    return s["k"] in ("update", "delete") and s["where"] != [] or s["k"] == "select" and s["where"] != [] and len(s["items"]) == 1


def everything(s, t):
    return True


def single(s, t):
    return s["k"] == "select" and len(s["from"]) == 1 and not grouped(s, t)


# property -> [(profile, rows per table in the quick and the thorough check, the transitions to take)]
USE = {"C01": [("rows", 2, 3, kind("insert")), ("types", 2, 3, kind("insert"))],
       "C02": [("rows", 2, 3, kind("update")), ("types", 1, 2, kind("update"))],
       "C03": [("rows", 2, 4, kind("delete")), ("types", 2, 3, kind("delete"))],
       "C04": [("rows", 2, 3, single), ("types", 2, 3, single)],
       "C05": [("join", 2, 3, multi), ("join3", 1, 2, multi)],
       "C06": [("group", 2, 3, grouped), ("types", 2, 3, grouped), ("rows", 2, 3, grouped), ("join", 1, 2, grouped)],
       "C07": [("rows", 2, 3, refused), ("types", 1, 2, refused), ("schema", 1, 2, refused)],
       "C08": [("schema", 1, 2, kind("create")), ("schema3", 1, 1, None)],
       "C09": [("rows", 2, 3, kind("insert", "update")), ("schema", 1, 2, kind("insert", "update"))],
       "C10": [("rows", 2, 3, conditional), ("types", 1, 2, conditional)],
       "C22": [("types", 2, 3, kind("insert", "update")), ("rows", 1, 3, refused)],
       "C23": [("schema", 1, 2, everything), ("join3", 1, 2, kind("insert", "delete"))]}


def histories(prop, sc, seed, tier):
    """histories and the size of the models they come from"""
    out, states, trans = [], 0, 0
    quick = tier == "quick"
    for profile, q, t, want in USE.get(prop, []):
        if want is None:
            if quick:
                continue
            want = kind("create", "insert")
        stmts, to, init, n = graph(sc, "MidoriMC", dict(Profile='"%s"' % profile, MaxRows=q if quick else t), LAWS[profile], profile)
        rng = random.Random("mc/%s/%s/%d" % (prop, profile, seed))
        ws, covered = walks(stmts, to, init, want, rng, 45)
        sql = [render.sql(s) for s in stmts]
        states += n
        trans += covered
        for i, w in enumerate(ws):
            out.append(("%s-mc-%s-%d" % (prop, profile, i), [dict(op="Q", s=stmts[k], sql=sql[k]) for k in w]))
    if prop == "C11":
        out, states, trans = expr_histories(prop, sc, seed, quick)
    if prop in ("C07", "C08"):
        h, n, t = create_histories(prop, sc, seed, quick)
        out, states, trans = out + h, states + n, trans + t
    if prop in ("C12", "C13"):
        h, n, t = cursor_histories(prop, sc, seed, quick)
        out, states, trans = out + h, states + n, trans + t
    return out, states, trans


def expr_histories(prop, sc, seed, quick):
    """every arithmetic expression of spec/ExprMC.tla, in INSERTs of many tuples"""
    laws = ["ParseAgrees", "ValueAgrees", "KnownValue", "Laws", "Printed"]
    exprs, n = [], 0
    for tag, c in [("expr", dict(MaxOperands=3, MaxMinus=2, MaxParens=2)), ("expr4", dict(MaxOperands=4, MaxMinus=0, MaxParens=1) if quick else dict(MaxOperands=4, MaxMinus=1, MaxParens=2))]:
        text, k = model(sc, "ExprMC", dict(c, Emit="TRUE"), laws, tag)
        n += k
        for line in text.split("\n"):
            m = re.match(r'^"EXPR (.*)"$', line)
            if m:
                j = json.loads(m.group(1).replace('\\"', '"'))
                exprs.append((j["t"], py(j["e"])))
    rng = random.Random("expr/%s/%d" % (prop, seed))
    rng.shuffle(exprs)
    out = []
    for t in ("INTEGER", "DOUBLE"):
        es = [(x, e) for x, e in exprs if (leaf(e)[0] == "D") == (t == "DOUBLE")]
        for a in range(0, len(es), 240):
            cols = [dict(n=c, t=t if c == "x" else "INTEGER", p=0, nn=0, uq=0, ai=0, pk=0) for c in ("id", "x")]
            ops = [dict(k="create", t="A", ine=0, cols=cols, idx=[])]
            ops = [dict(op="Q", s=ops[0], sql=render.sql(ops[0]))]
            for b in range(a, min(a + 240, len(es)), 24):
                part = es[b:b + 24]
                s = dict(k="insert", t="A", cols=[], vals=[[["v", ("I", b - a + i)], e] for i, (_, e) in enumerate(part)])
                sql = "INSERT INTO A VALUES " + ", ".join("(%d,%s)" % (b - a + i, spell(x, rng)) for i, (x, _) in enumerate(part)) + ";"
                ops.append(dict(op="Q", s=s, sql=sql))
            out.append(("%s-mc-expr-%s%d" % (prop, t, a), ops))
    return out, n, len(exprs)


def create_histories(prop, sc, seed, quick):
    """every CREATE TABLE of spec/CreateMC.tla: each makes one table, which is then given a row of NULLs and one of numbers"""
    laws = ["ValidOnly", "Unchanged", "Declared", "Ordered", "Printed"]
    text, n = model(sc, "CreateMC", dict(MaxColumns=2, MaxClauses=2, Emit="TRUE"), laws, "create")
    made = []
    for line in text.split("\n"):
        m = re.match(r'^"CREATE (.*)"$', line)
        if m:
            j = json.loads(m.group(1).replace('\\"', '"'))
            made.append(dict(py(j["s"]), ipos=j["at"]))
    rng = random.Random("create/%s/%d" % (prop, seed))
    rng.shuffle(made)
    if prop == "C07":
        made = [s for s in made if any(n not in [c["n"] for c in s["cols"]] for i in s["idx"] for n in i[1]) or len({c["n"] for c in s["cols"]}) < len(s["cols"])]
    made = made[:4000 if quick else 40000]
    out = []
    for a in range(0, len(made), 12):
        ops = []
        for b, s in enumerate(made[a:a + 12]):
            s = dict(s, t="T%d" % b)
            k = len(s["cols"])
            ops.append(dict(op="Q", s=s, sql=render.sql(s)))
            for v in (("N",), ("I", b)) if prop == "C08" else ((("I", b),) if b % 4 == 0 else ()):
                ins = dict(k="insert", t=s["t"], cols=[], vals=[[["v", v]] * k])
                ops.append(dict(op="Q", s=ins, sql=render.sql(ins)))
        out.append(("%s-mc-create-%d" % (prop, a), ops))
    return out, n, len(made)


def leaf(e):
    while e[0] != "v":
        e = e[-1]
    return e[1]


def spell(toks, rng):
    """a blank or none between the tokens; two minus signs are kept apart"""
    out = ""
    for t in toks:
        s = t if isinstance(t, str) else render.lit(py(t[1]), render.Style(rng))
        out += ("" if not out or rng.random() < .5 and not (s == "-" and out[-1] == "-") else " ") + s
    return out


def cursor_histories(prop, sc, seed, quick):
    slots = '{"a"}' if prop == "C12" else '{"a", "b"}'
    c = dict(MaxRows=2 if quick or prop == "C13" else 4, Slots=slots)
    acts, to, init, n = graph(sc, "Cursors", c, ["Frozen"], "cursors", "View")
    if not quick:
        _, k = model(sc, "Cursors", dict(MaxRows=2, Slots='{"a", "b"}', Emit="FALSE"), ["Frozen"], "cursors-all", prop="Isolated")
        n += k
    rng = random.Random("mc/%s/%d" % (prop, seed))
    ws, covered = walks(acts, to, init, everything, rng, 40)
    sql = [render.sql(a["s"]) if "s" in a else None for a in acts]
    out = []
    for i, w in enumerate(ws):
        ops, at, used = [], {}, 0
        for k in w:
            a = acts[k]
            o = dict(op=a["op"])
            if a["op"] != "Q":
                if a["op"] == "K":      # the driver's slots in turn
                    at.pop(a["slot"], None)
                    while "abcdefghijklmnop"[used % 16] in at.values():
                        used += 1
                    at[a["slot"]], used = "abcdefghijklmnop"[used % 16], used + 1
                o["slot"] = at[a["slot"]] if a["op"] != "X" else at.pop(a["slot"])
            if "s" in a:
                o.update(s=a["s"], sql=sql[k])
            ops.append(o)
        out.append(("%s-mc-cursors-%d" % (prop, i), ops))
    return out, n, covered
