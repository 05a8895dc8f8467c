"""Run statement histories on the real code and have TLC judge what was recorded.

A history is a list of operations: dict(op="Q", s=AST, sql=text), and for result sets that stay open
dict(op="K", slot, s, sql), dict(op="F", slot), dict(op="X", slot).
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import render
import values

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelFailure(Exception):
    """the machinery itself failed: an error exit, never a verdict"""


START = time.time()


def late():
    """enough time went by that a check which has something to report should get to it"""
    return time.time() - START > (400 if os.environ.get("VERIF_TIER", "quick") == "quick" else 4 * 3600)


class Budget:
    """for shrinking: rounds until the time is up"""

    def __init__(self, rounds, seconds=60):
        self.rounds, self.end = rounds, time.time() + seconds

    def __iter__(self):
        while self.rounds and time.time() < self.end and not late():
            self.rounds -= 1
            yield self.rounds


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mdbverif.")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(scratch, mode="plain", extra_env=None):
    out = scratch.path("build-" + mode)
    env = dict(os.environ)
    env.update(extra_env or {})
    p = subprocess.run(["bash", os.path.join(ROOT, "harness", "build.sh"), out, mode], capture_output=True, text=True, env=env)
    if p.returncode or not os.path.exists(os.path.join(out, "mdrv")):
        raise ModelFailure("build failed: " + p.stdout[-2000:] + p.stderr[-4000:])
    return os.path.join(out, "mdrv")


def plain_ops(asts, style=None):
    """every fourth statement without any white space it can do without"""
    return [dict(op="Q", s=a, sql=render.sql(a, style or render.Style(tight=i % 4 == 3))) for i, a in enumerate(asts)]


def script_of(hid, ops):
    out = ["H " + hid]
    for o in ops:
        if o["op"] in ("Q", "M"):
            out.append(o["op"] + " " + render.escape(o["sql"]))
        elif o["op"] == "E":
            out.append("N %d %d" % (o["from"], o["step"]))
            out.append("E " + render.escape(o["sql"]))
            out += ["T " + render.escape(t["sql"]) for t in o["tail"]]
        elif o["op"] == "K":
            out.append("K" + o["slot"] + " " + render.escape(o["sql"]))
        else:
            out.append(o["op"] + o["slot"])
    return "\n".join(out) + "\n"


def enc_expr(e):
    if e[0] == "v":
        return ["v", values.enc(e[1][:2])]
    if e[0] == "neg":
        return ["neg", enc_expr(e[1])]
    return ["op", e[1], enc_expr(e[2]), enc_expr(e[3])]


def enc_operand(o):
    return list(o) if o[0] == "c" else ["v", values.enc(o[1][:2])]


def enc_cond(c):
    if not c:
        return []
    k = c[0]
    if k == "cmp":
        return ["cmp", c[1], enc_operand(c[2]), enc_operand(c[3])]
    if k in ("and", "or", "xor"):
        return [k, enc_cond(c[1]), enc_cond(c[2])]
    if k in ("in", "nin"):
        return [k, list(c[1]), [values.enc(v[:2]) for v in c[2]]]
    return [k, list(c[1])]


def enc_stmt(s):
    k = s["k"]
    if k == "create":
        return dict(k=k, t=s["t"], ine=s["ine"], idx=s["idx"],
                    cols=[dict(n=c["n"], t=c["t"], p=c["p"], nn=c.get("nn", 0), uq=c.get("uq", 0), ai=c.get("ai", 0), pk=c.get("pk", 0)) for c in s["cols"]])
    if k == "insert":
        return dict(k=k, t=s["t"], cols=s["cols"], vals=[[enc_expr(e) for e in tup] for tup in s["vals"]])
    if k == "update":
        return dict(k=k, t=s["t"], set=[[n, values.enc(v[:2])] for n, v in s["set"]], where=enc_cond(s["where"]))
    if k == "delete":
        return dict(k=k, t=s["t"], where=enc_cond(s["where"]))
    if k == "select":
        return {"k": k, "from": s["from"], "style": s["style"], "joins": [enc_cond(c) for c in s["joins"]],
                "items": s["items"], "where": enc_cond(s["where"]), "group": s["group"]}
    if k == "text":
        return dict(k=k, toks=s["toks"], t=s["t"])
    return dict(k=k, why=s.get("why", ""))


def enc_rows(rows):
    return [[values.enc_obs(v) for v in r] for r in rows]


def run_driver(exe, histories, subcmd="sql", env=None, timeout=600):
    """histories: list of (hid, ops); returns {hid: [raw events]}"""
    return run_driver_text(exe, "".join(script_of(h, ops) for h, ops in histories), subcmd, env, timeout)


def run_driver_text(exe, text, subcmd, env=None, timeout=600):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", MDRV_LIMIT="60" if os.environ.get("VERIF_TIER") == "thorough" else "10")
    e.update(env or {})
    p = subprocess.run([exe, subcmd], input=text.encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=timeout)
    if p.returncode:
        raise ModelFailure("driver exited with %d" % p.returncode)
    return parse_driver(p.stdout.decode("latin-1"))


class Recorded(dict):
    """{history: raw events}; after two histories that hang the driver leaves out the others, which are not judged"""
    stopped = False

    def of(self, hid):
        return self.get(hid, None if self.stopped else [{"ev": "DIED", "why": "CRASH"}])

    def add(self, other):
        self.update(other)
        self.stopped = self.stopped or other.stopped


def parse_driver(text):
    res, cur = Recorded(), None
    for line in text.split("\n"):
        if not line.startswith("{"):
            if cur is not None and line:
                cur.append({"ev": "GARBAGE", "line": line[:200]})
            continue
        try:
            j = json.loads(line)
        except ValueError:
            # the child died in the middle of a line: the DIED event is glued to it
            k = line.rfind('{"ev":"DIED"')
            j = json.loads(line[k:]) if k > 0 else {"ev": "GARBAGE", "line": line[:200]}
        if j["ev"] == "STOPPED":
            res.stopped = True
        elif j["ev"] == "H":
            cur = res.setdefault(j["id"], [])
        elif cur is not None:
            cur.append(j)
    return res


def set_db(e, j, prev):
    """what differs from the previous observation; returns the present one"""
    now = {t["name"]: t for t in j["db"]}
    e["gone"] = sorted(set(prev) - set(now))
    e["chg"] = {n: dict(cols=t["cols"], rows=enc_rows(t["rows"])) for n, t in now.items()
                if n not in prev or prev[n]["rows"] != t["rows"] or prev[n]["cols"] != t["cols"]}
    return now


def set_outcome(e, j):
    e["msg"] = 1 if j.get("msg", "").strip() else 0
    e["n"] = min(j.get("n", 0), 2**31 - 1)
    e["cols"] = [dict(n=c["n"], t=c["t"]) for c in j.get("cols", [])]
    e["rows"] = enc_rows(j.get("rows", []))


def fault_lines(hid, i, op, group, prev):
    """the processes in which the statement's allocations failed; equal observations are judged once"""
    runs = {}
    for j in group:
        if j.get("hit") == 0:
            continue
        runs.setdefault((j["all"], j["at"]), []).append(j)
    out = [dict(ev="mark", h=hid, i=i)]
    seen = set()
    for (al, n), js in runs.items():
        key = json.dumps([{k: v for k, v in j.items() if k not in ("at", "all", "msg")} for j in js], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        p = prev
        stmts = [op] + op["tail"]
        dead = None
        for k, j in enumerate(js):
            e = dict(ev="fault" if k == 0 else "stmt", h="%s#%d.%d" % (hid, n, al), i=i, tail=k)
            if j["ev"] == "TEND":
                out.append(dict(e, ev="closed", lost=j["lost"]))
                break
            if j["ev"] == "TDIED" or j["st"] == "NULLOUT" and k > 0:
                dead = "HANG" if j.get("why") == "HANG" else "DIED"
                if k >= len(stmts):
                    e = dict(e, ev="free", slot="-", st=dead, chg={}, gone=[])
                else:
                    e.update(s=enc_stmt(stmts[k]["s"]), st=dead, chg={}, gone=[], msg=0, n=0, cols=[], rows=[])
                out.append(e)
                break
            e["s"] = enc_stmt(stmts[k]["s"])
            e["st"] = j["st"]
            p = set_db(e, j, p)
            set_outcome(e, j)
            out.append(e)
        out.append(dict(ev="rewind", h=hid, i=i))
    return out


def trace_lines(hid, ops, raw):
    """recorded events of one history -> lines of the trace (python dicts)"""
    out = [dict(ev="reset", h=hid, i=0)]
    prev = {}
    k = 0
    closed = False
    raw = list(raw)
    pos = 0
    while pos < len(raw):
        j = raw[pos]
        pos += 1
        if j["ev"] == "CLOSED":
            closed = True
            if any(o["op"] == "M" for o in ops):
                out.append(dict(ev="closed", h=hid, i=k + 1, lost=j["lost"]))
            continue
        if k < len(ops) and ops[k]["op"] == "E":
            group = []
            while j["ev"] != "EEND" and pos < len(raw):
                group.append(j)
                j = raw[pos]
                pos += 1
            if j["ev"] != "EEND":
                raise ModelFailure("the enumeration of failures was cut short")
            k += 1
            out += fault_lines(hid, k, ops[k - 1], group, prev)
            continue
        if j["ev"] == "END":
            if not closed and k >= len(ops) and out[-1].get("st") not in ("DIED", "HANG"):
                out.append(dict(ev="free", h=hid, i=k + 1, slot="-", st="DIED", chg={}, gone=[]))
            break
        if k >= len(ops):
            if j["ev"] == "DIED":
                out.append(dict(ev="free", h=hid, i=k + 1, slot="-", st="HANG" if j["why"] == "HANG" else "DIED", chg={}, gone=[]))
                break
            continue
        o = ops[k]
        k += 1
        e = dict(h=hid, i=k)
        e["ev"] = {"Q": "stmt", "M": "mem", "K": "open", "F": "fetch", "X": "free"}[o["op"]]
        if "s" in o:
            e["s"] = enc_stmt(o["s"])
        if "slot" in o:
            e["slot"] = o["slot"]
        if j["ev"] in ("DIED", "GARBAGE"):
            e.update(st="HANG" if j.get("why") == "HANG" else "DIED", chg={}, gone=[], msg=0, n=0, cols=[], rows=[], row=[])
            out.append(e)
            break
        st = j["st"]
        if st == "NULLOUT":
            st = "DIED"
        e["st"] = st
        if "db" in j:
            prev = set_db(e, j, prev)
        if e["ev"] in ("stmt", "open", "mem"):
            set_outcome(e, j)
            if e["ev"] == "mem":
                e.update(mem=j["mem"], lost=j["lost"])
        elif e["ev"] == "fetch":
            e["row"] = [values.enc_obs(v) for v in j.get("row", [])]
        out.append(e)
        if st == "DIED":
            break
    return out


def run_tlc(scratch, module, trace_path, tag, heap="3g", timeout=800, cfg=None, extra=None):
    meta = scratch.path("tlc-" + tag)
    os.makedirs(meta, exist_ok=True)
    env = dict(os.environ, TRACE=trace_path)
    cmd = ["java", "-XX:+UseSerialGC", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers", "1", "-noGenerateSpecTE", "-metadir", meta,
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")] + (extra or [])
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=timeout, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr


def parse_tlc(out):
    mism, done = [], None
    for line in out.split("\n"):
        m = re.match(r'^"(MISMATCH|TRACE-DONE) (.*)"$', line)
        if m:
            j = json.loads(m.group(2).replace('\\"', '"').replace("\\\\", "\\"))
            if m.group(1) == "MISMATCH":
                mism.append(j)
            else:
                done = j
    if done is None or done["mismatches"] != len(mism):
        raise ModelFailure("TLC did not finish the trace:\n" + out[-3000:])
    return mism, done


def validate(scratch, lines, tag, module="SqlTrace"):
    path = scratch.path("trace-%s.ndjson" % tag)
    with open(path, "w") as f:
        for x in lines:
            f.write(json.dumps(x) + "\n")
    out = run_tlc(scratch, module, path, tag)
    os.unlink(path)
    return parse_tlc(out)


def run_all(scratch, exes, histories, shards=None, env=None, module="SqlTrace"):
    """histories: list of (hid, ops).  exes: builds used in turn.  Returns (mismatches, tally, number of events)"""
    n = max(1, min(shards or NPROC, len(histories)))
    parts = [histories[i::n] for i in range(n)]

    def one(i):
        part = parts[i]
        raw = Recorded()
        for k, exe in enumerate(exes):
            sub = part[k::len(exes)]
            if sub:
                raw.add(run_driver(exe, sub, env=env))
        lines = []
        for hid, ops in part:
            if raw.of(hid) is not None:
                lines += trace_lines(hid, ops, raw.of(hid))
        return validate(scratch, lines, str(i), module)

    mism, tally, events = [], {}, 0
    with ThreadPoolExecutor(n) as ex:
        for m, d in ex.map(one, range(n)):
            mism += m
            events += d["events"]
            for k, v in d["tally"].items():
                tally[k] = tally.get(k, 0) + v
    return mism, tally, events
