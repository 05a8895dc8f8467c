"""C16, C17, C18: the containers against spec/Containers.tla (and the shapes of spec/BTree.tla)."""
import json
import os
import random
import re
import subprocess
import shutil
from collections import deque
from concurrent.futures import ThreadPoolExecutor

import sqlrun
from sqlrun import ModelFailure, NPROC, SPEC


def tlc_print(sc, module, consts, tag, timeout=600, workers=1, inv=None):
    """run a model, return the lines it printed with a given prefix and its statistics"""
    cfg = sc.path("gen-%s.cfg" % tag)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in consts.items()))
        for i in inv or []:
            f.write("INVARIANT %s\n" % i)
    meta = sc.path("tlc-" + tag)
    os.makedirs(meta, exist_ok=True)
    p = subprocess.run(["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx3g", "-Djava.io.tmpdir=" + meta, "-cp", sqlrun.JAR, "tlc2.TLC", "-workers", str(workers),
                        "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, os.path.join(SPEC, module + ".tla")],
                       capture_output=True, text=True, timeout=timeout, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    if "Model checking completed. No error has been found." not in p.stdout:
        raise ModelFailure("model %s: %s" % (module, p.stdout[-2000:] + p.stderr[-500:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states", p.stdout)
    out = []
    for line in p.stdout.split("\n"):
        k = re.match(r'^"(?:HIST|EDGE) (.*)"$', line)
        if k:
            out.append(json.loads(k.group(1).replace('\\"', '"')))
    return out, int(m.group(1)), int(m.group(2))


# ---- histories: (id, kind, par, opts line, [(op, args)]) -----------------------------------------------------------
def exhaustive(sc, kind, depth, opts):
    hs, gen, states = tlc_print(sc, "ContainersGen", {"Kind": '"%s"' % kind, "D": depth}, "gen" + kind + str(depth), inv=["Sane"])
    out = []
    for j, o in enumerate(opts):
        out += [("%s%d.%d" % (kind, j, i), kind, 0, o, [(op, a) for op, a in h]) for i, h in enumerate(hs)]
    return out, gen, states


def hexs(rng, lo, hi):
    return bytes(rng.randrange(256) for _ in range(rng.randint(lo, hi))).hex()


def rand_ht(rng, i):
    opts = rng.choice(["bin", "bin len", "bin const", "str", "str len", "str const", "bin", "str"])
    if "str" in opts:
        mk = lambda: "".join("%02x" % rng.choice([0x61, 0x62, 0x41, 0xff, 0x80, 0x5f]) for _ in range(rng.choice(lens)))
        lens = rng.choice([[0, 1, 1, 2, 3, 30, 200]] * 3 + [[126, 127, 128, 129, 254, 255, 256, 257, 300], [1, 2, 300, 1000]])
    else:
        mk = lambda: hexs(rng, 1, rng.choice([1, 2, 4, 64] if rng.random() < .9 else [300, 600]))
    nk = rng.choice([3, 8, 9, 16, 17, 33, 70])
    keys = list({mk() for _ in range(nk)}) or ["61"]
    n = rng.choice([20, 60, 140])
    ops = []
    grow = rng.random()
    for _ in range(n):
        k = rng.choice(keys)
        x = rng.random()
        if x < .45 + .3 * grow:
            ops.append(("put", [k, hexs(rng, 1, rng.choice([1, 8, 50]))]))
        elif x < .85:
            ops.append(("rem", [k]))
        elif x < .985:
            ops.append(("get", [k]))
        else:
            ops.append(("drain", []))
    return ("ht%d" % i, "ht", 0, "ht " + opts, ops)


def big_vector(rng, i):
    """few pushes, some of them of thousands of bytes, of sizes around what was pushed before"""
    ops, size, sizes = [], 0, [1, 3, 8, 16, 17]
    for _ in range(rng.randint(2, 7)):
        if rng.random() < .1:
            ops.append(("clear", []))
            size = 0
            continue
        x = rng.random()
        if x < .3:
            n = rng.randint(1, 60)
        elif x < .6:
            n = int(2 ** rng.uniform(5, 12.2))
        else:                   # around (a fraction of) what the vector holds or was made to hold
            n = int(rng.choice(sizes) * rng.choice([.25, .5, 1, 1, 1.5, 2, 2.5, 3])) + rng.randint(-2, 2)
        n = max(1, min(n, 6000))
        ops.append(("push", [hexs(rng, n, n)]))
        size += n
        sizes += [n, size, 3 * size]
    return ("v%d" % i, "vector", 0, "vector", ops)


def rand_seq(rng, i):
    kind = rng.choice(["queue", "stack", "vector", "list"])
    n = rng.choice([30, 80, 200])
    ops, size = [], 0
    up = rng.choice([.5, .6, .9])
    for _ in range(n):
        add = rng.random() < up
        if kind == "queue":
            ops.append(("offer", [hexs(rng, 1, rng.choice([1, 8, 40]))]) if add else (rng.choice(["poll", "poll", "peek"]), []))
        elif kind == "stack":
            if add or size == 0:
                ops.append((rng.choice(["push", "upush"]), [hexs(rng, 1, rng.choice([1, 8, 40]))]))
                size += 1
            else:
                op = rng.choice(["pop", "pop", "peek"])
                size -= op == "pop"
                ops.append((op, []))
        elif kind == "vector":
            ops.append(("push", [hexs(rng, 1, rng.choice([1, 3, 8, 17, 60]))]) if rng.random() < .96 else ("clear", []))
            if len(ops) > 60:
                break
        else:
            if add or size == 0:
                if rng.random() < .6:
                    ops.append(("add", [str(rng.randrange(6)), rng.randint(0, size)]))
                else:
                    ops.append(("tail", [str(rng.randrange(6))]))
                size += 1
            else:
                ops.append(("del", [rng.randint(1, size)]))
                size -= 1
    return ("s%d" % i, kind, 0, kind, ops)


def long_ht(rng, i):
    """up to thousands of entries, most of which are removed again; now and then keys of tens of thousands of bytes"""
    nk = rng.choice([150, 300, 700, 1500])
    big = rng.random() < .15
    nk = 40 if big else nk
    keys = ["%s%04x" % (hexs(rng, 0, 2) if rng.random() < .5 else "", k) + ("%02x" % rng.randrange(1, 256)) * (rng.choice([300, 32767, 32768, 65535, 66000]) if big and rng.random() < .2 else 0)
            for k in range(nk)]
    live, gone, ops = [], list(keys), []
    rng.shuffle(gone)
    for target in [nk, int(nk * rng.choice([.02, .05, .1, .3])), int(nk * rng.random()), 0][:rng.choice([2, 3, 4])]:
        while len(live) != target:
            x = rng.random()
            if x < .05:
                ops.append(("get", [rng.choice(keys)]))
            elif x < .07:
                ops.append(("put", [rng.choice(live or gone), hexs(rng, 1, 8)]))
                if not live:
                    live.append(ops[-1][1][0])
                    gone.remove(live[0])
            elif len(live) < target:
                k = gone.pop()
                live.append(k)
                ops.append(("put", [k, hexs(rng, 1, 8)]))
            else:
                k = live.pop(rng.randrange(len(live)))
                gone.append(k)
                ops.append(("rem", [k]))
        if rng.random() < .5:
            ops += [("get", [k]) for k in rng.sample(keys, min(60, nk))]
    if rng.random() < .3:
        ops.append(("drain", []))
    return ("hl%d" % i, "ht", 0, "every %d ht %s" % (max(2, len(ops) // 8), rng.choice(["bin", "bin", "bin len"])), ops)


def long_seq(rng, i):
    """deep stacks and queues that are nearly emptied and filled again"""
    kind = rng.choice(["queue", "stack", "stack", "list"])
    top = rng.choice([100, 300, 1000, 3000] if kind != "list" else [100, 300])
    add, rem = dict(queue=("offer", "poll"), stack=("push", "pop"), list=("tail", "del"))[kind]
    ops, size = [], 0
    targets = [top] + [int(top * rng.choice([0, .01, .03, .06, .12, .25, .5])) if k % 2 == 0 else int(top * rng.choice([.2, .5, .9, 1.3])) for k in range(rng.randint(1, 4))]
    for target in targets + ([0] if rng.random() < .5 else []):
        while size != target:
            if rng.random() < .02 and size:
                if kind != "list":
                    ops.append(("peek", []))
            elif size < target:
                ops.append((add, [hexs(rng, 1, 4)] if kind != "list" else [str(rng.randrange(50))]))
                size += 1
            else:
                ops.append((rem, [] if kind != "list" else [rng.randint(1, size)]))
                size -= 1
    return ("l%d" % i, kind, 0, "every %d %s" % (max(2, len(ops) // 8), kind), ops)


def long_bt(rng, i):
    """trees of many levels"""
    t = rng.choice([2, 2, 3, 4, 8])
    nk = rng.choice([300, 600, 1000])
    order = list(range(1, nk + 1))
    mode = rng.choice(["asc", "desc", "mix", "mix"])
    if mode == "desc":
        order.reverse()
    elif mode == "mix":
        rng.shuffle(order)
    ops = [("ins", [k, rng.randint(1, 900)]) for k in order]
    if rng.random() < .6:
        rng.shuffle(order)
    cut = int(nk * rng.choice([.2, .5, .9, 1]))
    ops += [("rem", [k]) for k in order[:cut]]
    back = order[:cut]
    rng.shuffle(back)
    for k in back[:rng.choice([0, cut // 2])]:
        ops.append(("ins", [k, rng.randint(1, 900)]))
    return ("bl%d" % i, "btree", t, "every %d " % max(2, len(ops) // 10) + bt_opts(rng, t, nk), ops)


def bt_opts(rng, t, nk):
    if rng.random() < .6:
        base = rng.choice([lambda k: k, lambda k: k * 4294967296, lambda k: 2**64 - 1 - 3 * (nk - k), lambda k: 2**63 - nk // 2 + k, lambda k: k * k * 65537])
        return "btree %d ul %s" % (t, " ".join(str(base(k)) for k in range(nk)))
    words = sorted({"".join(rng.choice("abAB\xc3z_") for _ in range(rng.randint(1, 6))) for _ in range(nk * 4)}, key=lambda w: w.encode("latin-1"))
    while len(words) < nk:
        words = sorted(set(words) | {"".join(rng.choice("abcdefgh") for _ in range(7))})
    step = len(words) / nk
    return "btree %d str %s" % (t, " ".join(words[int(k * step)] for k in range(nk)))


def rand_bt(rng, i, long=False):
    t = rng.choice([2, 2, 2, 3, 3, 4, 5, 8, 20])
    nk = rng.choice([8, 15, 30, 60, 120] if not long else [60, 120, 250])
    live, ops = set(), []
    mode = rng.choice(["mix", "asc", "desc", "fill"])
    order = list(range(1, nk + 1))
    if mode == "desc":
        order.reverse()
    elif mode in ("fill", "mix"):
        rng.shuffle(order)
    if mode != "mix":
        for k in order:
            ops.append(("ins", [k, rng.randint(1, 900)]))
            live.add(k)
    n = rng.choice([20, 60]) if mode != "mix" else rng.choice([40, 120, 200])
    p = rng.choice([.35, .5, .65])
    for _ in range(n):
        x = rng.random()
        k = rng.randint(1, nk)
        if x < .08:
            ops.append(("upd", [k, rng.randint(1, 900)]))
        elif x < .16:
            ops.append(("rem", [k]))
            live.discard(k)
        elif rng.random() < p and len(live) < nk:
            k = rng.choice([q for q in range(1, nk + 1) if q not in live])
            ops.append(("ins", [k, rng.randint(1, 900)]))
            live.add(k)
        elif live:
            k = rng.choice(sorted(live))
            ops.append(("rem", [k]))
            live.discard(k)
    if rng.random() < .4:
        rest = sorted(live)
        rng.shuffle(rest)
        ops += [("rem", [k]) for k in rest]
    return ("b%d" % i, "btree", t, bt_opts(rng, t, nk), ops)


def cover(edges, init, rng, maxlen=60):
    """walks from the initial state that together take every transition; yields lists of (op, k)"""
    key = lambda x: json.dumps(x, sort_keys=True)
    ids = {}
    num = lambda x: ids.setdefault(key(x), len(ids))
    out = {}
    for e in edges:
        out.setdefault(num(e["f"]), {})[(e["op"], e["k"])] = num(e["t"])
    init = num(init)
    succ = {s: list(v.items()) for s, v in out.items()}
    todo = {s: sorted(v, reverse=True) for s, v in out.items()}
    left = sum(len(v) for v in todo.values())
    walks = []
    while left:
        cur, ops = init, []
        while len(ops) < maxlen and left:
            if todo[cur]:
                o = todo[cur].pop()
                left -= 1
                ops.append(o)
                cur = out[cur][o]
                continue
            seen, dq, found = {cur: None}, deque([cur]), None
            while dq and found is None:
                s = dq.popleft()
                for o, d in succ[s]:
                    if d not in seen:
                        seen[d] = (s, o)
                        if todo[d]:
                            found = d
                            break
                        dq.append(d)
            if found is None:
                break
            path, s = [], found
            while seen[s]:
                s, o = seen[s]
                path.append(o)
            for o in reversed(path):
                ops.append(o)
                cur = out[cur][o]
        if not ops:
            break
        walks.append(ops)
    return walks


def bt_walks(sc, n, t, rng, maxlen=60):
    """walks through every transition of the model of the B-tree algorithm"""
    edges, gen, states = tlc_print(sc, "BTree", {"N": n, "T": t, "Emit": "TRUE"}, "bt%d.%d" % (n, t), inv=["IsMap"])
    init = next(e["f"] for e in edges if not e["f"])
    walks = [[(op, [k, rng.randint(1, 900)] if op == "ins" else [k]) for op, k in w] for w in cover(edges, init, rng, maxlen)]
    opts = ["btree %d ul %s" % (t, " ".join(map(str, range(n)))), bt_opts(random.Random(7), t, n)]
    return [("w%d.%d.%d" % (t, n, i), "btree", t, opts[i % 2], w) for i, w in enumerate(walks)], gen, states


# ---- running and judging -------------------------------------------------------------------------------------------
def script(h):
    hid, kind, par, opts, ops = h
    return "H %s\nO %s\n" % (hid, opts) + "".join("%s %s\n" % (op, " ".join(str(x) if x != "" else '""' for x in a)) for op, a in ops)


def drive(exe, hs, timeout=600):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", MDRV_LIMIT="20")
    p = subprocess.run([exe, "ds"], input="".join(map(script, hs)).encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=timeout)
    if p.returncode:
        raise ModelFailure("driver exited with %d" % p.returncode)
    return sqlrun.parse_driver(p.stdout.decode("latin-1"))


def lines_of(h, raw):
    hid, kind, par, opts, ops = h
    out = [dict(ev="reset", h=hid, i=0, kind=kind, par=par)]
    obs = [e for e in raw if e["ev"] in ("E", "DIED", "GARBAGE")]
    for i, (op, a) in enumerate(ops):
        if i >= len(obs):
            break
        e = obs[i]
        d = dict(ev="op", h=hid, i=i + 1, op=op, a=a, st="OK")
        if e["ev"] != "E":
            d["st"] = "HANG" if e.get("why") == "HANG" else "DIED"
            d.update(r="", full=1, n=0, empty=0, all=[], back=[], found=[], tree={})
            out.append(d)
            return out
        d.update({k: v for k, v in e.items() if k != "ev"})
        out.append(d)
    died = [e for e in raw if e["ev"] == "DIED"]
    if (died or not any(e["ev"] == "CLOSED" for e in raw)) and len(out) == len(ops) + 1:
        # it broke while the container was being released
        out.append(dict(out[-1], i=len(ops) + 1, st="HANG" if died and died[-1].get("why") == "HANG" else "DIED"))
    return out


def judge(sc, exes, hs):
    n = max(1, min(NPROC, len(hs)))
    parts = [hs[i::n] for i in range(n)]

    def one(i):
        raw = sqlrun.Recorded()
        for k, exe in enumerate(exes):
            sub = parts[i][k::len(exes)]
            if sub:
                raw.add(drive(exe, sub))
        lines = []
        for h in parts[i]:
            if raw.of(h[0]) is not None:
                lines += lines_of(h, raw.of(h[0]))
        return sqlrun.validate(sc, lines, "ds%d" % i, "DsTrace")

    mm, tally, events = [], {}, 0
    with ThreadPoolExecutor(n) as ex:
        for m, d in ex.map(one, range(n)):
            mm += m
            events += d["events"]
            for k, v in d["tally"].items():
                tally[k] = tally.get(k, 0) + v
    if any("NOT-ALLOWED" in m["asp"] for m in mm):
        raise ModelFailure("a history contains an operation the specification does not allow")
    return mm, tally, events


def owns(prop, h, m):
    return True


def shrink(sc, exes, h, m):
    """drop operations as long as the last one still diverges"""
    hid, kind, par, opts, ops = h
    ops = ops[:max(1, min(m["i"], len(ops)))]
    for _ in sqlrun.Budget(6):
        n = len(ops)
        cands = []
        for size in {max(1, n // 2), max(1, n // 4), max(1, n // 16), 1}:
            cands += [ops[:a] + ops[min(a + size, n - 1):] for a in range(0, n - 1, size)]
        cands = cands[:400]
        hs = [("s%d" % k, kind, par, opts, c) for k, c in enumerate(cands)]
        if not hs:
            break
        try:
            mm, _, _ = judge(sc, exes, hs)
        except ModelFailure:        # dropping an operation made a later one illegal
            break
        good = {x["h"] for x in mm if x["i"] >= len(cands[int(x["h"][1:])])}
        if not good:
            break
        ops = min((cands[int(g[1:])] for g in good), key=len)
    return (hid, kind, par, opts, ops)


def workload(prop, sc, seed, tier, scale):
    """returns histories, model transitions, model states"""
    big = tier == "thorough"
    rng = random.Random("%s/%d" % (prop, seed))
    hs, gen, states = [], 0, 0

    def add(x):
        nonlocal gen, states
        hs.extend(x[0])
        gen += x[1]
        states += x[2]
    if prop == "C16":
        add(bt_walks(sc, 11 if big else 9, 2, rng))
        add(bt_walks(sc, 13 if big else 10, 3, rng))
        if big:
            add(bt_walks(sc, 12, 4, rng))
        n = int((4000 if big else 500) * scale)
        hs += [rand_bt(rng, i, big and i % 4 == 0) for i in range(n)] + [long_bt(rng, i) for i in range(max(8, n // 30))]
    elif prop == "C17":
        add(exhaustive(sc, "ht", 4 if big else 3, ["ht bin", "ht bin const", "ht str len"]))
        n = int((6000 if big else 900) * scale)
        hs += [rand_ht(rng, i) for i in range(n)] + [long_ht(rng, i) for i in range(max(12, n // 20))]
    else:
        for k, d in (("queue", 6), ("stack", 6), ("vector", 5), ("list", 4)):
            add(exhaustive(sc, k, d + (1 if big else 0), [k]))
        n = int((8000 if big else 1000) * scale)
        hs += [rand_seq(rng, i) for i in range(n)] + [big_vector(rng, i) for i in range(n // 4)] + [long_seq(rng, i) for i in range(max(16, n // 20))]
    return hs, gen, states


if __name__ == "__main__":
    import sys
    import time
    sc = sqlrun.Scratch()
    try:
        exes = [sqlrun.build(sc, "plain"), sqlrun.build(sc, "asan")]
        for p in sys.argv[1:]:
            t = time.time()
            hs, gen, st = workload(p, sc, 1, os.environ.get("VERIF_TIER", "quick"), 1)
            print(p, len(hs), gen, st, time.time() - t)
            mm, tally, ev = judge(sc, exes, hs)
            print(ev, tally, len(mm), mm[:5], time.time() - t)
            d = {h[0]: h for h in hs}
            for m in mm[:3]:
                print(script(d[m["h"]])[:600], m)
    finally:
        sc.close()
