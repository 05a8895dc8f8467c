"""Workloads of the SQL properties: which histories are run on the real code for which property."""
import random

import render
import sqlgen
import sqlrun
from sqlgen import BOOL, DATE, DBL, DTIME, INT, STR

Q = sqlrun.plain_ops


def rand(prof):
    def mk(rng, tier):
        return Q(sqlgen.Gen(rng, **prof).history())
    return mk


# ---- one table that spans several blocks of storage -------------------------------------------------------------
def wide_schema(rng, name="A", ncols=None, varchar=False):
    n = ncols or rng.choice([13, 20, 28, 29, 29, 30, 61, 61, 60, rng.randint(12, 100)])   # 29 and 61 fill a block exactly
    cols = [dict(n="id", t=INT, p=0, nn=0, uq=0, ai=0, pk=0)]
    for i in range(n - 1):
        t = INT if not varchar or i % 3 else STR
        cols.append(dict(n="c%d" % i, t=t, p=6 if t == STR else 0, nn=0, uq=0, ai=0, pk=0))
    return dict(k="create", t=name, ine=0, cols=cols, idx=[])


def wide_rows(rng, s, ids):
    vals = []
    for i in ids:
        row = [["v", ("I", i)]]
        for c in s["cols"][1:]:
            x = rng.random()
            row.append(["v", ("N",) if x < .1 else ("I", rng.randrange(4)) if c["t"] == INT else ("S", rng.choice(["", "a", "bb", "abcde"]))])
        vals.append(row)
    return dict(k="insert", t=s["t"], cols=[], vals=vals)


def col(n, q=""):
    return ["c", q, n]


def sel(t, items=None, where=None, group=None):
    s = dict(k="select", style="comma", joins=[], items=items or [["star"]], where=where or [], group=group or [])
    s["from"] = [[t, ""]]
    return s


def idcond(rng, hi):
    a = ["v", ("I", rng.randrange(hi + 1))]
    k = rng.random()
    if k < .4:
        return ["cmp", rng.choice(["<", ">", "<=", ">=", "=", "<>"]), col("id"), a]
    if k < .6:
        return [rng.choice(["in", "nin"]), col("id"), [("I", rng.randrange(hi + 1)) for _ in range(rng.choice([1, 3, 6]))]]
    if k < .8:
        return ["cmp", rng.choice(["=", "<>"]), col("c0"), ["v", ("I", rng.randrange(4))]]
    return [rng.choice(["and", "or", "xor"]), ["cmp", "<", col("id"), a], ["cmp", "=", col("c1"), ["v", ("I", rng.randrange(4))]]]


def big(kinds, maxrows=(10, 45)):
    """statements on tables that occupy several blocks; sizes around the block boundaries"""
    def mk(rng, tier):
        s = wide_schema(rng)
        slot = 24 + 8 * len(s["cols"])
        per = max(1, 4096 // slot)
        n = rng.choice([0, 1, per - 1, per, per, per + 1, 2 * per, 2 * per, 2 * per + 1, 3 * per, rng.randint(*maxrows)])
        n = max(0, min(n, maxrows[1]))
        ops = [s]
        i = 0
        while i < n:
            k = min(n - i, rng.choice([1, 7, 16, 64]))
            ops.append(wide_rows(rng, s, range(i, i + k)))
            i += k
        for _ in range(rng.randint(3, 6)):
            k = rng.choice(kinds)
            w = idcond(rng, max(1, n)) if rng.random() < .85 else []
            if k == "select":
                ops.append(sel("A", rng.choice([[["star"]], [col("id")], [col("c1"), col("id")]]), w))
            elif k == "count":
                ops.append(sel("A", [["count"]], w))
            elif k == "group":
                g = rng.choice([[col("c0")], [col("c0"), col("c1")], [col("id")]])
                ops.append(sel("A", g + [["count"]], w, g))
            elif k == "update":
                ops.append(dict(k="update", t="A", set=[[rng.choice(["c0", "c1", "c2"]), ("I", rng.randrange(9)) if rng.random() < .8 else ("N",)]], where=w))
            elif k == "delete":
                ops.append(dict(k="delete", t="A", where=w))
            elif k == "insert":
                ops.append(wide_rows(rng, s, range(n, n + rng.choice([1, 2, 20]))))
                n += len(ops[-1]["vals"])
        return Q(ops)
    return mk


# ---- joins of tables of very different shapes ---------------------------------------------------------------------
def big_join(rng, tier):
    def table(name, ncols):
        cs = [dict(n="id" if rng.random() < .5 else "k" + name, t=INT, p=0, nn=0, uq=0, ai=0, pk=0)]
        cs += [dict(n="%s%d" % (rng.choice(["c", "c", name.lower()]), i), t=INT, p=0, nn=0, uq=0, ai=0, pk=0) for i in range(ncols - 1)]
        return dict(k="create", t=name, ine=0, cols=cs, idx=[])

    k = rng.choice([2, 2, 2, 3])
    shape = [rng.choice([1, 1, 2, 3, 7, 20, 28, 40, 60]) for _ in range(k)]
    long_ = rng.randrange(k)
    ops, rows = [], []
    ts = [table("ABC"[i], n) for i, n in enumerate(shape)]
    for i, t in enumerate(ts):
        per = (4096 - 1) // (24 + 8 * shape[i]) + 0
        n = rng.choice([per - 1, per, per + 1, per + 2, min(2 * per + 1, 150)]) if i == long_ else rng.choice([0, 1, 1, 2, 2, 3])
        n = max(0, min(n, 150))
        ops.append(t)
        rows.append(n)
        j = 0
        while j < n:
            m = min(n - j, 40)
            vals = [[["v", ("I", j + q)]] + [["v", ("N",) if rng.random() < .05 else ("I", rng.choice([0, 1, 2, j + q, n - 1]))] for _ in t["cols"][1:]] for q in range(m)]
            ops.append(dict(k="insert", t=t["t"], cols=[], vals=vals))
            j += m
    for _ in range(rng.randint(2, 4)):
        order = rng.sample(range(k), rng.choice([2, k]))
        style = rng.choice(["comma", "join"])
        s = dict(k="select", style=style, joins=[], group=[], where=[], items=[["star"]])
        s["from"] = [[ts[i]["t"], ""] for i in order]
        ref = lambda i, first=False: ["c", ts[i]["t"], ts[i]["cols"][0 if first or len(ts[i]["cols"]) == 1 else rng.choice([0, -1, rng.randrange(len(ts[i]["cols"]))])]["n"]]
        conds = []
        for a, i in enumerate(order[1:], 1):
            other = rng.choice(order[:a])
            c = ["cmp", "=", ref(other), ref(i, True)] if rng.random() < .7 else ["cmp", rng.choice(["=", ">=", "<"]), ref(i), ["v", ("I", rng.choice([0, 1, rows[i] - 1, rows[i] // 2]))]]
            if rng.random() < .3:
                c[2:] = c[:1:-1]
                c[1] = {"<": ">", ">=": "<="}.get(c[1], c[1])
            conds.append(c)
        if style == "join":
            s["joins"] = conds
            if rng.random() < .4:
                s["where"] = ["cmp", rng.choice([">", "<>", "<="]), ref(order[0], True), ["v", ("I", rng.choice([0, 1, rows[order[0]] - 1]))]]
        else:
            s["where"] = conds[0] if len(conds) == 1 else ["and", conds[0], conds[1]]
        x = rng.random()
        if x < .3:
            s["items"] = [["count"]]
        elif x < .6:
            s["items"] = [ref(i) for i in order]
        elif x < .7:
            g = ref(order[0])
            s["items"], s["group"] = [g, ["count"]], [g]
        ops.append(s)
        if rng.random() < .3:
            t = rng.choice(order)
            ops.append(dict(k="delete", t=ts[t]["t"], where=["cmp", rng.choice(["=", "<"]), ["c", "", ts[t]["cols"][0]["n"]], ["v", ("I", rng.randrange(max(1, rows[t])))]]))
    return Q(ops)


# ---- the same condition in SELECT, UPDATE and DELETE ------------------------------------------------------------
def same_where(rng, tier):
    g = sqlgen.Gen(rng, tables=(1, 1), cols=(2, 4), p_noise=.02, names=["A"], flags=0, nn=.05, p_where=1, p_null=.25, depth=rng.choice([0, 1, 1, 2, 3]), p_extreme=.15)
    noise, g.p["p_noise"] = g.p["p_noise"], 0
    mkt = g.create(0)
    g.p["p_noise"] = noise
    mkt["cols"].append(dict(n="mark", t=INT, p=0, nn=0, uq=0, ai=0, pk=0))
    g.db["A"] = g.db["A"] + [mkt["cols"][-1]] if "A" in g.db else [mkt["cols"][-1]]
    ops = [mkt]
    fill = [g.insert("A", rng.randint(2, 4)) for _ in range(3)]
    ops += fill
    scope = [("", c) for c in g.db["A"][:-1]]
    for i in range(6):
        c = g.cond(scope)
        ops.append(sel("A", None, c))
        ops.append(dict(k="update", t="A", set=[["mark", ("I", i)]], where=c))
        ops.append(dict(k="delete", t="A", where=c))
        ops.append(sel("A"))
        if i % 2:
            ops += fill[:2]
    return Q(ops)


# ---- open result sets -------------------------------------------------------------------------------------------
def cursors(mutate, large):
    def mk(rng, tier):
        ops = []
        if large:
            s = wide_schema(rng, ncols=rng.choice([20, 60]), varchar=True)
            n = rng.choice([0, 1, 7, 8, 9, 16, 17, 22, 23, 30])
            ops.append(dict(op="Q", s=s))
            i = 0
            while i < n:
                k = min(16, n - i)
                ops.append(dict(op="Q", s=wide_rows(rng, s, range(i, i + k))))
                i += k
            g = None
        else:
            g = sqlgen.Gen(rng, tables=(1, 3), cols=(1, 3), p_noise=.02, join=.3, group=.15, prefix_rows=6)
            ops += [dict(op="Q", s=a) for a in g.history()[:10]]
        open_, used, todo = {}, 0, rng.randint(10, 30)
        def newsel():
            if g:
                return g.select()
            return sel("A", rng.choice([[["star"]], [col("id"), col("c0")], [col("c2")]]), idcond(rng, 30) if rng.random() < .5 else [])
        for _ in range(todo):
            r = rng.random()
            if (not open_ or r < .15) and used < 14 and len(open_) < 4:
                slot = "abcdefghijklmnop"[used]
                used += 1
                open_[slot] = 0
                ops.append(dict(op="K", slot=slot, s=newsel()))
            elif open_ and r < .65:
                slot = rng.choice(list(open_))
                open_[slot] += 1
                for _k in range(rng.choice([1, 1, 3, 8])):
                    ops.append(dict(op="F", slot=slot))
            elif open_ and r < .72:
                slot = rng.choice(list(open_))
                del open_[slot]
                ops.append(dict(op="X", slot=slot))
            elif mutate:
                if g:
                    a = rng.choice([g.insert, g.update, g.delete, g.create, g.select, g.bad])()
                else:
                    a = rng.choice([lambda: wide_rows(rng, s, [100]), lambda: dict(k="delete", t="A", where=idcond(rng, 30) if rng.random() < .7 else []),
                                    lambda: dict(k="update", t="A", set=[["id", ("I", 77)], ["c0", ("S", "zz")], ["c2", ("N",)]], where=[])])()
                ops.append(dict(op="Q", s=a))
        for slot in list(open_):
            for _k in range(rng.choice([0, 2, 40])):
                ops.append(dict(op="F", slot=slot))
            if rng.random() < .7:
                ops.append(dict(op="X", slot=slot))
        # a cursor can only be stepped when there is a result set
        for o in ops:
            if "s" in o:
                o["sql"] = render.sql(o["s"])
        return ops
    return mk


# ---- many tables -----------------------------------------------------------------------------------------------
def many_tables(rng, tier):
    L = rng.choice([1, 7, 8, 15, 16, 20, 23, 24, 30, 31, 32, 33, 47, 62, 63, 64, 65, 99, 100, 120])
    base = rng.choice(["t", "T", "Table_", "x" * L, "n" + "_aB1"[:rng.randint(1, 4)] * L])[:120]
    n = rng.choice([2, 3, 5, 9, 17, 33, 40])
    names = ["%s%d" % (base, i) for i in range(n)]
    if rng.random() < .2:
        names = ["v%d%s" % (i, base) for i in range(n)]
    if rng.random() < .5:
        names += [names[0].upper() + "a", names[0].swapcase() + "B", names[0] + "0", names[0][:-1] + "_"]
    names = list(dict.fromkeys(names))
    ops = []
    for t in names:
        ops.append(dict(k="create", t=t, ine=rng.randrange(2), idx=[], cols=[dict(n="x", t=INT, p=0), dict(n="s", t=STR, p=8)][:rng.choice([1, 2, 2])]))
    cols = {o["t"]: o["cols"] for o in ops}
    for i in range(40):
        t = rng.choice(names) if rng.random() < .93 else rng.choice([names[0] + "x", "nosuch", names[-1].swapcase() if names[-1].swapcase() not in names else "zz"])
        two = len(cols.get(t, [1])) == 2
        k = rng.random()
        if k < .5:
            ops.append(dict(k="insert", t=t, cols=[], vals=[[["v", ("I", i)]] + ([["v", ("S", rng.choice(["a", "bb"]))]] if two else [])]))
        elif k < .65:
            ops.append(dict(k="update", t=t, set=[["x", ("I", rng.randrange(5))]], where=[] if rng.random() < .5 else ["cmp", ">", col("x"), ["v", ("I", rng.randrange(30))]]))
        elif k < .8:
            ops.append(dict(k="delete", t=t, where=[] if rng.random() < .3 else ["cmp", "<", col("x"), ["v", ("I", rng.randrange(30))]]))
        elif k < .9:
            ops.append(sel(t))
        else:
            ops.append(dict(k="create", t=t, ine=rng.randrange(2), idx=[], cols=[dict(n="y", t=DBL, p=0)]))
    return Q(ops)


# ---- names ------------------------------------------------------------------------------------------------------
def names(rng, tier):
    """tables and columns whose names differ in case, in a suffix, or only at the very end of a long name"""
    L = rng.choice([3, 30, 62, 63, 64, 65, 100, 126, 127])
    a = "n" * (L - 1)
    fam = [a + "A", a + "a", a + "B", a, (a + "A")[:L - 2] if L > 4 else "n", "N" + a[1:] + "A", a + "1", "value1", "Selected", "from_", "T_1", "T1"]
    fam = list(dict.fromkeys(x for x in fam if 0 < len(x) <= 127))
    rng.shuffle(fam)
    tabs, cs = fam[:4], fam[4:8]
    ops = []
    types = [INT, STR, DBL, BOOL, DATE, DTIME]
    for t in tabs:
        use = rng.sample(cs, rng.randint(1, len(cs)))
        ops.append(dict(k="create", t=t, ine=rng.randrange(2), idx=[["pk", [use[0]]]] if rng.random() < .3 else [],
                        cols=[dict(n=c, t=rng.choice(types[:2]), p=9) for c in use]))
        for c in ops[-1]["cols"]:
            if c["t"] != STR:
                c["p"] = 0
    g = sqlgen.Gen(rng, p_noise=.05, join=.3, w=dict(insert=6, update=3, delete=2, select=5, create=2), names=fam, alias=0)
    g.db = {o["t"]: [dict(c, nn=int(any(c["n"] in i[1] for i in o["idx"])), pk=0) for c in o["cols"]] for o in ops}
    for _ in range(14):
        k = rng.choices(["insert", "update", "delete", "select", "create"], [6, 3, 2, 5, 3])[0]
        if k == "create" and rng.random() < .5:
            a = dict(ops[rng.randrange(len(tabs))])
            a["ine"] = rng.randrange(2)
            ops.append(a)
            continue
        ops.append(getattr(g, k)())
    return Q(ops)


# ---- sizes far beyond the usual ------------------------------------------------------------------------------------
def mixed_schema(rng, n, name="A", types=(INT, STR, DBL, BOOL, DATE), nn=.0):
    cols = [dict(n="id", t=INT, p=0, nn=0, uq=0, ai=0, pk=0)]
    for i in range(n - 1):
        t = rng.choice(types)
        cols.append(dict(n="c%d" % i, t=t, p=rng.choice([6, 20]) if t == STR else 0, nn=int(rng.random() < nn), uq=0, ai=0, pk=0))
    return dict(k="create", t=name, ine=0, cols=cols, idx=[])


def many_tuples(kinds):
    """one INSERT with hundreds of tuples, and statements that match hundreds of rows"""
    def mk(rng, tier):
        s = mixed_schema(rng, rng.choice([1, 2, 3]), types=(INT, INT, STR))
        g = sqlgen.Gen(rng, p_noise=0)
        n = rng.choice([99, 100, 127, 128, 129, 200, 255, 256, 257, 300])
        val = lambda c, i: ("I", i) if c["n"] == "id" else ("N",) if rng.random() < .05 else ("I", rng.randrange(n)) if c["t"] == INT else ("S", "s%d" % rng.randrange(n))
        ops = [s, dict(k="insert", t="A", cols=[], vals=[[["v", val(c, i)] for c in s["cols"]] for i in range(n)])]
        for _ in range(rng.randint(2, 3)):
            k = rng.choice(kinds)
            c = rng.choice(s["cols"])
            x = rng.random()
            if x < .3:
                w = []
            elif x < .5:
                w = ["cmp", rng.choice(["<", ">=", "<>"]), col("id"), ["v", ("I", rng.choice([0, 1, n // 2, n - 1]))]]
            else:
                w = [rng.choice(["in", "nin"]), col(c["n"]), [val(c, rng.randrange(n)) for _ in range(rng.choice([10, 63, 64, 65, 100, 128, 200]))]]
                w[2] = [v for v in w[2] if v != ("N",)]
            if k == "select":
                ops.append(sel("A", rng.choice([[["star"]], [col(c["n"])]]), w))
            elif k == "count":
                ops.append(sel("A", [["count"]], w))
            elif k == "group":
                ops.append(sel("A", [col(c["n"]), ["count"]], w, [col(c["n"])]))
            elif k == "update":
                ops.append(dict(k="update", t="A", set=[[c["n"], val(c, rng.randrange(n))]], where=w))
            else:
                ops.append(dict(k="delete", t="A", where=w))
        return Q(ops)
    return mk


def tall(kinds):
    """tables of thousands of rows: few statements, each of which meets them all"""
    def mk(rng, tier):
        s = mixed_schema(rng, rng.choice([1, 2, 2, 3]), types=(INT, INT, STR))
        n = rng.choice([999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2049, 3000])
        if tier != "quick" and rng.random() < .2:
            n = rng.choice([4095, 4096, 4097, 5000, 8191, 8192, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000])
        groups = rng.choice([2, 10, 127, 128, 129, 255, 256, 257, 300, 500]) if n < 5000 else rng.choice([2, 3, 127, 257])
        val = lambda c, i: ("I", i) if c["n"] == "id" else ("N",) if i % 97 == 5 else ("I", i % groups) if c["t"] == INT else ("S", "s%d" % (i % groups))
        ops, per = [s], rng.choice([100, 500, 1000, 1000, 3000, n])
        per = max(per, n // 8)
        for a in range(0, n, per):
            ops.append(dict(k="insert", t="A", cols=[], vals=[[["v", val(c, i)] for c in s["cols"]] for i in range(a, min(n, a + per))]))
        for _ in range(rng.randint(2, 3)):
            k = rng.choice(kinds)
            c = rng.choice(s["cols"][1:] or s["cols"])
            at = rng.choice([0, 1, 5, n // 2, n - 256, n - 5, n - 1, n])
            w = rng.choice([[], ["cmp", rng.choice(["<", ">=", "<>", "=", ">"]), col("id"), ["v", ("I", at)]], ["cmp", rng.choice(["=", "<>"]), col(c["n"]), ["v", val(c, rng.choice([6, at + 6]))]]])
            if k == "select":
                ops.append(sel("A", rng.choice([[["star"]], [col(c["n"])]]), w))
            elif k == "count":
                ops.append(sel("A", [["count"]], w))
            elif k == "group":
                ops.append(sel("A", rng.choice([[col(c["n"]), ["count"]], [["count"], col(c["n"])], [col(c["n"])]]), w, [col(c["n"])]))
            elif k == "update":
                ops.append(dict(k="update", t="A", set=[[c["n"], val(c, rng.randrange(n))]], where=w))
            elif k == "delete":
                ops.append(dict(k="delete", t="A", where=w))
            else:
                ops.append(dict(k="insert", t="A", cols=[], vals=[[["v", val(c, n + i)] for c in s["cols"]] for i in range(rng.choice([1, 3, 200]))]))
        if "join" in kinds:
            b = mixed_schema(rng, rng.choice([1, 2]), name="B", types=(INT,))
            ops += [b, dict(k="insert", t="B", cols=[], vals=[[["v", ("I", rng.choice([i, groups - 1 - i, n - 1 - i]))] for _ in b["cols"]] for i in range(rng.choice([1, 2, 3]))])]
            e, f = rng.choice([c for c in s["cols"] if c["t"] == INT]), rng.choice(b["cols"])
            on = ["cmp", rng.choice(["=", "=", "=", ">", "<>"]), col(e["n"], "A"), col(f["n"], "B")]
            fr = rng.choice([[["A", ""], ["B", ""]], [["B", ""], ["A", ""]]])
            ops.append(dict(k="select", items=rng.choice([[["star"]], [["count"]]]), **{"from": fr}, style="join", joins=[on], where=[], group=[]))
        return Q(ops)
    return mk


def many_columns(kinds):
    """tables of up to 128 columns with NULLs anywhere, partial column lists, long SET and select lists"""
    def mk(rng, tier):
        n = rng.choice([31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 128])
        s = mixed_schema(rng, n, nn=rng.choice([0, .1]))
        g = sqlgen.Gen(rng, p_noise=0, p_null=rng.choice([.05, .4]), p_extreme=0, flavours=False)
        def insert():
            cols = s["cols"]
            names = []
            if rng.random() < .5:
                cols = [c for c in cols if c["nn"] or rng.random() < rng.choice([.1, .6, .9])] or cols[-1:]
                rng.shuffle(cols)
                names = [c["n"] for c in cols]
            return dict(k="insert", t="A", cols=names, vals=[[["v", ("I", rng.randrange(5)) if c["n"] == "id" else g.cellvalue(c)] for c in cols] for _ in range(rng.choice([1, 2, 3]))])
        edge = [s["cols"][i] for i in (0, 31, 32, 62, 63, 64, 65, 95, 96, 126, 127, n - 1) if i < n]
        pick = lambda: rng.choice(edge if rng.random() < .5 else s["cols"])
        def cond(d=2):
            if d and rng.random() < .5:
                return [rng.choice(["and", "or", "xor"]), cond(d - 1), cond(d - 1)]
            c = pick()
            if rng.random() < .5:
                return [rng.choice(["null", "notnull"]), col(c["n"])]
            return ["cmp", rng.choice(["=", "<>"]), col(c["n"]), ["v", g.value(c["t"], 6)]]
        ops = [s] + [insert() for _ in range(rng.randint(2, 4))]
        for _ in range(rng.randint(3, 6)):
            k = rng.choice(kinds)
            w = cond() if rng.random() < .8 else []
            if k == "insert":
                ops.append(insert())
            elif k == "update":
                m = rng.choice([1, 2, 5, n // 2, n])
                ops.append(dict(k="update", t="A", set=[[c["n"], g.cellvalue(c)] for c in ([pick()] if m == 1 else rng.sample(s["cols"], m))], where=w))
            elif k == "delete":
                ops.append(dict(k="delete", t="A", where=w))
            elif k == "group":
                gs = [col(c["n"]) for c in rng.sample(s["cols"], rng.choice([1, 2, 5, 12]))]
                ops.append(sel("A", gs + [["count"]], w, gs))
            else:
                m = rng.choice([1, 2, 10, n])
                ops.append(sel("A", [["star"]] if rng.random() < .3 else [["count"]] if k == "count" else [col(c["n"]) for c in rng.sample(s["cols"], m)], w))
        return Q(ops)
    return mk


def long_conditions(kinds):
    """conditions with dozens of terms, nested to one side, to the other, or balanced"""
    def mk(rng, tier):
        g = sqlgen.Gen(rng, tables=(1, 1), cols=(2, 5), p_noise=0, names=["A"], flags=0, nn=0, p_null=.2, p_extreme=.1, types=[INT, INT, STR, DBL, DATE])
        ops = [g.create(0)] + [g.insert("A", rng.randint(3, 6)) for _ in range(3)]
        scope = [("", c) for c in g.db["A"]]
        def chain(n, shape):
            if n == 1:
                return g.cond(scope, 0)
            k = rng.choice(["and", "or", "xor"]) if shape != "same" else "or"
            m = 1 if shape in ("right", "same") else n - 1 if shape == "left" else n // 2
            return [k, chain(m, shape), chain(n - m, shape)]
        for _ in range(rng.randint(3, 5)):
            w = chain(rng.choice([7, 8, 9, 15, 16, 17, 24, 32, 33, 40, 65]), rng.choice(["left", "right", "same", "balanced"]))
            k = rng.choice(kinds)
            if k == "update":
                a = g.update("A")
            elif k == "delete":
                a = g.delete("A")
            else:
                a = sel("A", [["count"]] if k == "count" else [["star"]])
            ops.append(dict(a, where=w))
            if k == "delete":
                ops.append(g.insert("A", 4))
        return Q(ops)
    return mk


def long_texts(rng, tier):
    """texts of hundreds or thousands of bytes that agree on all but a little, any byte among them"""
    L = rng.choice([1, 15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 5000])
    base = "".join(rng.choice("abcd 123;,()#-%\xe9\xff_*") for _ in range(L))
    def vary():
        x = rng.random()
        if x < .3:
            return base
        i = rng.choice([0, L - 1, L // 2, rng.randrange(L)])
        if x < .7:
            return base[:i] + rng.choice("xyzXYZ") + base[i + 1:]
        if x < .85:
            return base[:i]
        return base + rng.choice(["x", " ", "xx"])
    cols = [dict(n="id", t=INT, p=0, nn=0, uq=0, ai=0, pk=0), dict(n="s", t=STR, p=rng.choice([L + 4, L + 4, L + 2, L + 1, 9999]), nn=0, uq=0, ai=0, pk=0)]
    if rng.random() < .5:
        cols.append(dict(cols[1], n="r", p=L + 4))
    if rng.random() < .3:
        cols.reverse()
    v = lambda c: ["v", ("I", rng.randrange(6)) if c["t"] == INT else ("N",) if rng.random() < .1 else ("S", vary())]
    ops = [dict(k="create", t="A", ine=0, cols=cols, idx=[])]
    many = 6 if L < 600 else 3
    for _ in range(2):
        ops.append(dict(k="insert", t="A", cols=[], vals=[[v(c) for c in cols] for _ in range(many)]))
    for _ in range(rng.randint(3, 5)):
        k = rng.choice(["select", "update", "delete", "group", "insert", "self"])
        w = [] if rng.random() < .2 else ["cmp", rng.choice(["=", "<>"]), col("s"), ["v", ("S", vary())]] if rng.random() < .6 else \
            [rng.choice(["in", "nin"]), col("s"), [("S", vary()) for _ in range(3)]] if rng.random() < .6 else ["cmp", "<", col("id"), ["v", ("I", 3)]]
        if k == "select":
            ops.append(sel("A", None, w))
        elif k == "group":
            ops.append(sel("A", [col("s"), ["count"]], w, [col("s")]))
        elif k == "update":
            ops.append(dict(k="update", t="A", set=[["s", v(dict(t=STR))[1]]], where=w))
        elif k == "delete":
            ops.append(dict(k="delete", t="A", where=w))
        elif k == "insert":
            ops.append(dict(k="insert", t="A", cols=[], vals=[[v(c) for c in cols]]))
        else:
            s = sel("A", [col("id", "p"), col("s", "q1")], ["cmp", "=", col("s", "p"), col("s", "q1")])
            s["from"] = [["A", "p"], ["A", "q1"]]
            ops.append(s)
    return Q(ops)


SCHEMA = dict(tables=(3, 6), length=(4, 8), cols=(1, 8), wide=.08, flags=.4, nn=.3, p_noise=.12, w=dict(create=6, insert=3, select=1, update=1, delete=1), strlen=(1, 60))

WORK = {
    "C01": [(.04, tall(["insert", "select"])), (5, rand(dict(w=dict(insert=10, select=2, update=1, delete=1), p_extreme=.2, cols=(1, 6), collist=.5))), (1, big(["insert", "select"], (10, 40))),
            (1, rand(dict(types=[STR, DATE, DTIME], p_extreme=.3, strlen=(2, 40), w=dict(insert=10, select=2, update=1, delete=1)))),
            (1, rand(dict(types=[STR], strlen=(200, 700), cols=(1, 2), length=(4, 7)))),
            (.4, many_tuples(["insert", "select"])), (.7, many_columns(["insert", "insert", "select"])), (.5, long_texts)],
    "C02": [(.04, tall(["update"])), (5, rand(dict(w=dict(insert=2, select=1, update=10, delete=1), prefix_rows=8, p_noise=.03))), (1, big(["update", "insert"])),
            (2, rand(dict(w=dict(insert=2, update=10), prefix_rows=6, p_null=.4, types=[STR, INT, DATE], p_noise=.02))),
            (.3, many_tuples(["update"])), (.8, many_columns(["update", "update", "update", "insert"])), (.3, long_texts), (.4, long_conditions(["update"]))],
    "C03": [(.04, tall(["delete", "delete", "insert"])), (5, rand(dict(w=dict(insert=4, select=1, update=1, delete=8), prefix_rows=9, p_noise=.03))), (1, big(["delete", "insert", "select"])),
            (1, rand(dict(w=dict(insert=5, select=3, update=1, delete=8), prefix_rows=9, types=[INT], cols=(1, 2), p_null=.3))),
            (.3, many_tuples(["delete"])), (.4, many_columns(["delete", "insert", "select"])), (.2, long_texts), (.4, long_conditions(["delete"]))],
    "C04": [(.04, tall(["select"])), (6, rand(dict(w=dict(insert=2, select=12, update=1, delete=1), prefix_rows=9, p_noise=.03, count=.0, length=(14, 26)))), (1, big(["select", "delete"])),
            (1, rand(dict(w=dict(insert=2, select=12), prefix_rows=8, depth=4, p_noise=.01, count=0, types=[INT, INT, DBL]))),
            (.3, many_tuples(["select"])), (.6, many_columns(["select", "select", "insert"])), (.4, long_texts), (.5, long_conditions(["select"]))],
    "C05": [(.04, tall(["join"])), (6, rand(dict(tables=(2, 4), cols=(1, 3), join=1.0, prefix_rows=5, maxrows=6, p_noise=.02, types=[INT, INT, INT, DBL, STR], samecols=.6, count=.02,
                          w=dict(insert=2, select=12, update=1, delete=1)))),
            (2, rand(dict(tables=(3, 4), join_tables=(3, 4), cols=(1, 2), join=1.0, prefix_rows=3, maxrows=4, p_noise=.0, types=[INT], samecols=.8, count=0, p_null=.25,
                          w=dict(insert=1, select=12)))),
            (1, rand(dict(tables=(2, 3), cols=(1, 6), join=1.0, prefix_rows=4, maxrows=6, p_noise=.0, samecols=.5, count=0, w=dict(insert=1, select=12)))), (2, big_join)],
    "C06": [(.04, tall(["count", "group", "group"])), (6, rand(dict(group=.75, count=.7, prefix_rows=10, maxrows=14, p_noise=.02, w=dict(insert=2, select=12, update=1, delete=1), p_null=.25))),
            (2, rand(dict(group=.8, count=.7, tables=(2, 3), cols=(1, 3), join=.6, prefix_rows=5, maxrows=8, p_noise=.02, types=[INT, STR, INT],
                          w=dict(insert=2, select=12)))),
            (1, rand(dict(group=.9, cols=(2, 3), types=[INT, DBL, STR], p_extreme=.5, prefix_rows=12, w=dict(insert=3, select=12), p_noise=0))),
            (1, big(["count", "group"], (20, 60))), (.5, big_join),
            (.4, many_tuples(["count", "group", "group"])), (.5, many_columns(["group", "group", "count", "insert"])), (.4, long_texts)],
    "C07": [(5, rand(dict(p_noise=.35, bad=.25, join=.3, group=.2, arith=.3))), (2, rand(dict(p_noise=.15, bad=.1, join=.3, group=.2, tables=(2, 3)))),
            (1, rand(dict(bad=.6, p_noise=.1)))],
    "C08": [(4, rand(SCHEMA)), (3, names), (1, rand(dict(SCHEMA, p_noise=.4)))],
    "C09": [(5, rand(dict(nn=.5, flags=.3, p_null=.3, p_noise=.12, arith=.2, types=[INT, INT, DBL, STR, BOOL, DATE], w=dict(insert=8, update=6, delete=1, select=1, create=1)))),
            (1, many_columns(["insert", "update"]))],
    "C10": [(1, same_where),
            (.15, long_conditions(["select", "update", "delete"])), (.1, many_columns(["select", "update", "delete"])), (.05, many_tuples(["select", "update", "delete"])), (.1, long_texts)],
    "C11": [(4, rand(dict(arith=.9, types=[INT, INT, DBL], cols=(1, 3), p_noise=.03, p_extreme=.05, w=dict(insert=10, select=1, delete=2), rows=(2, 5), nn=.1, maxrows=20))),
            (1, rand(dict(arith=.9, types=[INT], cols=(1, 2), p_noise=.0, p_extreme=.4, w=dict(insert=10, delete=2), rows=(2, 5), maxrows=20)))],
    "C12": [(.04, tall(["select"])), (3, cursors(False, True)), (2, cursors(False, False)), (2, big(["select", "delete", "insert"], (10, 60))), (.5, big_join),
            (.3, many_tuples(["select"]))],
    "C13": [(3, cursors(True, False)), (2, cursors(True, True)), (2, rand(dict(join=.4, group=.2, w=dict(select=12, insert=3, delete=1, update=1))))],
    "C22": [(5, rand(dict(p_noise=.4, w=dict(insert=8, update=6, select=4, delete=3), types=[INT, DBL, STR, BOOL, DATE, DTIME], nn=.05, cols=(1, 4)))),
            (1, rand(dict(p_noise=.3, types=[STR, STR, DATE, DTIME], strlen=(1, 6), p_extreme=.2, w=dict(insert=8, update=6, select=2)))),
            (.5, long_texts)],
    "C23": [(3, many_tables), (2, rand(dict(tables=(3, 6), cols=(1, 3), prefix_rows=3, samecols=.9, names=["T", "t", "TT", "tt", "T1", "T2", "T_", "Tt"])))],
}
# number of histories per tier
SIZE = {"quick": 900, "thorough": 9000}


def histories(prop, seed, tier, scale=1.0):
    ws = WORK[prop]
    n = int(SIZE[tier] * scale)
    out = []
    for i in range(n):
        rng = random.Random("%s/%d/%d" % (prop, seed, i))
        mk = rng.choices([m for _, m in ws], [w for w, _ in ws])[0]
        out.append(("%s-%d" % (prop, i), mk(rng, tier)))
    return out
