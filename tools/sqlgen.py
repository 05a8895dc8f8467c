"""Random statement histories (ASTs as described in spec/MidoriSQL.tla).  The generator only decides what to ask;
what the answer must be is the specification's business, so nothing here has to be 'right'."""
import random

INT, DBL, STR, BOOL, DATE, DTIME = "INTEGER", "DOUBLE", "VARCHAR", "TINYINT", "DATE", "DATETIME"
ALL_TYPES = [INT, INT, DBL, STR, STR, BOOL, DATE, DTIME]

DEFAULT = dict(
    tables=(1, 2), cols=(1, 4), types=ALL_TYPES, length=(10, 22), rows=(1, 3), maxrows=14,
    w=dict(insert=6, update=3, delete=2, select=6, create=1),
    nn=.15, p_null=.15, p_extreme=.08, p_noise=.06, bad=.0, p_where=.8, depth=2, arith=0.0, p_mutant=.75, p_sentence=.3,
    join=.0, group=.0, count=.08, alias=.2, samecols=.4, collist=.4, prefix_rows=4, wide=0.0, flags=.15,
    names=None, flavours=True, cursor=0.0, fixed_schema=None, strlen=(2, 12), unmatched=.1, join_tables=(2, 3), p_star=.35,
)

TABLE_NAMES = ["A", "B", "C", "T1", "tab_x", "a", "Ab", "TT"]
COL_NAMES = ["x", "y", "z", "id", "k1", "v_2", "Xy", "name", "w"]

BAD = ["SELEC * FROM A;", "SELECT FROM A;", "SELECT * FROM;", "SELECT * FROM A WHERE;", "INSERT INTO A VALUES (1;", "INSERT INTO A VALUES ();",
       "INSERT A (x VALUES (1);", "DELETE A;", "DELETE FROM;", "UPDATE A x = 1;", "UPDATE A SET;", "UPDATE A SET x;", "UPDATE SET x = 1;",
       "CREATE TABLE (x INT);", "CREATE TABLE A;", "CREATE TABLE Q ();", "CREATE TABLE Q (x);", "CREATE TABLE Q (x FOO);", "CREATE Q (x INT);",
       "DROP TABLE A;", "ALTER TABLE A ADD x INT;", "SELECT * FROM A WHERE x = ;", "SELECT * FROM A WHERE (x = 1;", "SELECT * FROM A GROUP x;",
       "SELECT * FROM A WHERE x == 1;", "SELECT * FROM A WHERE x = 1", "SELECT x y z FROM A;", "INSERT INTO A VALUES (1,);", "INSERT INTO A VALUES (,1);",
       "UPDATE A SET x = 1 WHERE;", "UPDATE A SET x = 1 y = 2;", "DELETE FROM A WHERE x IN ();", "SELECT COUNT(* FROM A;", "SELECT * FROM A WHERE x IS 1;",
       "'abc", "\"abc", ";", "", "@", "SELECT ? FROM A;", "SELECT * FROM A WHERE x = 'abc;", "CREATE TABLE Q (x INT, x2 VARCHAR());",
       "CREATE TABLE Q (x VARCHAR(5);", "CREATE TABLE 1Q (x INT);", "/* SELECT * FROM A;", "SELECT * FROM `A;", "x", "SELECT * FROM A JOIN B;",
       "UPDATE A SET x <> 1;", "UPDATE A SET x > 1;", "DELETE FROM A WHERE A.x = 1;", "SELECT * FROM A WHERE x LIKE 'a%' AND;", "INSERT INTO A VALUES 1;",
       "INSERT INTO A VALUES (1) (2);", "DELETE FROM A WHERE x = 1 y = 2;", "CREATE TABLE Q (x INT,);", "CREATE TABLE IF EXISTS Q (x INT);",
       # statements of the grammar that the engine does not support must fail cleanly
       "INSERT INTO A SELECT * FROM A;", "SELECT 1;", "SELECT x + 1 FROM A;", "DELETE FROM A WHERE x;", "DELETE FROM A WHERE 1;", "UPDATE A SET x = x;",
       "SELECT * FROM A WHERE x;", "SELECT * FROM A WHERE TRUE;", "SELECT * FROM A WHERE x + 1 = 2;", "SELECT * FROM A LEFT JOIN B ON A.x = B.x;",
       "UPDATE A SET x = 1 WHERE x + 1 = 2;", "SELECT * FROM A WHERE 1 IN (1, 2);", "DELETE FROM A WHERE 1 IS NULL;", "SELECT 1 FROM A;"]


COL_FAMILIES = [["a", "ab", "abc", "b", "ba", "abcd", "bab"], ["id", "id2", "idx", "i", "ids", "id_", "id1"], ["x1", "x10", "x2", "x", "x11", "x1a", "x100"],
                ["n", "na", "name", "names", "nam", "name2", "nameX"], ["x", "X", "xx", "XX", "xX", "Xx", "y"], ["a_b", "a", "b", "a_", "ab", "b_a", "a_b_c"],
                ["A", "B", "C", "T1", "tab_x", "a", "TT"], ["count_", "sum1", "values1", "selected", "fromx", "key1", "nulls", "dates"], ["c0", "c1", "c2", "c3", "c4", "c5", "c6"]]
TAB_FAMILIES = [["A", "AA", "AAA", "AB", "a", "aa", "Ab"], ["t", "t1", "t10", "t2", "t11", "t_1", "T1"], ["user", "users", "user_", "User", "use", "user2", "USER"],
                ["x", "y", "z", "id", "k1", "v_2", "Xy"], ["T", "TT", "T_T", "T_", "TTT", "tT", "Tt"]]


def lookalikes(r, k):
    """names that agree on their first k characters, or nearly"""
    a = "".join(r.choice("abAB_1") for _ in range(k - 1))
    a = r.choice("nN") + a
    return [a, a + "x", a + "X", a + "xy", a + "1", a[:-1], a[:-1] + "Z"]


def family(r, a):
    """strings that agree on all but their end, or on all but their beginning"""
    if r.random() < .75:
        return [a, a + "b", a + "c", a + "bb", a[:-1], a[:-1] + "Z", a + " ", a + "B"]
    return [a, "b" + a, "c" + a, "bb" + a, a[1:], "Z" + a[1:], " " + a, "B" + a]


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.db = {}        # name -> list of columns (as if every CREATE succeeded)
        self.count = {}     # rows inserted so far (upper bound)
        self.flavour()

    # ---- what the names and values of this history have in common ------------------------------------
    def flavour(self):
        """most of a history's names and values come from one family of look-alikes"""
        r = self.r
        self.colpool, self.tabpool = COL_NAMES, TABLE_NAMES
        self.texts = self.ints = self.dbls = self.dates = self.dtimes = None
        if not self.p["flavours"] or r.random() < .35:
            return
        x = r.random()
        if x < .45:
            self.colpool = r.choice(COL_FAMILIES)
        elif x < .6:
            self.colpool = lookalikes(r, r.choice([8, 16, 32, 33, 60, 63, 64, 65, 100]))
        if r.random() < .35 and not self.p["names"]:
            self.tabpool = r.choice(TAB_FAMILIES) if r.random() < .6 else lookalikes(r, r.choice([8, 16, 31, 32, 63, 64, 65, 120]))
        x = r.random()
        if x < .4:
            k = r.choice([1, 3, 4, 7, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64])
            self.texts = family(r, "".join(r.choice("abAB_ 1") for _ in range(k)))
            if r.random() < .8:
                self.p["strlen"] = (k + 2, k + 8)
        elif x < .6:
            self.texts = r.choice([["1", "01", "1.0", "10", "2", "12", ""], ["a", "A", "aa", "Aa", "aA", "AA", ""], ["a", "a ", " a", "a  ", " ", "", "  "],
                                   ["2020-01-01", "2020-01-02", "2020", "2020-01-01 00:00:00"], ["null", "NULL", "n", "true", "TRUE", "1", "0", ""],
                                   ["\xe9", "\xc3\xa9", "e", "\xff", "\xfe", "\x7f", "~"], ["%", "_", "a%", "a_", "%%", "ab", "%s"], ["ab", "ba", "aab", "bc", "cb", "AB", "bA"]])
        x = r.random()
        if x < .3:
            b, m = r.choice([0, 1, 5, -1, 100]), r.choice([2**8, 2**16, 2**31, 2**32, 2**33, 2**48, 2**62])
            self.ints = [v for v in [b, b + m, b - m, b + 1, -b, m, -m, 0, b + 2 * m] if -2**63 <= v < 2**63]
        elif x < .4:
            self.ints = r.choice([[2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 0, -1, 1], [2**53, 2**53 + 1, 2**53 - 1, 2**24 + 1, 2**24, 2**54 + 2, 2**54 + 1],
                                  [1, 10, 100, 2, 20, 11, 12, 9, -9, -10], [2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, -1, 0]])
        x = r.random()
        if x < .4:
            self.dbls = r.choice([[1.0, 1.5, 1.25, 1.9, 2.0, -1.5, -1.0, -1.25], [1.0, 1.0 + 2**-40, 1.0 + 2**-52, 1.0 - 2**-53, 1.0 + 2**-24],
                                  [0.1, 0.2, 0.3, 0.30000000000000004, 0.1 + 2**-56], [2.0**31, 2.0**32, 2.0**33, 2.0**63, 2.0**64, -2.0**31, -2.0**63],
                                  [16777216.0, 16777217.0, 16777218.0, 9007199254740992.0, 9007199254740993.0], [1e-300, 2e-300, 5e-324, -1e-300, 0.0, 1e-9, 1e-8],
                                  [1e300, 1.0000001e300, -1e300, 1e308, 1e40, 3e38, 4e38]])
        if r.random() < .5:
            self.dates = r.choice([["2020-01-01", "2021-01-01", "2020-02-01", "2020-01-02", "2021-02-01", "2021-01-02"], ["2020-02-28", "2020-02-29", "2020-03-01", "2021-02-28"],
                                   ["1969-12-31", "1970-01-01", "1969-12-30", "1970-01-02", "1900-02-28", "1900-03-01"],
                                   ["0001-01-01", "9999-12-31", "1582-10-15", "1600-02-29", "2400-02-29", "2100-03-01", "1000-10-10"],
                                   ["2020-12-31", "2021-01-01", "2019-12-31", "2020-01-01"], ["1970-01-01", "1970-01-02", "2037-12-31", "2038-01-20", "1969-12-31", "1960-05-05"],
                                   ["2020-1-1", "2020-01-01", "2020-1-01", "2020-10-1", "2020-1-10", "2020-10-10"], ["2020-03-29", "2020-03-30", "2020-10-25", "2020-10-26", "2020-06-21"]])
            self.dtimes = r.choice([[d + t for d in self.dates[:3] for t in (" 00:00:00", " 00:00:01", " 23:59:59")], ["2020-01-01 " + t for t in
                                    ("00:00:00", "00:00:01", "00:01:00", "01:00:00", "12:00:00", "10:10:10", "01:10:10")],
                                    ["1969-12-31 23:59:59", "1970-01-01 00:00:00", "1969-12-31 23:59:58", "1970-01-01 00:00:01", "1969-12-31 00:00:00"],
                                    ["0001-01-01 00:00:00", "9999-12-31 23:59:59", "2106-02-07 06:28:15", "2106-02-07 06:28:16", "2038-01-19 03:14:07", "2038-01-19 03:14:08", "1901-12-13 20:45:51"],
                                    ["2020-1-1 1:1:1", "2020-01-01 01:01:01", "2020-01-01 1:01:01", "2020-01-01 01:01:10", "2020-1-1 0:0:0", "2020-01-01 00:00:00"]])

    # ---- values -----------------------------------------------------------------------------------
    def chance(self, k):
        return self.r.random() < (self.p[k] if isinstance(k, str) else k)

    def value(self, t, p=10):
        r = self.r
        if r.random() < .8:
            if t == INT and self.ints:
                return ("I", r.choice(self.ints))
            if t == DBL and self.dbls:
                return ("D", r.choice(self.dbls))
            if t == DATE and self.dates:
                return ("S", r.choice(self.dates))
            if t == DTIME and self.dtimes:
                return ("S", r.choice(self.dtimes))
            if t == STR and self.texts:
                return ("S", r.choice(self.texts)[:max(0, p - 1)])
        if t == INT:
            if self.chance("p_extreme"):
                return ("I", r.choice([2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**40, -2**40, 2**53 + 1, 2**63 - 1, -2**63, 4294967297, 65536, 256, -129, 255]))
            return ("I", r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 10, 12]))
        if t == DBL:
            if self.chance("p_extreme"):
                return ("D", r.choice([0.1, -0.1, 1e300, -1e-300, 123456.789, 1e20, 2**53 + 2.0, 3.0000001, 2097151.999, 2097152.0, -2097153.5, 0.0009765625, 1e-9]))
            return ("D", r.choice([-1.5, -1.0, 0.0, 0.5, 1.0, 1.0, 1.5, 2.0, 2.25, 3.0, 10.0, -0.25]))
        if t == BOOL:
            return ("B", r.choice([0, 1]))
        if t == DATE:
            return ("S", r.choice(["2020-01-01", "2020-02-29", "1999-12-31", "2021-03-01", "2021-03-02", "1970-01-02", "2037-12-31", "2020-01-31"]))
        if t == DTIME:
            return ("S", r.choice(["2020-01-01 00:00:00", "2020-01-01 00:00:01", "2020-01-01 23:59:59", "2020-02-29 12:30:45", "1999-12-31 23:59:59",
                                   "2021-03-01 01:02:03", "1970-01-02 00:00:00"]))
        if self.chance("p_extreme"):
            s = r.choice(["%s%d%n", "a;b", "#x", "-- x", "/*x*/", "NULL", "TRUE", "1", "a,b", "(a)", "x=1", " lead", "trail ", "  ", "é".encode().decode("latin-1"),
                          "\xff\xfe", "`q`", "it's", "tab\there", "A.x", "*", "COUNT(*)", "\\n", "WHERE"])
            s = s if len(s) < p else s[:p - 1]
            if s.endswith("\\"):
                s = s[:-1]
            return ("S", s)
        n = r.choice([0, 1, 1, 2, 2, 3, p - 2, p - 1]) if p > 3 else r.randrange(0, max(1, p))
        n = max(0, min(n, p - 1))
        a = r.choice(["a", "b", "ab", "aB"])
        return ("S", (a * (n + 1))[:n])

    def anyvalue(self):
        return self.value(self.r.choice([INT, DBL, STR, BOOL, DATE]), 30)

    def cellvalue(self, c):
        if self.chance("p_noise"):
            return self.r.choice([self.anyvalue(), ("S", "q" * (c["p"] or 3)), ("N",), ("S", "2020-13-01"), ("S", "2021-02-29"), ("S", "2020-01-01 24:00:00")])
        if self.chance("p_null") and not (c.get("nn") or c.get("pk")):
            return ("N",)
        return self.value(c["t"], c["p"] or 10)

    # ---- expressions ------------------------------------------------------------------------------
    def expr(self, t, depth):
        r = self.r
        if depth == 0 or r.random() < .2:
            v = self.value(t)
            if t == INT and r.random() < .5:
                v = ("I", r.randrange(-20, 30))
            if self.chance("p_noise"):
                v = self.r.choice([("N",), self.anyvalue()])
            return ["v", v]
        if r.random() < .15:
            return ["neg", self.expr(t, depth - 1)]
        return ["op", r.choice("++--**/%"), self.expr(t, depth - 1), self.expr(t, depth - 1)]

    def cell(self, c):
        if self.p["arith"] and c["t"] in (INT, DBL) and self.chance("arith"):
            return self.expr(c["t"], self.r.choice([1, 1, 2, 2, 3, 4]))
        return ["v", self.cellvalue(c)]

    # ---- schema -----------------------------------------------------------------------------------
    def column(self, n):
        r = self.r
        t = r.choice(self.p["types"])
        c = dict(n=n, t=t, p=r.randint(*self.p["strlen"]) if t == STR else 0, nn=int(self.chance("nn")), uq=0, ai=0, pk=0)
        if self.chance("flags"):
            c[r.choice(["uq", "ai", "pk"])] = 1
        return c

    def create(self, ine=None):
        r = self.r
        names = self.p["names"] or self.tabpool
        fresh = [n for n in names if n not in self.db]
        t = r.choice(fresh) if fresh and r.random() < .85 else r.choice(names)
        ncols = r.randint(*self.p["cols"])
        if self.chance("wide"):
            ncols = r.choice([9, 17, 30, 60, 64])
        pool = self.colpool + ["c%d" % i for i in range(200)]
        if not self.chance("samecols") or self.colpool is not COL_NAMES and r.random() < .5:
            head = self.colpool[:]
            r.shuffle(head)
            pool = head + pool[len(self.colpool):]
        pool = list(dict.fromkeys(pool))
        cols = [self.column(pool[i]) for i in range(ncols)]
        idx = []
        if self.chance("flags"):
            idx.append(["pk", r.sample([c["n"] for c in cols], r.randint(1, min(2, ncols)))])
        if self.chance("flags"):
            idx.append(["ix", r.sample([c["n"] for c in cols], r.randint(1, min(2, ncols)))])
        if self.chance("p_noise"):
            k = r.randrange(3)
            if k == 0 and ncols > 1:
                cols[-1]["n"] = cols[0]["n"]
            elif k == 1:
                idx.append(["ix", ["nosuch"]])
            else:
                cols[0].update(t=STR, p=r.choice([0, 10000, 99999, 1, 9999]))
            if r.random() < .3:
                idx.append([r.choice(["ix", "pk"]), r.sample([c["n"] for c in cols], 1) + (["nosuch"] if r.random() < .5 else [])])
        r.shuffle(idx)
        ipos = [r.choice([ncols, r.randint(0, ncols)]) for _ in idx]
        for c in cols:
            if not c["nn"] and r.random() < .1:
                c["null"] = 1
        ine = int(r.random() < .3) if ine is None else ine
        if t not in self.db and len({c["n"] for c in cols}) == len(cols) and all(n in [c["n"] for c in cols] for i in idx for n in i[1]):
            pk = [n for k, ns in idx if k == "pk" for n in ns]
            self.db[t] = [dict(c, nn=int(c["nn"] or c["pk"] or c["n"] in pk)) for c in cols]
            self.count[t] = 0
        return dict(k="create", t=t, ine=ine, cols=cols, idx=idx, ipos=ipos)

    def table(self):
        if not self.db or self.chance(self.p["p_noise"] * .3):
            return self.r.choice(["nosuch", "Aa", "b", "X"])
        return self.r.choice(list(self.db))

    def cols_of(self, t):
        return self.db.get(t) or [dict(n="x", t=INT, p=0, nn=0)]

    # ---- data -------------------------------------------------------------------------------------
    def insert(self, t=None, rows=None):
        r = self.r
        t = t or self.table()
        cols = self.cols_of(t)
        use = cols
        names = []
        if self.chance("collist"):
            use = cols[:]
            r.shuffle(use)
            must = [c for c in use if c["nn"]]
            opt = [c for c in use if not c["nn"]]
            use = must + opt[:r.randint(0 if must else 1, len(opt))] if opt else must
            r.shuffle(use)
            if self.chance("p_noise"):
                use = use[:-1] or use
            names = [c["n"] for c in use]
            if self.chance(self.p["p_noise"] * .5):
                names[-1] = r.choice(["nosuch", names[0]])
        n = rows or r.randint(*self.p["rows"])
        vals = [[self.cell(c) for c in use] for _ in range(n)]
        if self.chance(self.p["p_noise"] * .5):
            k = r.randrange(n)
            vals[k] = vals[k][:-1] if len(vals[k]) > 1 and r.random() < .5 else vals[k] + [["v", ("I", 1)]]
        self.count[t] = self.count.get(t, 0) + n
        return dict(k="insert", t=t, cols=names, vals=vals)

    def ref(self, scope):
        q, c = self.r.choice(scope)
        n = c["n"]
        if self.chance(self.p["p_noise"] * .3):
            n = self.r.choice(["nosuch", "X", "xx"])
        return ["c", q, n], c

    def litfor(self, c, noise=True):
        if noise and self.chance(self.p["p_noise"]):
            return self.r.choice([self.anyvalue(), ("N",), ("S", "2020-13-01")])
        if self.r.random() < .04:
            return ("N",)
        return self.value(c["t"], (c["p"] or 10) + 2)

    def cmp(self, scope):
        r = self.r
        a, c = self.ref(scope)
        ops = ["=", "<>"] if c["t"] in (STR, BOOL) else ["=", "=", "<>", "<", ">", "<=", ">="]
        if self.chance(self.p["p_noise"] * .5):
            ops = ["<", ">="] if c["t"] != BOOL else ops
        same = [(q, k) for q, k in scope if k["t"] == c["t"]]
        if r.random() < .2 and same:
            q, k = r.choice(same)
            b = ["c", q, k["n"]]
        else:
            v = self.litfor(c)
            b = ["v", v]
            if v == ("N",):
                ops = ["=", "<>"]
        op = r.choice(ops)
        if r.random() < .3:
            a, b = b, a
        if r.random() < .03:
            a = ["v", self.value(c["t"], 10)]
            b = ["v", self.value(c["t"], 10)]
            if c["t"] in (DATE, DTIME):
                op = "="
        return ["cmp", op, a, b]

    def cond(self, scope, depth=None, only_cmp=False):
        r = self.r
        depth = self.p["depth"] if depth is None else depth
        if depth > 0 and r.random() < .55:
            return [r.choice(["and", "or", "xor", "and", "or"]), self.cond(scope, depth - 1, only_cmp), self.cond(scope, depth - 1, only_cmp)]
        k = r.random()
        if only_cmp or k < .62:
            return self.cmp(scope)
        a, c = self.ref(scope)
        if k < .8:
            n = r.choice([1, 2, 2, 3, 4])
            return [r.choice(["in", "nin"]), a, [self.litfor(c) for _ in range(n)]]
        return [r.choice(["null", "notnull"]), a]

    def where(self, scope):
        return self.cond(scope) if self.chance("p_where") else []

    def update(self, t=None):
        r = self.r
        t = t or self.table()
        cols = self.cols_of(t)
        use = r.sample(cols, r.randint(1, min(len(cols), 3)))
        st = []
        for c in use:
            v = self.cellvalue(c)
            st.append([c["n"] if not self.chance(self.p["p_noise"] * .3) else "nosuch", v])
        return dict(k="update", t=t, set=st, where=self.where([("", c) for c in cols]))

    def delete(self, t=None):
        t = t or self.table()
        return dict(k="delete", t=t, where=self.where([("", c) for c in self.cols_of(t)]))

    def select(self):
        r = self.r
        tabs = list(self.db)
        if len(tabs) >= 2 and self.chance("join"):
            return self.joinsel()
        t = self.table()
        alias = r.choice(["p", "q1", "Tz"]) if self.chance("alias") else ""
        cols = self.cols_of(t)
        q = r.choice(["", "", alias or t])
        scope = [(q, c) for c in cols]
        s = dict(k="select", style="comma", joins=[], where=self.where(scope), group=[])
        s["from"] = [[t, alias]]
        if self.chance("group"):
            self.grouping(s, scope)
        elif self.chance("count"):
            s["items"] = [["count"]]
        elif self.chance("p_star"):
            s["items"] = [["star"]]
        else:
            pick = [self.ref(scope)[0] for _ in range(r.randint(1, min(4, len(cols) + 1)))]
            s["items"] = pick
        return s

    def grouping(self, s, scope):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3])
        refs = []
        for _ in range(n):
            a, _c = self.ref(scope)
            if a not in refs:
                refs.append(a)
        s["group"] = refs
        items = [list(x) for x in refs]
        if r.random() < .2 and len(items) > 1:
            items = items[:-1]
        r.shuffle(items)
        if r.random() < .75:
            items.insert(r.randrange(len(items) + 1), ["count"])
        if r.random() < .1:
            items = [["count"]]
        if self.chance("p_noise"):
            items.append(self.ref(scope)[0])
        s["items"] = items

    def joinsel(self):
        r = self.r
        tabs = list(self.db)
        k = min(len(tabs), r.randint(*self.p["join_tables"]))
        frm = r.sample(tabs, k)
        style = r.choice(["comma", "join"])
        al = self.chance("alias")
        aliases = ["p", "q1", "Tz", "W4"]
        s = dict(k="select", style=style, group=[])
        s["from"] = [[t, aliases[i] if al and (r.random() < .8) else ""] for i, t in enumerate(frm)]
        scopes = [[(a or t, c) for c in self.cols_of(t)] for t, a in s["from"]]
        full = [x for sc in scopes for x in sc]
        if style == "join":
            s["joins"] = []
            for i in range(1, k):
                left = [x for sc in scopes[:i] for x in sc]
                right = scopes[i]
                pairs = [(a, b) for a in left for b in right if a[1]["t"] == b[1]["t"]]
                if pairs and r.random() < .8:
                    a, b = r.choice(pairs)
                    op = r.choice(["=", "=", "=", "<>", "<", ">="]) if a[1]["t"] not in (STR, BOOL) else r.choice(["=", "=", "<>"])
                    c = ["cmp", op, ["c", a[0], a[1]["n"]], ["c", b[0], b[1]["n"]]]
                    if r.random() < .3:
                        c[2], c[3] = c[3], c[2]
                    if r.random() < .25:
                        c = [r.choice(["and", "or", "xor"]), c, self.cond(left + right, 0, True)]
                else:
                    c = self.cond(left + right, 1, True)
                s["joins"].append(c)
        else:
            s["joins"] = []
        # unqualified references are fine when unambiguous (and no alias is used)
        names = [c["n"] for _, c in full]
        def unq(sc):
            return [("" if names.count(c["n"]) == 1 and not al and r.random() < .3 else q, c) for q, c in sc]
        sc = unq(full)
        s["where"] = self.where(sc)
        if self.chance("group"):
            self.grouping(s, sc)
        elif self.chance("count"):
            s["items"] = [["count"]]
        elif self.chance("p_star"):
            s["items"] = [["star"]]
        else:
            s["items"] = [self.ref(sc)[0] for _ in range(r.randint(1, 5))]
        return s

    VOCAB = ["(", ")", ",", ";", ".", "*", "+", "-", "/", "%", "=", "<", "<>", "!", "&&", "||", "&", "AND", "OR", "XOR", "NOT", "NULL", "IS", "IN", "AS", "FROM", "WHERE", "GROUP", "BY",
             "ORDER", "HAVING", "LIMIT", "SELECT", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "IF", "EXISTS", "PRIMARY", "KEY", "INDEX", "UNIQUE",
             "AUTO_INCREMENT", "INT", "VARCHAR", "DATE", "DATETIME", "TINYINT", "DOUBLE", "JOIN", "INNER", "LEFT", "OUTER", "ON", "COUNT(", "COUNT", "DISTINCT", "CASE", "WHEN", "THEN", "ELSE",
             "END", "LIKE", "BETWEEN", "CURRENT_DATE", "MOD", "TRUE", "1", "-1", "2.5", "'s'", "A", "x", "id", "AS A", "AS x", "`A`"]

    def mutant(self):
        """a statement with some of its tokens lost, repeated, changed, swapped or added, or two halves glued together"""
        import render
        r = self.r
        saved = dict(self.db), dict(self.count)
        kinds = [self.insert, self.update, self.delete, self.select, self.select, self.create]
        st = render.Style()
        toks = render.tokens(r.choice(kinds)(), st)
        if r.random() < .2:
            more = render.tokens(r.choice(kinds)(), st)
            if r.random() < .3:
                toks = toks + more
            else:
                toks = toks[:r.randint(1, len(toks))] + more[r.randrange(len(more)):]
        self.db, self.count = saved
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not toks:
                break
            x = r.random()
            i = r.randrange(len(toks))
            if x < .2:
                toks = toks[:i] + (["x"] if i == 0 else []) + toks[i + 1:]
            elif x < .3:
                toks = toks[:i] + [toks[i]] + toks[i:]
            elif x < .6:
                toks = toks[:i] + r.choice(self.VOCAB).split() + toks[i:]
            elif x < .75:
                toks = toks[:i] + r.choice(self.VOCAB).split() + toks[i + 1:]
            elif x < .85:
                j = r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            else:
                toks = toks[:i + 1] + ([";"] if r.random() < .6 else [])
        return render.text(toks)

    # any sentence of the grammar, supported by the engine or not
    def g_name(self):
        r = self.r
        x = r.random()
        if x < .8 and self.db:
            return r.choice(r.choice(list(self.db.values())))["n"]
        return r.choice(["A", "B", "x", "y", "id", "zz"])

    def g_table(self):
        return self.r.choice(list(self.db)) if self.db and self.r.random() < .9 else "Nope"

    def g_lit(self):
        r = self.r
        return r.choice(["0", "1", "-3", "2.5", "'a'", "''", "'2020-01-01'", "TRUE", "FALSE", "NULL", "9223372036854775807", "1e3", "'x_%'", "UNKNOWN"])

    def g_expr(self, d, n=3):
        r = self.r
        x = r.random()
        if n <= 0 or x < .35:
            if d == "ins" or r.random() < .4:
                return [self.g_lit()]
            if d == "sel" and r.random() < .3:
                return [self.g_table(), ".", self.g_name()]
            return [self.g_name()]
        e = lambda: self.g_expr(d, n - 1)
        if x < .45:
            return ["("] + e() + [")"]
        if d == "ins":
            return e() + [r.choice("+-*/%")] + e() if x < .9 else ["-"] + e()
        if x < .75:
            ops = ["=", "<", ">", "<=", ">=", "<>", "AND", "OR", "XOR", "AND", "OR", "&&", "||"] + (["+", "-", "*", "/", "%", "MOD", "LIKE"] if d == "sel" else [])
            return e() + [r.choice(ops)] + e()
        if x < .82:
            return e() + ["IS"] + (["NOT"] if r.random() < .5 else []) + ["NULL"]
        if x < .9:
            o = e() + (["NOT"] if r.random() < .4 else []) + ["IN", "("] + e()
            for _ in range(r.randrange(3)):
                o += [","] + e()
            return o + [")"]
        if d != "sel":
            return [self.g_name(), "=", self.g_lit()]
        y = r.random()
        if y < .4:
            return ["COUNT("] + (["*"] if r.random() < .5 else e()) + [")"]
        if y < .6:
            return ["CASE"] + (e() if r.random() < .5 else []) + ["WHEN"] + e() + ["THEN"] + e() + (["ELSE"] + e() if r.random() < .5 else []) + ["END"]
        if y < .8:
            return ["-"] + e()
        if y < .9:
            return e() + ["NOT", "LIKE"] + e()
        return ["CURRENT_DATE"]

    def g_list(self, f, most=3):
        o = f()
        for _ in range(self.r.randrange(most)):
            o = o + [","] + f()
        return o

    def g_from(self):
        r = self.r
        o = [self.g_table()] + self.g_alias(.2)
        while r.random() < .25:
            o += r.choice([["JOIN"], ["INNER", "JOIN"], ["LEFT", "JOIN"], ["RIGHT", "OUTER", "JOIN"]]) + [self.g_table()] + self.g_alias(.2) + ["ON"] + self.g_expr("sel", 2)
        return o

    def g_alias(self, p):
        r = self.r
        return [] if r.random() > p else (["AS"] if r.random() < .5 else []) + [r.choice(["A", "B", "t", "x", "c"])]

    def g_select(self):
        r = self.r
        o = ["SELECT"] + (["DISTINCT"] if r.random() < .1 else [])
        o += ["*"] if r.random() < .3 else self.g_list(lambda: self.g_expr("sel", r.randrange(3)) + self.g_alias(.15))
        if r.random() < .05:
            return o
        o += ["FROM"] + self.g_list(self.g_from, r.choice([1, 1, 2, 3]))
        if r.random() < .6:
            o += ["WHERE"] + self.g_expr("sel", r.randint(1, 4))
        if r.random() < .25:
            o += ["GROUP", "BY"] + self.g_list(lambda: self.g_expr("sel", r.randrange(2)) + ([r.choice(["ASC", "DESC"])] if r.random() < .2 else []))
        if r.random() < .1:
            o += ["HAVING"] + self.g_expr("sel", 2)
        if r.random() < .1:
            o += ["ORDER", "BY"] + self.g_list(lambda: self.g_expr("sel", 1))
        if r.random() < .1:
            o += ["LIMIT"] + self.g_list(lambda: self.g_expr("sel", 1), 2)
        return o

    def sentence(self):
        import render
        r = self.r
        x = r.random()
        if x < .45:
            o = self.g_select()
        elif x < .6:
            o = ["INSERT"] + (["INTO"] if r.random() < .8 else []) + [self.g_table()]
            if r.random() < .3:
                o += ["("] + self.g_list(lambda: [self.g_name()]) + [")"]
            if r.random() < .1:
                o += self.g_select()
            else:
                o += ["VALUES"] + self.g_list(lambda: ["("] + self.g_list(lambda: self.g_expr("ins", 2), 4) + [")"])
        elif x < .8:
            o = ["UPDATE", self.g_table(), "SET"] + self.g_list(lambda: [self.g_name(), "="] + self.g_expr("cond", r.choice([0, 0, 0, 2])))
            if r.random() < .7:
                o += ["WHERE"] + self.g_expr("cond", r.randint(1, 4))
        elif x < .95:
            o = ["DELETE", "FROM", self.g_table()]
            if r.random() < .9:
                o += ["WHERE"] + self.g_expr("cond", r.randint(1, 4))
        else:
            o = ["CREATE", "TABLE"] + (["IF", "NOT", "EXISTS"] if r.random() < .3 else []) + [r.choice(["Q1", "Q2", "Q3", self.g_table()]), "("]
            names = [self.g_name() for _ in range(r.randint(1, 4))]
            defs = []
            for n in names:
                t = r.choice([["INT"], ["VARCHAR", "(", r.choice(["5", "1", "0", "9999", "10000", "-1"]), ")"], ["DOUBLE"], ["TINYINT"], ["DATE"], ["DATETIME"]])
                at = []
                for _ in range(r.choice([0, 0, 1, 2])):
                    at += r.choice([["NOT", "NULL"], ["NULL"], ["UNIQUE"], ["AUTO_INCREMENT"], ["PRIMARY", "KEY"]])
                defs.append([n] + t + at)
            for _ in range(r.choice([0, 0, 1, 2])):
                defs.append(r.choice([["PRIMARY", "KEY", "("], ["INDEX", "("]]) + self.g_list(lambda: [r.choice(names + [self.g_name()])]) + [")"])
            r.random() < .3 and r.shuffle(defs)
            for i, df in enumerate(defs):
                o += ([","] if i else []) + df
            o.append(")")
        return render.text(o + [";"])

    def bad(self):
        if self.r.random() < self.p["p_sentence"]:
            return self.sentence()
        if self.r.random() < self.p["p_mutant"]:
            return self.mutant()
        return dict(k="bad", why="syntax", text=self.r.choice(BAD))

    # ---- histories ---------------------------------------------------------------------------------
    def history(self):
        r = self.r
        out = []
        n = r.randint(*self.p["length"])
        for _ in range(r.randint(*self.p["tables"])):
            for _try in range(3):
                before = len(self.db)
                out.append(self.create(0))
                if len(self.db) > before:
                    break
        for t in list(self.db):
            left = r.randint(0, self.p["prefix_rows"])
            while left > 0:
                k = min(left, max(1, r.randint(*self.p["rows"])))
                out.append(self.insert(t, k))
                left -= k
        kinds = list(self.p["w"])
        ws = [self.p["w"][k] for k in kinds]
        for _ in range(n):
            if self.chance("bad"):
                out.append(self.bad())
                continue
            k = r.choices(kinds, ws)[0]
            if k == "insert":
                t = self.table()
                if self.count.get(t, 0) > self.p["maxrows"]:
                    k = "delete"
                    self.count[t] = self.count[t] // 2
                    out.append(self.delete(t))
                    continue
            out.append(getattr(self, k)())
        return out
