"""AST -> SQL text.  `Style` decides letter case, white space, comments, synonyms and parentheses; the default
style is the plain one.  All randomness comes from the style's generator."""
import re
import random


WHITE = [" ", " ", " ", "\t", "\t", "\n", "\n", "\r\n", "\r", "\f", "\v"]


class Style:
    def __init__(self, rng=None, case=False, space=False, comments=False, synonyms=False, parens=False, tight=False):
        self.tight = tight      # no white space but where it is needed
        self.rng = rng or random.Random(0)
        self.case, self.space, self.comments, self.synonyms, self.parens = case, space, comments, synonyms, parens

    def kw(self, w):
        if not self.case:
            return w
        r = self.rng.random()
        if r < .3:
            return w.lower()
        if r < .5:
            return w.capitalize()
        return "".join(c.lower() if self.rng.random() < .5 else c.upper() for c in w)

    def pick(self, *alts):
        return self.rng.choice(alts) if self.synonyms else alts[0]

    COMMENTS = ["/* c */", "/**/", "/* SELECT * FROM A; */", "-- rest of line\n", "# hash ; comment\n", "/* two\nlines */",
                "/* it's */", "-- \n", "#\n", "/* \" */", "/* ** */", "--\tx'y\n"]

    def comment(self):
        """any comment"""
        r = self.rng
        body = "".join(r.choice("**/ -#;'\"`,(xA1\n\r\f\t") for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 40])))
        k = r.random()
        if k < .7:
            while "*/" in body:
                body = body.replace("*/", "")
            return "/*" + body + "*/"
        body = body.replace("\n", "")
        return ("#" if k < .85 else r.choice(["-- ", "--\t"])) + body + "\n"

    def gap(self, need):
        """white space between two tokens"""
        if not self.space and not self.comments:
            return " " if need else ""
        out = ""
        r = self.rng
        if self.comments and r.random() < .2:
            out += r.choice(["", " "]) + (r.choice(self.COMMENTS) if r.random() < .4 else self.comment())
            # a dash right before "--" or a name glued to a comment is harmless: comments are lexed on their own
            out += r.choice(["", " ", "\n"])
            return out
        if self.space:
            n = r.choice([0, 1, 1, 1, 2, 3])
            out = "".join(r.choice(WHITE) for _ in range(n))
            if need and not out:
                out = " "
            return out
        return " " if need else ""


class Tok(list):
    pass


def fmt_dbl(x):
    s = repr(float(x))
    if "e" in s:
        m, e = s.split("e")
        if "." not in m:
            m += ".0"
        return m + "E" + e
    return s if "." in s else s + ".0"


def lit(v, st):
    t = v[0]
    if t == "N":
        return st.kw("NULL")
    if t == "I":
        return respell_int(str(v[1]), st) if st.synonyms and st.rng.random() < .1 else str(v[1])
    if t == "D":
        if len(v) == 2 and st.synonyms and st.rng.random() < .4:
            return respell_dbl(fmt_dbl(v[1]), st)
        return v[2] if len(v) > 2 else fmt_dbl(v[1])
    if t == "B":
        return st.kw("TRUE" if v[1] else "FALSE")
    if t == "S":
        s = v[1]
        if '"' not in s and (st.synonyms and st.rng.random() < .4 or "'" in s):
            return '"' + s + '"'
        return "'" + s + "'"
    raise ValueError(v)


def respell_int(d, st):
    """the same integer with zeros in front"""
    sign, d = ("-", d[1:]) if d[0] == "-" else ("", d)
    return sign + "0" * st.rng.choice([1, 2, 20]) + d


def respell_dbl(d, st):
    """the same decimal number: zeros in front and at the end, a bare point, another exponent"""
    r = st.rng
    sign, d = ("-", d[1:]) if d[0] == "-" else ("", d)
    m, e = (d.split("E") + ["0"])[:2]
    i, f = m.split(".")
    e = int(e)
    k = r.randrange(6)
    if k == 0:
        f += "0" * r.choice([1, 3, 20])
    elif k == 1:
        i = "0" * r.choice([1, 3, 20]) + i
    elif k == 2 and f == "0":
        f = ""
    elif k == 3 and i == "0" and f:
        i = ""
    elif k == 4:                    # all digits before the point
        i, f, e = i + f, "", e - len(f)
    elif k == 5:
        i, f, e = "", i + f, e + len(i)
    if e == 0 and r.random() < .7:
        return sign + i + "." + f
    mid = "." + f if f or r.random() < .5 or not i else ""
    return sign + i + mid + st.kw("E") + r.choice(["", "+", "0"] if e >= 0 else [""]) + str(e)


def name(n, st):
    if st.synonyms and st.rng.random() < .15:
        return "`" + n + "`"
    return n


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 2}


def expr(e, st, out, parent=0, right=False):
    if e[0] == "v":
        out.append(lit(e[1], st))
    elif e[0] == "neg":
        out.append("-")
        inner = e[1]
        if inner[0] == "v" and inner[1][0] in "ID" and (inner[1][1] < 0 or st.parens and st.rng.random() < .5) or inner[0] != "v":
            out.append("(")
            expr(inner, st, out)
            out.append(")")
        elif int(inner[1][1]) % 2 if inner[0] == "v" and inner[1][0] in "ID" and abs(inner[1][1]) < 2**53 else False:
            expr(inner, st, out)
        else:
            out.append("( ")
            expr(inner, st, out)
            out.append(")")
    else:
        p = PREC[e[1]]
        par = p < parent or (p == parent and right) or (st.parens and st.rng.random() < .25)
        if par:
            out.append("(")
        expr(e[2], st, out, p, False)
        out.append(e[1])
        expr(e[3], st, out, p, True)
        if par:
            out.append(")")


def colref(o, st, out):
    if o[1]:
        out.append(name(o[1], st))
        out.append(".")
    out.append(name(o[2], st))


def operand(o, st, out):
    if o[0] == "c":
        colref(o, st, out)
    else:
        out.append(lit(o[1], st))


CPREC = {"or": 1, "xor": 2, "and": 3}


def cond(c, st, out, parent=0, right=False):
    k = c[0]
    if k in CPREC:
        p = CPREC[k]
        par = p < parent or (p == parent and right) or (st.parens and st.rng.random() < .25)
        if par:
            out.append("(")
        cond(c[1], st, out, p, False)
        out.append({"and": st.pick(st.kw("AND"), "&&"), "or": st.pick(st.kw("OR"), "||"), "xor": st.kw("XOR")}[k])
        cond(c[2], st, out, p, True)
        if par:
            out.append(")")
        return
    par = st.parens and st.rng.random() < .25
    if par:
        out.append("(")
    if k == "cmp":
        operand(c[2], st, out)
        out.append(st.pick("<>", "!=") if c[1] == "<>" else c[1])
        operand(c[3], st, out)
    elif k in ("in", "nin"):
        colref(c[1], st, out)
        if k == "nin":
            out.append(st.kw("NOT"))
        out += [st.kw("IN"), "("]
        for i, v in enumerate(c[2]):
            if i:
                out.append(",")
            out.append(lit(v, st))
        out.append(")")
    elif k in ("null", "notnull"):
        colref(c[1], st, out)
        out.append(st.kw("IS"))
        if k == "notnull":
            out.append(st.kw("NOT"))
        out.append(st.kw("NULL"))
    else:
        raise ValueError(k)
    if par:
        out.append(")")


def coltype(c, st):
    t = c["t"]
    if t == "VARCHAR":
        return [st.kw(st.pick("VARCHAR", "VARCHAR", "VARCHARACTER")), "(", str(c["p"]), ")"]
    if t == "INTEGER":
        return [st.kw(st.pick("INT", "INTEGER", "INT4"))]
    return [st.kw(t)]


def tokens(s, st):
    if s["k"] in ("bad", "free", "text"):
        return None
    o = []
    k = s["k"]
    if k == "create":
        o += [st.kw("CREATE"), st.kw("TABLE")]
        if s["ine"]:
            o += [st.kw("IF"), st.kw("NOT"), st.kw("EXISTS")]
        o += [name(s["t"], st), "("]
        parts = []
        for c in s["cols"]:
            d = [name(c["n"], st)] + coltype(c, st)
            at = []
            if c.get("nn"):
                at.append([st.kw("NOT"), st.kw("NULL")])
            elif c.get("null") or st.synonyms and st.rng.random() < .2:
                at.append([st.kw("NULL")])
            if c.get("uq"):
                at.append([st.kw("UNIQUE")])
            if c.get("ai"):
                at.append([st.kw("AUTO_INCREMENT")])
            if c.get("pk"):
                at.append([st.kw("PRIMARY"), st.kw("KEY")])
            if st.synonyms:
                st.rng.shuffle(at)
            for a in at:
                d += a
            parts.append(d)
        # the clauses of indexes stand wherever `ipos` says: so many columns before them (all of them by default)
        ipos = s.get("ipos") or [len(s["cols"])] * len(s["idx"])
        if st.synonyms and st.rng.random() < .5:
            ipos = [st.rng.randint(0, len(s["cols"])) for _ in s["idx"]]
        clauses = []
        for (kind, names), at in zip(s["idx"], ipos):
            d = [st.kw("PRIMARY"), st.kw("KEY")] if kind == "pk" else [st.kw("INDEX")]
            d.append("(")
            for i, n in enumerate(names):
                if i:
                    d.append(",")
                d.append(name(n, st))
            d.append(")")
            clauses.append((min(at, len(s["cols"])), d))
        for at, d in sorted(reversed(clauses), key=lambda c: -c[0]):
            parts.insert(at, d)
        for i, d in enumerate(parts):
            if i:
                o.append(",")
            o += d
        o.append(")")
    elif k == "insert":
        o.append(st.kw("INSERT"))
        if not (st.synonyms and st.rng.random() < .2):
            o.append(st.kw("INTO"))
        o.append(name(s["t"], st))
        if s["cols"]:
            o.append("(")
            for i, n in enumerate(s["cols"]):
                if i:
                    o.append(",")
                o.append(name(n, st))
            o.append(")")
        o.append(st.kw(st.pick("VALUES", "VALUE")))
        for r, tup in enumerate(s["vals"]):
            if r:
                o.append(",")
            o.append("(")
            for i, e in enumerate(tup):
                if i:
                    o.append(",")
                expr(e, st, o)
            o.append(")")
    elif k == "update":
        o += [st.kw("UPDATE"), name(s["t"], st), st.kw("SET")]
        for i, (n, v) in enumerate(s["set"]):
            if i:
                o.append(",")
            o += [name(n, st), "=", lit(v, st)]
    elif k == "delete":
        o += [st.kw("DELETE"), st.kw("FROM"), name(s["t"], st)]
    elif k == "select":
        o.append(st.kw("SELECT"))
        for i, it in enumerate(s["items"]):
            if i:
                o.append(",")
            if it[0] == "star":
                o.append("*")
            elif it[0] == "c":
                colref(it, st, o)
            elif it[0] == "count":
                o += [st.kw("COUNT") + "(", "*", ")"]
            else:
                o.append(st.kw("COUNT") + "(")
                colref(it, st, o)
                o.append(")")
        o.append(st.kw("FROM"))
        for i, (t, a) in enumerate(s["from"]):
            if i:
                if s["style"] == "join":
                    if st.synonyms and st.rng.random() < .5:
                        o.append(st.kw("INNER"))
                    o.append(st.kw("JOIN"))
                else:
                    o.append(",")
            o.append(name(t, st))
            if a:
                if not (st.synonyms and st.rng.random() < .4):
                    o.append(st.kw("AS"))
                o.append(name(a, st))
            if i and s["style"] == "join":
                o.append(st.kw("ON"))
                cond(s["joins"][i - 1], st, o)
    if s.get("where"):
        o.append(st.kw("WHERE"))
        cond(s["where"], st, o)
    if k == "select" and s["group"]:
        o += [st.kw("GROUP"), st.kw("BY")]
        for i, g in enumerate(s["group"]):
            if i:
                o.append(",")
            colref(g, st, o)
            if st.synonyms and st.rng.random() < .1:
                o.append(st.kw(st.rng.choice(["ASC", "DESC"])))
    o.append(";")
    return o


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


def needs_gap(a, b):
    x, y = a[-1], b[0]
    if x in WORD and (y in WORD or y in "'\"`"):   # X'..' and B'..' are other tokens
        return True
    if x in "'\"`" and (y in WORD or y in "'\"`"):
        return True
    if x == "-" and (y == "-" or b == "9223372036854775808"):
        return True
    if x in "+*/%<>=!&|" and y in "+*/%<>=!&|":
        return True
    if y == "#" or x == "#":
        return True
    return False


def sql(s, st=None):
    st = st or Style()
    if s["k"] in ("bad", "free", "text"):
        return s["text"]
    toks = tokens(s, st)
    out = st.gap(False) if (st.space or st.comments) else ""
    plain = not (st.space or st.comments)
    for i, t in enumerate(toks):
        if i:
            a = toks[i - 1]
            if plain and st.tight:
                sep = " " if needs_gap(a, t) else ""
            elif plain:
                sep = "" if (t in (",", ";", ")", ".") or a in ("(", ".") or a.endswith("(")) and not needs_gap(a, t) else " "
            elif a.endswith("(") and len(a) > 1:
                sep = st.gap(False)
            elif "." in (a, t) and not (st.space and st.rng.random() < .3):
                sep = ""
            else:
                sep = st.gap(needs_gap(a, t))
                # "--" directly after "-" or "/*" after "/" would lex differently
                if sep and (a[-1] in "-/" or a[-1] in WORD and st.rng.random() < .3) and not sep[0].isspace():
                    sep = " " + sep
                if sep and t[0] in "-/*" and sep[-1] not in WHITE:
                    sep += " "
            out += sep
        out += t
    if not plain and st.rng.random() < .4:
        end = st.gap(False) if st.rng.random() < .5 or not st.comments else " " + (st.rng.choice(st.COMMENTS) if st.rng.random() < .5 else st.comment())
        # a comment may run to the very end of the text
        out += end[:-1] if end.endswith("\n") and st.rng.random() < .6 else end
    return out


# ---- token kinds of spec/MidoriSyntax.tla ----------------------------------------------------------------------------

KEYWORDS = set("""AND AS ASC AUTO_INCREMENT BETWEEN BY CASE CHAR COLUMN COMMENT CREATE CROSS CURRENT_DATE DATE DATETIME DELETE DESC DISTINCT DOUBLE
ELSE END EXISTS EXPLAIN FROM GROUP HAVING IF IN INDEX INNER INSERT INTEGER INTO IS JOIN KEY LEFT LIKE LIMIT MOD NOT NULL ON OR ORDER OUTER PRIMARY
RIGHT SELECT SET TABLE TINYINT THEN UNIQUE UPDATE VALUES VARCHAR WHEN WHERE XOR""".split())
SAME = {"INT": "INTEGER", "INT4": "INTEGER", "CHARACTER": "CHAR", "VALUE": "VALUES", "VARCHARACTER": "VARCHAR", "TRUE": "BOOL", "FALSE": "BOOL", "UNKNOWN": "BOOL",
        "&&": "AND", "||": "OR", "!=": "CMP", "<>": "CMP", "<": "CMP", ">": "CMP", "<=": "CMP", ">=": "CMP"}


def kind(t):
    u = t.upper()
    if u in SAME:
        return SAME[u]
    if u in KEYWORDS:
        return u
    if t[0] in "'\"":
        return "STR"
    if t[0] == "`" or t[0].isalpha():
        return "NAME"
    if re.fullmatch(r"-?[0-9]+", t):
        return "INT"
    if re.fullmatch(r"-?[0-9]*\.?[0-9]*([eE][-+]?[0-9]+)?", t) and any(c.isdigit() for c in t):
        return "FLT"
    return t


def text(toks):
    """the statement (possibly none of the language) that these tokens make"""
    kinds, t = [], ""
    for x in toks:
        if x.upper() == "COUNT(":
            kinds += ["FCOUNT", "("]
            continue
        k = kind(x)
        if k in ("INT", "FLT") and x[0] == "-" and kinds and kinds[-1] in ("INT", "FLT", "BOOL", "STR", "NULL", "NAME", ")"):
            kinds.append("-")                       # the sign of a number that follows an operand is an operator
            k = "BAD" if k == "INT" and int(x[1:]) >= 2**63 else k
        kinds.append(k)
        if k == "NAME" and not t:
            t = x.strip("`")
    return dict(k="text", text=" ".join(toks), toks=kinds, t=t if kinds and kinds[0] in ("CREATE", "INSERT", "UPDATE", "DELETE") else "")


def escape(text):
    """for the driver script: one line per statement"""
    return text.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r").replace("\v", "\\x0b").replace("\f", "\\x0c")
