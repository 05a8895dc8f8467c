"""Values: Python side of the encodings described in spec/MidoriValues.tla.

A value is a tuple: ("N",) ("I", int) ("D", float) ("B", 0|1) ("S", str) ("T", yyyymmdd, hhmmss) ("?", text).
Strings hold one character per byte (latin-1), exactly as the driver prints them.
"""
import math
import struct

M31 = 2**31 - 1


def enc_int(n):
    if -M31 <= n <= M31:
        return ["I", n]
    m, limbs = abs(n), []
    while m:
        limbs.append(m % 10000)
        m //= 10000
    return ["J", 1 if n < 0 else 0, limbs]


def enc_dbl(x):
    if math.isnan(x):
        return ["Q"]
    if not math.isinf(x):
        k = x * 1024.0
        if abs(k) <= M31 and k == int(k):
            return ["D", int(k)]
        f = math.floor(k) if abs(k) < 2**40 else (2**40 if k > 0 else -2**40)
    else:
        f = 2**40 if x > 0 else -2**40
    f = max(-M31, min(M31, f))
    bits = struct.unpack(">Q", struct.pack(">d", x))[0]
    s = bits >> 63
    bits &= (1 << 63) - 1
    return ["E", f, s, [(bits >> sh) & 0xffff for sh in (48, 32, 16, 0)]]


def enc(v):
    """Python value -> what the specification reads"""
    t = v[0]
    if t == "I":
        return enc_int(v[1])
    if t == "D":
        return enc_dbl(v[1])
    return list(v)


def parse_obs(j):
    """driver output -> Python value"""
    t = j[0]
    if t == "N":
        return ("N",)
    if t == "I":
        return ("I", int(j[1]))
    if t == "B":
        n = int(j[1])
        return ("B", n) if n in (0, 1) else ("?", "bool %d" % n)
    if t == "D":
        return ("D", float(j[1]))
    if t == "S":
        return ("S", j[1])
    if t == "T":
        return ("T", j[1], j[2]) if abs(j[1]) <= M31 else ("?", "date")
    return ("?", str(j[1]))


def enc_obs(j):
    return enc(parse_obs(j))
