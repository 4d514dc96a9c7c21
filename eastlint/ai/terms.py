"""Terms of the abstract interpreter: what they are made of, and the number one stands for once its atoms are known."""
import math, struct
from .poly import P, con, _atom_name
from .core import Undecided


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def deep(p, out, seen=None):
    """every atom a term is made of"""
    if isinstance(p, P):
        for a in p.atoms():
            n = _atom_name[a]
            if n not in out:
                out.add(n)
                deep(n, out)
    elif isinstance(p, tuple):
        for x in p:
            deep(x, out)
    return out


class Unknown(Exception):
    pass


def value(p, env):
    return Eval({}, env).num(p)


def taken(st, env):
    return Eval({}, env).taken(st)


class Eval:
    def __init__(self, tables, env):
        self.tables, self.env = tables, env

    def num(self, p):
        tot = p.c
        for m, k in p.t:
            for a in m:
                k = k * self.atom(_atom_name[a])
            tot += k
        return tot

    def atom(self, n):
        if n in self.env:
            return self.env[n]
        if isinstance(n, tuple):
            k = n[0]
            if k == "f2i":
                x = self.flo(n[2])
                if x != x:
                    return 0
                return max(0, min((1 << n[1]) - 1, int(x) if abs(x) != float("inf") else (1 << 200 if x > 0 else 0)))
            if k == "fbits":
                x = self.flo(n[1])
                return struct.unpack("Q", struct.pack("d", x))[0] if self.wide(n[1]) else struct.unpack("I", struct.pack("f", x))[0]
            if k == "sext":
                x = (self.num(n[3]) + (1 << n[1] - 1)) % (1 << n[1]) - (1 << n[1] - 1)
                return x % (1 << n[2])
            if k == "wmul" and len(n) == 2:
                return self.num(n[1]) % (1 << 64)
            if k == "tbl":
                i = self.num(n[2])
                t = self.tables[n[1]]
                if not 0 <= i < len(t):
                    raise Unknown("index")
                return t[i]
            if k == "lb":
                t = self.tables[n[1]][n[2]:n[2] + n[3]]
                x = self.num(n[5])
                # a binary search is only meaningful in a sorted table
                i = 0
                while i < len(t) and (t[i] < x or n[4] == "le" and t[i] == x):
                    i += 1
                return i
            if k == "wrap" or k == "trunc":
                return self.num(n[2]) % (1 << n[1])
            if k in ("wadd", "wsub", "wmul") and len(n) == 3:
                x, y = self.num(n[1]), self.num(n[2])
                return (x + y if k == "wadd" else x - y if k == "wsub" else x * y) % (1 << 32)
            if k in ("BitXor", "BitAnd", "BitOr") and len(n) == 3:
                x, y = self.num(n[1]), self.num(n[2])
                return x ^ y if k == "BitXor" else x & y if k == "BitAnd" else x | y
            if k == "rem":
                return self.num(n[1]) % self.num(n[2])
            if k in ("quot", "div") and len(n) == 3:
                return self.num(n[1]) // self.num(n[2])
        raise Unknown(n)

    def flo(self, v):
        if not isinstance(v, tuple) or v[0] != "o":
            raise Unknown(v)
        k = v[1]
        if k in self.env:
            return self.env[k]
        w = lambda x, s=None: x if s == "f64" else f32(x)
        if k[0] == "i2f":
            return w(float(self.num(k[1])) if isinstance(k[1], P) else self.bad(k), k[2])
        if k[0] == "f2f":
            return w(self.flo(k[1]), k[2])
        if k[0] == "f":
            return struct.unpack("f", struct.pack("I", k[1]))[0] if k[2] == "f32" else struct.unpack("d", struct.pack("Q", k[1]))[0]
        if k[0] in ("Add", "Sub", "Mul", "Div"):
            x, y = self.flo(k[1]), self.flo(k[2])
            if k[0] == "Div" and y == 0:
                raise Unknown("division by zero")
            r = x + y if k[0] == "Add" else x - y if k[0] == "Sub" else x * y if k[0] == "Mul" else x / y
            return r if self.wide(k[1]) else f32(r)
        if k[0] in ("fmax", "fmin"):
            return (max if k[0] == "fmax" else min)(self.flo(k[1]), self.flo(k[2]))
        if k[0] == "fract":
            x = self.flo(k[1])
            return x - float(math.trunc(x))
        if k[0] in ("ceil", "floor", "trunc", "round", "abs"):
            x = self.flo(k[1])
            return float({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1), "abs": abs}[k[0]](x))
        raise Unknown(k)

    def wide(self, v):
        k = v[1]
        if k in self.env:
            return self.env.get((k, "wide"), False)
        return k[0] in ("i2f", "f2f", "f") and k[2] == "f64" or k[0] in ("Add", "Sub", "Mul", "Div", "fmax", "fmin", "ceil", "floor", "trunc", "round", "abs", "fract") and self.wide(k[1])

    def bool(self, k):
        if k[0] == "fcmp":
            x, y = self.flo(k[2]), self.flo(k[3])
            return {"Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[k[1]]
        if k[0] == "fneg":
            return math.copysign(1.0, self.flo(k[1])) < 0
        raise Unknown(k)

    def bad(self, k):
        raise Unknown(k)

    def taken(self, st):
        """is this the path the counts take?"""
        for f in st.facts:
            if self.num(f) < 0:
                return False
        for k, b in st.opq.items():
            if self.bool(k) != b:
                return False
        return True


def float_models():
    """methods of floats as terms"""
    M = {}

    def un(k):
        def f(E, a, at, fn, dl, dt):
            if isinstance(a[0], tuple) and a[0][0] == "o" and a[0][1][0] == "fz":
                # one of the zeros
                return ("o", ("fz", 1, 0)) if k in ("abs", "fract") else a[0]
            return ("o", (k, a[0]))
        return f

    def bi(k):
        return lambda E, a, at, fn, dl, dt: ("o", (k, a[0], a[1]))
    for t in ("f32", "f64"):
        for pre in ("std::%s::<impl %s>::" % (t, t), "std::num::<impl %s>::" % t):
            for k in ("ceil", "floor", "trunc", "round", "abs", "fract"):
                M[pre + k] = un(k)
            M[pre + "max"] = bi("fmax")
            M[pre + "min"] = bi("fmin")
        M["std::%s::math::ceil" % t] = un("ceil")
        M["std::intrinsics::ceil%s" % t] = un("ceil")
        M["std::intrinsics::maximum_number_nsz_%s" % t] = bi("fmax")
        M["std::intrinsics::minimum_number_nsz_%s" % t] = bi("fmin")
    return M
