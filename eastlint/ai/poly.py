"""Polynomials over non-negative integer atoms and the linear-inequality domain on them.

Monomials are the dimensions of the domain; products of facts are added where the monomials they
need already occur.  Entailment is decided by a small exact simplex: no external solver."""
from fractions import Fraction

_atom_id = {}
_atom_name = []
_atom_lo = []          # constant lower bound, always >= 0
_atom_deep = []        # ids of the atoms inside the name (parametric atoms), transitively


def _inner(n, out):
    if isinstance(n, P):
        for m, _ in n.t:
            for a in m:
                out.add(a)
                if _atom_deep[a]:
                    out |= _atom_deep[a]
    elif isinstance(n, tuple):
        for x in n:
            _inner(x, out)


def atom_id(name, lo=0):
    i = _atom_id.get(name)
    if i is None:
        deep = None
        if isinstance(name, tuple):
            deep = set()
            _inner(name, deep)
            deep = frozenset(deep) or None
        i = len(_atom_name)
        _atom_id[name] = i
        _atom_name.append(name)
        _atom_lo.append(lo)
        _atom_deep.append(deep)
    return i


def subst_any(x, m):
    """substitution through arbitrarily nested tuples, entering the names of parametric atoms"""
    if isinstance(x, P):
        return x.subst(m)
    if isinstance(x, tuple):
        for i, y in enumerate(x):
            z = subst_any(y, m)
            if z is not y:
                return x[:i] + tuple([z] + [subst_any(w, m) for w in x[i + 1:]])
        return x
    return x


def atoms_any(x, out):
    _inner(x, out)
    return out


class P:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        self.t = t            # tuple of (mono, coef), sorted, coef != 0
        self.c = c
        self._h = None

    @staticmethod
    def atom(name, lo=0):
        return P((((atom_id(name, lo),), 1),), 0)

    def __eq__(self, o):
        if isinstance(o, int):
            return not self.t and self.c == o
        return isinstance(o, P) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def const(self):
        return self.c if not self.t else None

    def __add__(self, o):
        if isinstance(o, int):
            return P(self.t, self.c + o)
        if not o.t:
            return P(self.t, self.c + o.c)
        if not self.t:
            return P(o.t, self.c + o.c)
        d = dict(self.t)
        for m, k in o.t:
            v = d.get(m, 0) + k
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(tuple(sorted(d.items())), self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return P(tuple((m, -k) for m, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return P(self.t, self.c - o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            return P(tuple((m, k * o) for m, k in self.t), self.c * o)
        if not o.t:
            return self * o.c
        if not self.t:
            return o * self.c
        d = {}
        a = list(self.t) + ([((), self.c)] if self.c else [])
        b = list(o.t) + ([((), o.c)] if o.c else [])
        for m1, k1 in a:
            for m2, k2 in b:
                m = tuple(sorted(m1 + m2))
                v = d.get(m, 0) + k1 * k2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        c = d.pop((), 0)
        return P(tuple(sorted(d.items())), c)

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s

    def names(self):
        return [_atom_name[a] for a in self.atoms()]

    def subst(self, m):
        """m: atom id -> P; enters the names of parametric atoms"""
        if not m:
            return self
        hit = False
        for mm, _ in self.t:
            for a in mm:
                if a in m:
                    hit = True
                else:
                    d = _atom_deep[a]
                    if d:
                        for x in d:
                            if x in m:
                                hit = True
        if not hit:
            return self
        r = con(self.c)
        for mono, k in self.t:
            q = con(k)
            for a in mono:
                if a in m:
                    q = q * m[a]
                elif _atom_deep[a] and any(x in m for x in _atom_deep[a]):
                    q = q * P.atom(subst_any(_atom_name[a], m), _atom_lo[a])
                else:
                    q = q * P((((a,), 1),), 0)
            r = r + q
        return r

    def divexact(self, o):
        """self / o when o is a single monomial (or constant) dividing every term, else None"""
        if not o.t:
            if o.c == 0:
                return None
            if self.c % o.c or any(k % o.c for _, k in self.t):
                return None
            return P(tuple((m, k // o.c) for m, k in self.t), self.c // o.c)
        if len(o.t) != 1 or o.c != 0:
            if self == o:
                return ONE
            if self.c == 0 and o.c == 0 and len(self.t) == len(o.t):
                for om, ok in o.t:
                    m, k = self.t[0]
                    if k % ok == 0:
                        l = list(m)
                        try:
                            for a in om:
                                l.remove(a)
                        except ValueError:
                            continue
                        q = P(((tuple(l), k // ok),), 0) if l else P((), k // ok)
                        if q * o == self:
                            return q
            if self.t and len(self.t) >= len(o.t):
                for m, k in self.t:
                    for om, ok in o.t:
                        if k % ok == 0:
                            l = list(m)
                            try:
                                for a in om:
                                    l.remove(a)
                            except ValueError:
                                continue
                            q = P(((tuple(l), k // ok),), 0) if l else P((), k // ok)
                            if q * o == self:
                                return q
            return None
        om, ok = o.t[0]
        if self.c != 0:
            return None
        out = {}
        for m, k in self.t:
            if k % ok:
                return None
            l = list(m)
            for a in om:
                if a in l:
                    l.remove(a)
                else:
                    return None
            out[tuple(l)] = out.get(tuple(l), 0) + k // ok
        c = out.pop((), 0)
        return P(tuple(sorted(out.items())), c)

    def __repr__(self):
        out = []
        for m, k in self.t:
            n = "*".join(name(a) for a in m)
            out.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + n)
        if self.c or not out:
            out.append(str(self.c))
        return "+".join(out).replace("+-", "-")


def name(a):
    n = _atom_name[a]
    return n if isinstance(n, str) else "_".join(_flat(n))


def _flat(n):
    if isinstance(n, tuple):
        r = []
        for x in n:
            r += _flat(x)
        return r
    return [repr(n) if isinstance(n, P) else str(n)]


_con = {}


def con(c):
    p = _con.get(c)
    if p is None:
        p = P((), c)
        if abs(c) < 4096:
            _con[c] = p
    return p


ZERO = con(0)
ONE = con(1)
USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1


def feasible(rows, sol=None):
    """rows: list of (dict var->coef, const): sum + const >= 0 with all vars >= 0.  Exact simplex (Bland)."""
    # dictionary: basic slack i = const_i + sum coef * nonbasic
    tab = []
    for d, c in rows:
        if not d:
            if c < 0:
                return False
            continue
        tab.append([("s", len(tab)), {("x", k): Fraction(v) for k, v in d.items()}, Fraction(c)])
    it = 0
    while True:
        it += 1
        if it > 400:
            return True
        # leaving: smallest-named basic variable with negative constant
        cand = [r for r in tab if r[2] < 0]
        if not cand:
            if sol is not None:
                for r in tab:
                    if r[0][0] == "x":
                        sol[r[0][1]] = r[2]
            return True
        r = min(cand, key=lambda r: (r[0][0] == "x", r[0][1]) if it > 60 else (r[2],))
        pos = [v for v, k in r[1].items() if k > 0]
        if not pos:
            return False
        e = min(pos, key=lambda v: (v[0], v[1]))
        k = r[1][e]
        leave = r[0]
        # e = (leave - const - rest)/k
        nd = {v: -c / k for v, c in r[1].items() if v != e}
        nd[leave] = 1 / k
        nc = -r[2] / k
        r[0], r[1], r[2] = e, nd, nc
        for q in tab:
            if q is r:
                continue
            kk = q[1].pop(e, None)
            if kk:
                for v, c in nd.items():
                    x = q[1].get(v, 0) + kk * c
                    if x:
                        q[1][v] = x
                    else:
                        q[1].pop(v, None)
                q[2] += kk * nc


_cache = {}
stats = {"lp": 0, "q": 0}


def _products(goal, facts):
    """facts multiplied by atoms where nonlinear monomials need them"""
    nl = set()
    for p in [goal] + list(facts):
        for m, _ in p.t:
            if len(m) > 1:
                nl.add(m)
    out = []
    if not nl:
        return out
    for m in nl:
        for i, a in enumerate(m):
            if i and m[i - 1] == a:
                continue
            rest = m[:i] + m[i + 1:]
            if _atom_lo[a] > 0:
                out.append(P(((m, 1),), 0) - P(((rest, 1),), 0) * _atom_lo[a])
    mult = {a for m in nl for a in m}
    for f in facts:
        if any(len(m) > 1 for m, _ in f.t):
            continue
        fa = f.atoms()
        for b in mult:
            g = f * P((((b,), 1),), 0)
            if all(len(m) == 1 or m in nl for m, _ in g.t):
                if any(len(m) > 1 for m, _ in g.t):
                    out.append(g)
    return out


def infeasible(facts):
    """facts: iterable of P (>= 0)"""
    rows = []
    for p in facts:
        # shift atoms by their lower bounds
        rows.append(_row(p))
    stats["lp"] += 1
    return not feasible(rows)


def _row(p):
    d = {}
    c = p.c
    for m, k in p.t:
        d[m] = k
        if len(m) == 1:
            lo = _atom_lo[m[0]]
            if lo:
                c += k * lo
    return d, c


def relevant(goal, facts):
    ms = {m for m, _ in goal.t}
    for m in list(ms):
        for a in m:
            ms.add((a,))
    pool = list(facts)
    out = []
    changed = True
    while changed and pool:
        changed = False
        rest = []
        for f in pool:
            fm = {m for m, _ in f.t}
            if fm & ms:
                out.append(f)
                for m in fm:
                    if m not in ms:
                        ms.add(m)
                        for a in m:
                            ms.add((a,))
                changed = True
            else:
                rest.append(f)
        pool = rest
    return out


def lower(p):
    """lower bound from atom bounds alone or None"""
    c = p.c
    for m, k in p.t:
        if k < 0:
            return None
        lo = 1
        for a in m:
            lo *= _atom_lo[a]
        c += k * lo
    return c


def entails(facts, p):
    """do the facts (tuple of P >= 0) entail p >= 0 over the integers?"""
    stats["q"] += 1
    if not p.t:
        return p.c >= 0
    l = lower(p)
    if l is not None and l >= 0:
        return True
    key = (facts, p)
    r = _cache.get(key)
    if r is not None:
        return r
    r = False
    for f in facts:
        d = p - f
        l = lower(d)
        if l is not None and l >= 0:
            r = True
            break
    if not r:
        rel = relevant(p, facts)
        if rel:
            ng = -p - 1
            r = infeasible(rel + _products(p, rel) + [ng])
    if len(_cache) > 400000:
        _cache.clear()
    _cache[key] = r
    return r


def evalp(p, env):
    v = p.c
    for m, k in p.t:
        x = k
        for a in m:
            x *= env.get(a, _atom_lo[a])
        v += x
    return v


def witness(facts, tries=20000):
    """a concrete non-negative integer assignment satisfying all facts, or None"""
    facts = [f for f in facts if f.t]
    ats = sorted({a for f in facts for a in f.atoms()})
    # 1. the vertex of the linear relaxation, rounded
    sol = {}
    if not feasible([_row(p) for p in facts], sol):
        return None
    env = {}
    for a in ats:
        v = sol.get((a,), Fraction(0))
        env[a] = _atom_lo[a] + int(v)
    def ok(e):
        return all(evalp(f, e) >= 0 for f in facts)
    if ok(env):
        return env
    env2 = {a: _atom_lo[a] + -int(-sol.get((a,), Fraction(0)) // 1) for a in ats}
    if ok(env2):
        return env2
    # 2. small values
    order = ats
    cnt = [0]
    def dfs(i, e):
        cnt[0] += 1
        if cnt[0] > tries:
            return None
        if i == len(order):
            return dict(e) if ok(e) else None
        a = order[i]
        for v in (0, 1, 2, 3, 5):
            if v < _atom_lo[a]:
                continue
            e[a] = v
            done = set(order[:i + 1])
            good = True
            for f in facts:
                if a in f.atoms() and f.atoms() <= done and evalp(f, e) < 0:
                    good = False
                    break
            if good:
                r = dfs(i + 1, e)
                if r:
                    return r
        e.pop(a, None)
        return None
    return dfs(0, {})
