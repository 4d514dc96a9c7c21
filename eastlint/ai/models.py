"""Models of the functions whose bodies are outside the analysed program: std primitives and user code."""
from .poly import P, con, ZERO, ONE, USIZE_MAX, ISIZE_MAX, _atom_name
from .core import U, UNIT, NULL, Dead, PanicEx, Undecided

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def some(v):
    return ("e", 1, (v,))


NONE = ("e", 0, ())


def pointee(E, tid):
    t = E.T[E.T.strip(tid)]
    return t["t"] if "t" in t else t["args"][0]


def targ(fn, i=0):
    ts = [t for t in fn["targs"] if isinstance(t, int)]
    return ts[i]


PM = ("std::ptr::mut_ptr::<impl *mut T>::", "std::ptr::const_ptr::<impl *const T>::")


def pm(*names):
    return [x + n for x in PM for n in names]


# ---------------------------------------------------------------- pointers
@model(*pm("add", "wrapping_add"))
def m_add(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return E.ptr_add(p, E.asint(a[1]), pointee(E, at[0]))


@model(*pm("sub", "wrapping_sub"))
def m_sub(E, a, at, fn, dl, dt):
    return E.ptr_add(E.asptr(a[0]), -E.asint(a[1]), pointee(E, at[0]))


@model(*pm("offset", "wrapping_offset"))
def m_offset(E, a, at, fn, dl, dt):
    return E.ptr_add(E.asptr(a[0]), E.asint(a[1]), pointee(E, at[0]))


@model(*pm("offset_from", "offset_from_unsigned", "sub_ptr"))
def m_offset_from(E, a, at, fn, dl, dt):
    p, q = E.asptr(a[0]), E.asptr(a[1])
    if p[1] is None and q[1] is None:
        d = p[2][0] - q[2][0]
        if d == 0:
            return ZERO
        S = E.T.size(pointee(E, at[0]))
        r = d.divexact(S)
        if r is not None:
            return r
        raise Undecided("offset_from between addresses")
    d = E.ptr_diff(p, q)
    if d is None:
        if p[1] != q[1]:
            raise Undecided("offset_from between different objects")
        t = pointee(E, at[0])
        p2 = ("p", p[1], E.adjust(p[1], p[2], t), None)
        q2 = ("p", q[1], E.adjust(q[1], q[2], t), None)
        d = E.ptr_diff(p2, q2)
        if d is None:
            raise Undecided("offset_from")
    return d


@model(*pm("is_null"))
def m_is_null(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    if p[1] is None:
        return E.mkb("eq", p[2][0])
    return ZERO


@model(*pm("as_ref", "as_mut"))
def m_as_ref(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    if p[1] is None and E.truth(E.mkb("eq", p[2][0])):
        return NONE
    return some(p)


@model(*pm("cast", "cast_mut", "cast_const"))
def m_cast(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    d = E.T[E.T.strip(dt)]
    if p[3] is not None and E.T[d["t"]].get("sized", True):
        return ("p", p[1], p[2], None)
    return p


@model("std::ptr::null_mut", "std::ptr::null")
def m_null(E, a, at, fn, dl, dt):
    return NULL


@model("std::ptr::eq", "std::ptr::addr_eq", "std::ptr::const_ptr::<impl std::cmp::PartialEq for *const T>::eq", "std::ptr::mut_ptr::<impl std::cmp::PartialEq for *mut T>::eq")
def m_ptr_eq(E, a, at, fn, dl, dt):
    p, q = E.asptr(a[0]), E.asptr(a[1])
    if "PartialEq" in E.callee_path:
        p, q = E.asptr(E.load(p[1], p[2])), E.asptr(E.load(q[1], q[2]))
    return E.ptr_eq(p, q)


def rd(E, p, t):
    p = E.asptr(p)
    if p[1] is None:
        return E.load(None, p[2])
    return E.load(p[1], E.adjust(p[1], p[2], t))


@model(*pm("read", "read_unaligned", "read_volatile"))
def m_read(E, a, at, fn, dl, dt):
    return rd(E, a[0], pointee(E, at[0]))


M["std::ptr::read"] = m_read


@model(*pm("write", "write_unaligned", "write_volatile"))
def m_write(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    t = pointee(E, at[0])
    E.store(p[1], E.adjust(p[1], p[2], t) if p[1] is not None else p[2], a[1])
    return UNIT


M["std::ptr::write"] = m_write


@model(*pm("replace"))
def m_preplace(E, a, at, fn, dl, dt):
    t = pointee(E, at[0])
    v = rd(E, a[0], t)
    m_write(E, a, at, fn, dl, dt)
    return v


M["std::ptr::replace"] = m_preplace


@model(*pm("swap"))
def m_swap(E, a, at, fn, dl, dt):
    t = pointee(E, at[0])
    x, y = rd(E, a[0], t), rd(E, a[1], t)
    m_write(E, (a[0], y), at, fn, dl, dt)
    m_write(E, (a[1], x), at, fn, dl, dt)
    return UNIT


M["std::ptr::swap"] = m_swap
M["std::intrinsics::typed_swap_nonoverlapping"] = m_swap


@model(*pm("copy_from", "copy_from_nonoverlapping"))
def m_copy_from(E, a, at, fn, dl, dt):
    E.memcpy(a[1], a[0], E.asint(a[2]), pointee(E, at[0]))
    return UNIT


@model(*(pm("copy_to", "copy_to_nonoverlapping") + ["std::ptr::copy", "std::ptr::copy_nonoverlapping", "std::intrinsics::copy", "std::intrinsics::copy_nonoverlapping"]))
def m_copy_to(E, a, at, fn, dl, dt):
    E.memcpy(a[0], a[1], E.asint(a[2]), pointee(E, at[0]))
    return UNIT


@model(*pm("write_bytes"))
def m_write_bytes(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    t = pointee(E, at[0])
    n = E.asint(a[2])
    if E.is_eq(n):
        return UNIT
    tt = E.T[E.T.strip(t)]
    z = a[1]
    c = E.asint(z).const() if isinstance(z, P) else None
    if c == 0:
        v = NULL if tt["k"] in ("ptr",) else ZERO if tt["k"] in ("int", "bool", "char") else None
        if tt["k"] == "adt" or tt["k"] == "param" or v is None:
            raise Undecided("zeroing of %s" % tt["s"])
    else:
        v = z if tt.get("size") == 1 else None
        if v is None:
            raise Undecided("write_bytes")
    b, pre, i = E.ptr_index(p, t)
    if i is None:
        E.store(b, pre, v)
        return UNIT
    arr = E.load(b, pre)
    if arr[0] == "u":
        arr = ("a", ((ZERO, E.array_len(b, pre), U),))
    E.check(E.alen(arr) - i - n, "C12", "storage beyond the end of the block is filled")
    E.store(b, pre, ("a", E.put(arr[1], i, i + n, ((i, i + n, E.to_content(v) if n == 1 else ("v", v)),))))
    return UNIT


M["std::ptr::write_bytes"] = m_write_bytes
M["std::intrinsics::write_bytes"] = m_write_bytes


@model("std::ptr::drop_in_place", *pm("drop_in_place"))
def m_drop_in_place(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    t = pointee(E, at[0])
    if not E.T[t].get("needs_drop", True):
        return UNIT
    if dl is not None:
        E.store(dl[0], dl[1], UNIT)
    if p[1] is None:
        if E.T[E.T.strip(t)]["k"] == "slice":
            if E.is_eq(p[3]):
                return None
            E.check(-p[3], "C14", "elements behind a null pointer are dropped")
            return None
        E.load(None, p[2])
    path = E.adjust(p[1], p[2], t)
    E.glue([("drop", p[1], path, p[3], t)])
    return None


@model("std::mem::forget")
def m_forget(E, a, at, fn, dl, dt):
    return UNIT


@model("std::mem::drop", "std::ops::Drop::drop_shim")
def m_drop(E, a, at, fn, dl, dt):
    t = at[0] if at[0] is not None else targ(fn)
    if not E.T[t].get("needs_drop", True):
        return UNIT
    st = E.st
    st.ctr += 1
    o = ("R", "clo", st.ctr)
    st.mem[o] = a[0]
    st.oty[o] = t
    if dl is not None:
        E.store(dl[0], dl[1], UNIT)
    E.glue([("drop", o, (), None, t)])
    return None


@model("std::mem::size_of")
def m_size_of(E, a, at, fn, dl, dt):
    return E.T.size(targ(fn))


@model("std::mem::align_of")
def m_align_of(E, a, at, fn, dl, dt):
    return E.T.align(targ(fn))


@model("std::mem::needs_drop")
def m_needs_drop(E, a, at, fn, dl, dt):
    t = E.T[targ(fn)]
    if t["k"] in ("param", "alias"):
        return ONE  # whatever the element does when dropped may not be skipped
    return ONE if t.get("needs_drop", True) else ZERO


@model("std::mem::MaybeUninit::<T>::as_mut_ptr", "std::mem::MaybeUninit::<T>::as_ptr", "std::mem::MaybeUninit::<T>::assume_init_mut", "std::mem::MaybeUninit::<T>::assume_init_ref")
def m_mu_ptr(E, a, at, fn, dl, dt):
    return E.asptr(a[0])


@model("std::mem::MaybeUninit::<T>::assume_init", "std::mem::MaybeUninit::<T>::new", "std::mem::ManuallyDrop::<T>::new", "std::mem::ManuallyDrop::<T>::into_inner")
def m_mu_id(E, a, at, fn, dl, dt):
    return a[0]


@model("std::mem::MaybeUninit::<T>::assume_init_read")
def m_mu_read(E, a, at, fn, dl, dt):
    return rd(E, a[0], pointee(E, at[0]))


@model("std::mem::MaybeUninit::<T>::uninit")
def m_mu_uninit(E, a, at, fn, dl, dt):
    t = E.T[E.T.strip(targ(fn))]
    if t["k"] == "array":
        return ("a", ((ZERO, E.nconst(t["n"]), U),))
    return U


@model("std::mem::MaybeUninit::<T>::write")
def m_mu_write(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    E.store(p[1], E.adjust(p[1], p[2], pointee(E, at[0])) if p[1] is not None else p[2], a[1])
    return p


# ---------------------------------------------------------------- numbers
@model("std::intrinsics::cold_path", "std::intrinsics::likely", "std::hint::assert_unchecked")
def m_unit(E, a, at, fn, dl, dt):
    return UNIT


@model("std::intrinsics::integer_max", "std::cmp::max", "std::cmp::Ord::max")
def m_max(E, a, at, fn, dl, dt):
    if not isinstance(a[0], P) or not isinstance(a[1], P):
        return NotImplemented
    if E.ge(a[0] - a[1]):
        return a[0]
    return a[1]


@model("std::cmp::min", "std::cmp::Ord::min", "std::intrinsics::integer_min")
def m_min(E, a, at, fn, dl, dt):
    if not isinstance(a[0], P) or not isinstance(a[1], P):
        return NotImplemented
    if E.ge(a[0] - a[1]):
        return a[1]
    return a[0]


def _num(op):
    def f(E, a, at, fn, dl, dt):
        x, y = E.asint(a[0]), E.asint(a[1])
        t = E.T[at[0]] if at[0] is not None else {"k": "int", "bits": 64, "signed": False}
        mx = (1 << t["bits"]) - 1 if not t.get("signed") else (1 << (t["bits"] - 1)) - 1
        z = x + y if op == "add" else x - y if op == "sub" else x * y
        ok = E.ge(con(mx) - z) if op != "sub" else E.ge(z)
        return z, ok, mx, t
    return f


def _checked(op):
    g = _num(op)
    def f(E, a, at, fn, dl, dt):
        z, ok, mx, t = g(E, a, at, fn, dl, dt)
        return some(z) if ok else NONE
    return f


def _saturating(op):
    g = _num(op)
    def f(E, a, at, fn, dl, dt):
        z, ok, mx, t = g(E, a, at, fn, dl, dt)
        return z if ok else (ZERO if op == "sub" else con(mx))
    return f


def _wrapping(op):
    def f(E, a, at, fn, dl, dt):
        t = at[0]
        if E.T[t]["bits"] < 64:
            x, y = E.asint(a[0]), E.asint(a[1])
            bits = E.T[t]["bits"]
            if op != "mul" and not E.T[t].get("signed"):
                # what leaves the range comes back at its other end
                z = x + y if op == "add" else x - y
                if op == "add":
                    if E.ge(con((1 << bits) - 1) - z):
                        return z
                    E.flag("wrap")
                    return z - (1 << bits)
                if E.ge(z):
                    return z
                E.flag("wrap")
                return z + (1 << bits)
            return P.atom(("w" + op, x, y))
        return E.binop({"add": "Add", "sub": "Sub", "mul": "Mul"}[op], a[0], a[1], t)
    return f


for _o in ("add", "sub", "mul"):
    for _t in ("usize", "u64", "u32"):
        M["std::num::<impl %s>::checked_%s" % (_t, _o)] = _checked(_o)
        M["std::num::<impl %s>::saturating_%s" % (_t, _o)] = _saturating(_o)
        M["std::num::<impl %s>::wrapping_%s" % (_t, _o)] = _wrapping(_o)


M["std::intrinsics::saturating_add"] = _saturating("add")
M["std::intrinsics::saturating_sub"] = _saturating("sub")


def pick(E, x):
    """a number whose bits are looked at: followed exactly for a few values"""
    x = E.asint(x)
    k = x.const()
    if k is not None:
        return int(k)
    E.instances = True
    few = (1, 2, 3, 4, 8, 12, 0, 5, 16, 24)
    k = few[E.choose(len(few))]
    if not E.eqz(x - k):
        raise Dead()
    return k


def _bits(E, at):
    t = E.T[at[0]] if at and at[0] is not None else {}
    return t.get("bits", 64) if t.get("k") == "int" else 64


def _bitfn(f):
    def g(E, a, at, fn, dl, dt):
        n = _bits(E, at)
        return con(f(pick(E, a[0]), n))
    return g


for _t, _w in (("usize", 64), ("u64", 64), ("u32", 32), ("u16", 16), ("u8", 8)):
    for _n, _f in (("next_power_of_two", lambda x, n: 1 << max(x - 1, 0).bit_length()), ("is_power_of_two", lambda x, n: int(x > 0 and x & (x - 1) == 0)),
                   ("leading_zeros", lambda x, n: n - x.bit_length()), ("trailing_zeros", lambda x, n: n if x == 0 else (x & -x).bit_length() - 1),
                   ("count_ones", lambda x, n: bin(x).count("1"))):
        M["std::num::<impl %s>::%s" % (_t, _n)] = _bitfn(_f)
for _n, _f in (("ctlz", lambda x, n: n - x.bit_length()), ("ctlz_nonzero", lambda x, n: n - x.bit_length()), ("cttz", lambda x, n: n if x == 0 else (x & -x).bit_length() - 1),
               ("cttz_nonzero", lambda x, n: (x & -x).bit_length() - 1), ("ctpop", lambda x, n: bin(x).count("1"))):
    M["std::intrinsics::" + _n] = _bitfn(_f)


@model("<usize as std::iter::Step>::forward_unchecked", "<usize as std::iter::Step>::forward")
def m_forward(E, a, at, fn, dl, dt):
    return E.asint(a[0]) + E.asint(a[1])


@model("<usize as std::iter::Step>::forward_overflowing")
def m_forward_o(E, a, at, fn, dl, dt):
    z, ok, mx, t = _num("add")(E, a, at, fn, dl, dt)
    return ("s", (z if ok else E.binop("Add", a[0], a[1], t), con(0 if ok else 1)))


@model("std::f32::<impl f32>::ceil", "std::f32::<impl f32>::floor")
def m_ceil(E, a, at, fn, dl, dt):
    return ("o", (E.callee_path.split("::")[-1], a[0]))


@model("std::intrinsics::maximum_number_nsz_f32", "std::f32::<impl f32>::max")
def m_fmax(E, a, at, fn, dl, dt):
    return ("o", ("fmax", a[0], a[1]))


# ---------------------------------------------------------------- panics
@model("std::panicking::panic", "std::panicking::panic_fmt", "std::option::expect_failed", "std::option::unwrap_failed", "std::result::unwrap_failed",
       "std::panicking::assert_failed_inner", "std::panicking::assert_failed", "std::slice::index::slice_index_fail", "std::panicking::unimplemented_default_msg", "std::panicking::panic_explicit",
       "std::slice::copy_from_slice_impl::len_mismatch_fail", "std::alloc::handle_alloc_error", "std::panicking::panic_bounds_check", "std::panicking::unreachable_display",
       "std::panicking::panic_display", "std::panicking::panic_const::panic_const_div_by_zero")
def m_panic(E, a, at, fn, dl, dt):
    if E.st.unw:
        raise Dead()
    E.st.dec = E.st.dec + ("panic",)
    inst = E.st.frames[-1][1] if E.st.frames else None
    inst = E.I.get(inst) if not isinstance(inst, tuple) else None
    if any(x in fn["path"] for x in ("slice_index_fail", "len_mismatch", "bounds_check")) or inst and not inst.get("local") and "slice::" in inst["path"]:
        E.range_panic()
    E.st.misc.setdefault("cause", "unwrap" if "_failed" in fn["path"] else "panic")
    raise PanicEx()


@model("std::panicking::panic_nounwind_fmt", "std::panicking::panic_nounwind", "std::process::abort", "std::intrinsics::abort")
def m_abort(E, a, at, fn, dl, dt):
    raise Dead()


@model("std::hint::unreachable_unchecked", "std::intrinsics::unreachable")
def m_unreach(E, a, at, fn, dl, dt):
    raise Dead()


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new", "std::fmt::rt::Argument::<'_>::new_display", "std::fmt::rt::Argument::<'_>::new_debug")
def m_fmt(E, a, at, fn, dl, dt):
    return ("o", ("fmt",))


@model("std::array::from_fn")
def m_from_fn(E, a, at, fn, dl, dt):
    t = E.T[E.T.strip(dt)]
    el = E.T[t["t"]]
    n = E.nconst(t["n"])
    if el["k"] == "adt" and el["path"].endswith("MaybeUninit"):
        return ("a", ((ZERO, n, U),))
    raise Undecided("array::from_fn")


# ---------------------------------------------------------------- slices
@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts", "std::ptr::slice_from_raw_parts_mut")
def m_frp(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    n = E.asint(a[1])
    strict = "slice::from_raw" in E.callee_path
    t = pointee(E, at[0]) if at[0] is not None else targ(fn)
    if p[1] is None:
        if strict:
            if p[2][0] == 0:
                E.violate("C14", "a slice is formed from a null pointer")
            if E.maybe(n - 1):
                E.violate("C04", "a non-empty slice is formed from a dangling pointer")
        return ("p", None, p[2], n)
    if E.T.same(t, E.u8):
        cur = E.typeof(p[1], p[2])
        ct = E.T[E.T.strip(cur)] if isinstance(cur, int) else None
        if ct is not None and ct["k"] in ("adt", "array", "param") and p[1][0] != "B":
            ln = E.array_len(p[1], p[2][:-1] if p[2] and p[2][-1][0] == "i" else p[2])
            if ct["k"] != "array" and p[2] and p[2][-1][0] == "i" and ln is not None:
                E.check((ln - p[2][-1][1]) * E.T.size(cur) - n, "C12", "a slice reaches beyond its storage")
            return ("p", p[1], p[2], n)        # a view of raw bytes
    b, pre, i = E.ptr_index(p, t)
    if i is None:
        if E.is_eq(n - 1) or E.is_eq(n):
            return ("p", b, pre, n)
        raise Undecided("slice over a single object")
    if strict:
        E.check(n, "C12", "a slice with a negative length is formed")
        ln = E.array_len(b, pre)
        v = E.load(b, pre)
        if v[0] == "a":
            ln = E.alen(v)
        if ln is not None:
            E.check(ln - i - n, "C12", "a slice reaches beyond its storage")
        if v[0] == "a":
            E.slice_formed(v[1], i, i + n, t)
        elif v[0] == "u" and E.T[E.T.strip(t)]["k"] != "adt":
            if E.maybe(n - 1):
                E.violate("C04", "a slice over uninitialised storage is formed")
    return ("p", b, pre + (("i", i),), n)


@model("std::slice::<impl [T]>::as_ptr", "std::slice::<impl [T]>::as_mut_ptr", "std::str::<impl str>::as_ptr", "std::str::<impl str>::as_mut_ptr")
def m_as_ptr(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return ("p", p[1], p[2], None)


@model("std::slice::<impl [T]>::len", "std::str::<impl str>::len", "std::ptr::mut_ptr::<impl *mut [T]>::len", "std::ptr::const_ptr::<impl *const [T]>::len")
def m_len(E, a, at, fn, dl, dt):
    return E.asptr(a[0])[3]


@model("std::slice::<impl [T]>::is_empty", "std::str::<impl str>::is_empty", "std::ptr::mut_ptr::<impl *mut [T]>::is_empty", "std::ptr::const_ptr::<impl *const [T]>::is_empty")
def m_is_empty(E, a, at, fn, dl, dt):
    return E.mkb("eq", E.asptr(a[0])[3])


@model("std::str::<impl str>::as_bytes", "std::str::from_utf8_unchecked", "std::str::from_utf8_unchecked_mut", "<str as std::convert::AsRef<str>>::as_ref", "std::str::<impl str>::as_bytes_mut", "<str as std::convert::AsRef<[u8]>>::as_ref")
def m_bytes(E, a, at, fn, dl, dt):
    if "unchecked" in E.callee_path:
        E.utf8_formed(E.asptr(a[0]))
    return a[0]


def sl_at(E, p, i, n):
    if p[1] is None:
        return ("p", None, (p[2][0] + i,) if False else p[2], n)
    path = p[2]
    if path and path[-1][0] == "i":
        return ("p", p[1], path[:-1] + (("i", path[-1][1] + i),), n)
    return ("p", p[1], path + (("i", i),), n)


@model("<usize as std::slice::SliceIndex<[T]>>::get_unchecked", "<usize as std::slice::SliceIndex<[T]>>::get_unchecked_mut")
def m_get_unchecked(E, a, at, fn, dl, dt):
    i = E.asint(a[0])
    p = E.asptr(a[1])
    E.check(p[3] - 1 - i, "C12", "get_unchecked out of range")
    q = sl_at(E, p, i, None)
    return q


@model("<usize as std::slice::SliceIndex<[T]>>::get", "<usize as std::slice::SliceIndex<[T]>>::get_mut")
def m_slice_get(E, a, at, fn, dl, dt):
    i = E.asint(a[0])
    p = E.asptr(a[1])
    if E.ge(p[3] - 1 - i):
        return some(sl_at(E, p, i, None))
    return NONE


@model("std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new", "std::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter_mut",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def m_iter_new(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    n = p[3]
    return ("s", (("p", p[1], p[2], None), ZERO, n))      # start, position, end


@model("std::slice::Iter::<'a, T>::as_slice", "std::slice::IterMut::<'a, T>::into_slice", "std::slice::IterMut::<'a, T>::as_slice")
def m_iter_slice(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    it = E.load(p[1], p[2]) if a[0][0] == "p" else a[0]
    b, i, n = it[1]
    return sl_at(E, b, i, n - i)


@model("<std::slice::Iter<'_, T> as std::clone::Clone>::clone")
def m_iter_clone(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return E.load(p[1], p[2])


def iter_some(E, b, i):
    q = sl_at(E, b, i, None)
    v = E.load(q[1], q[2])
    if isinstance(v, P) or v[0] != "u":         # plain data may be filled through the references of a slice; reading it is checked then
        E.alive_ref(v)
    return some(q)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def m_iter_next(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    it = E.load(p[1], p[2])
    if it[0] == "u":
        E.violate("C04", "an uninitialised iterator is advanced")
    b, i, n = it[1]
    if not E.ge(n - i - 1):
        return NONE
    E.store(p[1], p[2], ("s", (b, i + 1, n)))
    return iter_some(E, b, i)


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def m_iter_next_back(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    b, i, n = E.load(p[1], p[2])[1]
    if not E.ge(n - i - 1):
        return NONE
    E.store(p[1], p[2], ("s", (b, i, n - 1)))
    return iter_some(E, b, n - 1)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::__iterator_get_unchecked", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::__iterator_get_unchecked")
def m_iter_at(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    b, i, n = E.load(p[1], p[2])[1]
    k = E.asint(a[1])
    E.check(n - i - k - 1, "C12", "an iterator of a slice is read beyond its end")
    return iter_some(E, b, i + k)[2][0]


@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", "<std::slice::IterMut<'a, T> as std::iter::ExactSizeIterator>::len")
def m_iter_len(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    b, i, n = E.load(p[1], p[2])[1]
    return n - i


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint")
def m_iter_hint(E, a, at, fn, dl, dt):
    n = m_iter_len(E, a, at, fn, dl, dt)
    return ("s", (n, some(n)))


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::count", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::count")
def m_iter_count(E, a, at, fn, dl, dt):
    b, i, n = a[0][1]
    return n - i


@model("std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def m_arr_into(E, a, at, fn, dl, dt):
    v = a[0]
    if v[0] == "y":
        v = E.expand_array(v)
    return ("s", (v, ZERO, E.alen(v) if v[1] else E.nconst(E.T[at[0]]["n"])))


@model("<std::array::IntoIter<T, N> as std::iter::Iterator>::next")
def m_arr_next(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    arr, i, n = E.load(p[1], p[2])[1]
    if not E.ge(n - i - 1):
        return NONE
    E.store(p[1], p[2], ("s", (arr, i + 1, n)))
    return some(E.elem(arr[1], i))


@model("<[T] as std::slice::CloneFromSpec<T>>::spec_clone_from", "std::slice::CloneFromSpec::spec_clone_from", "trait CloneFromSpec::spec_clone_from")
def m_clone_from(E, a, at, fn, dl, dt):
    d, s = E.asptr(a[0]), E.asptr(a[1])
    t = pointee(E, at[0])
    tt = E.T[E.T.strip(t)]
    el = tt["t"] if tt["k"] == "slice" else t
    n = s[3]
    if E.eqz(n):
        return UNIT
    if not E.is_eq(n - d[3]):
        if not E.eqz(n - d[3]):
            E.range_panic()
    if d[1] is None or s[1] is None:
        E.violate("C14", "elements are cloned through a null pointer")
    sb, sp, si = d[1], d[2][:-1], d[2][-1][1]
    arr = E.load(sb, sp)
    src = E.load(s[1], s[2][:-1])
    so = s[2][-1][1]
    for lo, hi, c in E.cut(arr[1], si, si + n):
        if c[0] == "u" and E.maybe(hi - lo - 1) and E.T[el].get("needs_drop"):
            E.violate("C04", "uninitialised storage is assigned through (its old contents are dropped)")
    if not E.T[el].get("needs_drop"):
        segs = tuple((lo - so + si, hi - so + si, c) for lo, hi, c in E.cut(src[1], so, so + n))
        E.store(sb, sp, ("a", E.put(arr[1], si, si + n, segs)))
        return UNIT
    def upto(m):
        """the first m elements are replaced by clones"""
        old = E.cut(arr[1], si, si + m)
        E.drop_segs(old, el)
        new = []
        for lo, hi, c in E.cut(src[1], so, so + m):
            new.append((lo - so + si, hi - so + si, E.clone_content(c, hi - lo)))
        E.store(sb, sp, ("a", E.put(arr[1], si, si + m, tuple(new))))
    r = 0 if E.st.unw else E.choose(3)
    if r == 0:
        upto(n)
        return UNIT
    i = E.fresh("at")
    E.fact(n - 1 - i)
    upto(i if r == 1 else i + 1)
    raise PanicEx()


# ---------------------------------------------------------------- allocator (user supplied)
def alloc_id(E, p):
    p = E.asptr(p)
    v = E.load(p[1], p[2])
    return v


def alloc_root(v):
    """identity of an allocator value, up to cloning"""
    if v[0] == "y":
        s = v[1]
        while isinstance(s, tuple) and s and s[0] == "cl":
            s = s[2]
        return ("y", s, v[2])
    return v


def new_block(E, bytes_, align, who, tid=None, count=None):
    st = E.st
    if not st.unw:
        r = E.choose(3)
        if r == 1:
            E.st.dec = E.st.dec + ("allocation fails",)
            E.flag("allocfail")
            return NULL
        if r == 2:
            raise PanicEx()
    E.fact(con(ISIZE_MAX) - bytes_)
    st.ctr += 1
    b = ("B", "%d" % st.ctr)
    st.blk[b] = {"bytes": bytes_, "align": align, "alloc": alloc_root(who), "kind": "heap"}
    if tid is not None:
        E.fact(con(ISIZE_MAX) - count)
        st.blk[b]["n"] = count
        st.oty[b] = ("arr", E.T.strip(tid))
        st.mem[b] = ("a", ((ZERO, count, U),))
    else:
        E.fact(bytes_ - ZERO)
    return ("p", b, (("i", ZERO),), None)


@model("allocator::Allocator::allocate", "trait Allocator::allocate")
def m_allocate(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    n = E.asint(a[1])
    t = [x for x in fn["targs"] if isinstance(x, int)][-1]
    who = alloc_id(E, a[0])
    E.on_alloc(n * E.T.size(t))
    return new_block(E, n * E.T.size(t), E.T.align(t), who, t, n)


@model("allocator::Allocator::allocate_raw_aligned", "trait Allocator::allocate_raw_aligned")
def m_allocate_raw(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    who = alloc_id(E, a[0])
    E.on_alloc(E.asint(a[1]))
    return new_block(E, E.asint(a[1]), E.asint(a[2]), who)


@model("allocator::Allocator::allocate_raw", "trait Allocator::allocate_raw")
def m_allocate_raw_usize(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    E.on_alloc(E.asint(a[1]))
    return new_block(E, E.asint(a[1]), con(8), alloc_id(E, a[0]))


@model("allocator::Allocator::deallocate_raw", "trait Allocator::deallocate_raw")
def m_deallocate_raw_usize(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    release(E, a[1], E.asint(a[2]), con(8), alloc_id(E, a[0]))
    return UNIT


def release(E, p, bytes_, align, who):
    st = E.st
    p = E.asptr(p)
    E.ob("C02")
    E.ob("C20")
    if p[1] is None:
        if p[2][0] == 0:
            E.violate("C02", "a null pointer is given back to the allocator")
        E.violate("C02", "an address that is no block is given back to the allocator")
    b = p[1]
    if b[0] == "G":
        E.violate("C17", "the shared static %s is given back to the allocator" % b[1])
    if b[0] == "B" and b not in st.blk:
        E.violate("C02", "a block is given back twice")
    blk = st.blk.get(b)
    if blk is None or blk["kind"] not in ("heap",):
        E.violate("C20" if E.fixedbuf(b, p[2]) or blk and blk["kind"] == "pool" else "C02", "storage that was not obtained from the allocator is given back to it")
    path = E.canon_path(p)
    if path and not (len(path) == 1 and path[0][0] == "i" and E.is_eq(path[0][1])):
        off = path[0][1] if path[0][0] == "i" and len(path) == 1 else None
        if off is not None:
            E.check_eq(off, "C02", "an address inside a block, not its start, is given back")
        else:
            E.violate("C02", "an address inside a block, not its start, is given back")
    E.check_eq(bytes_ - blk["bytes"], "C01", "a block is given back with a size different from the one it was requested with")
    E.check_eq(align - blk["align"], "C01", "a block is given back with an alignment different from the one it was requested with")
    if blk["alloc"] != alloc_root(who):
        E.violate("C02", "a block is given back to an allocator it was not obtained from")
    E.before_free(b)
    del st.blk[b]
    st.mem.pop(b, None)
    st.oty.pop(b, None)
    E.on_free(b)


@model("allocator::Allocator::deallocate", "trait Allocator::deallocate")
def m_deallocate(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    t = [x for x in fn["targs"] if isinstance(x, int)][-1]
    release(E, a[1], E.asint(a[2]) * E.T.size(t), E.T.align(t), alloc_id(E, a[0]))
    return UNIT


@model("allocator::Allocator::deallocate_raw_aligned", "trait Allocator::deallocate_raw_aligned")
def m_deallocate_raw(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    release(E, a[1], E.asint(a[2]), E.asint(a[3]), alloc_id(E, a[0]))
    return UNIT


@model("fixed_pool::PoolAllocator::init", "trait PoolAllocator::init")
def m_pool_init(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    E.user("init")
    E.st.misc[("poolinit", alloc_root(alloc_id(E, a[0])))] = E.asptr(a[1])
    return UNIT


@model("std::alloc::alloc")
def m_sysalloc(E, a, at, fn, dl, dt):
    sz, al = layout_of(E, a[0])
    r = E.choose(2)
    if r == 1:
        return NULL
    st = E.st
    st.ctr += 1
    b = ("B", "%d" % st.ctr)
    st.blk[b] = {"bytes": sz, "align": al, "alloc": ("sys",), "kind": "heap"}
    return ("p", b, (("i", ZERO),), None)


def layout_of(E, v):
    if v[0] == "o" and v[1][0] == "layout":
        return v[1][1], v[1][2]
    if v[0] == "s":
        return E.asint(v[1][0]), E.asint(v[1][1])
    raise Undecided("layout")


@model("std::alloc::dealloc")
def m_sysdealloc(E, a, at, fn, dl, dt):
    sz, al = layout_of(E, a[1])
    release(E, a[0], sz, al, ("sys",))
    return UNIT


@model("std::alloc::Layout::array")
def m_layout_array(E, a, at, fn, dl, dt):
    t = targ(fn)
    n = E.asint(a[0])
    sz = n * E.T.size(t)
    if E.ge(con(ISIZE_MAX) - sz):
        return ("e", 0, (("o", ("layout", sz, E.T.align(t))),))
    return ("e", 1, (UNIT,))


@model("std::alloc::Layout::align_to")
def m_layout_align_to(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    v = E.load(p[1], p[2])
    sz, al = layout_of(E, v)
    al2 = E.asint(a[1])
    key = ("align ok", al2)
    if E.truth(("bo", key, False)):
        m = al2 if al == 1 else (al if E.ge(al - al2) else al2)
        return ("e", 0, (("o", ("layout", sz, m)),))
    return ("e", 1, (UNIT,))


@model("std::alloc::Layout::from_size_align")
def m_layout_fsa(E, a, at, fn, dl, dt):
    sz, al = E.asint(a[0]), E.asint(a[1])
    if E.ge(con(ISIZE_MAX) - sz) and E.truth(("bo", ("align ok", al), False)):
        return ("e", 0, (("o", ("layout", sz, al)),))
    return ("e", 1, (UNIT,))


@model("std::alloc::Layout::from_size_align_unchecked")
def m_layout_fsau(E, a, at, fn, dl, dt):
    return ("o", ("layout", E.asint(a[0]), E.asint(a[1])))


@model("std::alloc::Layout::new")
def m_layout_new(E, a, at, fn, dl, dt):
    return ("o", ("layout", E.T.size(targ(fn)), E.T.align(targ(fn))))


@model("std::alloc::Layout::size")
def m_layout_size(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return layout_of(E, E.load(p[1], p[2]))[0]


@model("std::alloc::Layout::align")
def m_layout_align(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return layout_of(E, E.load(p[1], p[2]))[1]


# ---------------------------------------------------------------- user code
def tok_of(E, p):
    """the value a reference argument of user code designates"""
    for _ in range(3):
        p = E.asptr(p)
        if p[3] is not None:
            return p
        v = E.load(p[1], p[2])
        if isinstance(v, tuple) and v[0] == "p":
            p = v
            continue
        return v
    return v


def ident(v):
    return v


@model("std::clone::Clone::clone", "trait Clone::clone")
def m_clone(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    p = E.asptr(a[0])
    v = E.load(p[1], p[2])
    if isinstance(v, tuple) and v[0] == "u":
        t = E.T[E.T.strip(pointee(E, at[0]))]
        if t.get("size") == 0:
            return UNIT
    if isinstance(v, P) or v[0] in ("p", "o", "b", "bo"):
        return v
    E.alive(v, "cloned")
    E.user("clone of an element")
    return E.clone_val(v)


@model("std::clone::Clone::clone_from", "trait Clone::clone_from")
def m_clone_from_one(E, a, at, fn, dl, dt):
    """`*dest = source.clone()`: the copy is made, takes the place of the old value, and the old value is dropped"""
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    d, s = E.asptr(a[0]), E.asptr(a[1])
    t = pointee(E, at[0])
    v = E.load(s[1], s[2])
    old = E.load(d[1], d[2])
    if isinstance(v, tuple) and v[0] == "u" or isinstance(old, tuple) and old[0] == "u":
        raise Undecided("copy onto storage of unknown contents")
    if isinstance(v, P) or E.T[E.T.strip(t)]["k"] in ("int", "float", "bool", "char", "ptr", "ref"):
        E.store(d[1], d[2], v)
        return UNIT
    E.alive(v, "cloned")
    E.user("clone of an element")
    E.store(d[1], d[2], E.clone_val(v))
    if isinstance(old, P) or not E.T[t].get("needs_drop", True):
        return UNIT
    E.st.ctr += 1
    o = ("R", "clo", E.st.ctr)
    E.st.mem[o] = old
    E.st.oty[o] = t
    if dl is not None:
        E.store(dl[0], dl[1], UNIT)
    E.glue([("drop", o, (), None, t)])
    return None


@model("std::default::Default::default", "trait Default::default")
def m_default(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    t = E.T[E.T.strip(dt)]
    if t["k"] == "int":
        return ZERO
    if t["k"] == "adt" and t.get("phantom"):
        return UNIT
    if t["k"] in ("param", "alias"):
        E.user("default")
        return E.result("default", dt)
    if t.get("size") == 0:
        return UNIT
    raise Undecided("default of %s" % t["s"])


M["<u8 as std::default::Default>::default"] = m_default
M["<std::marker::PhantomData<T> as std::default::Default>::default"] = m_default


def _rel(name):
    def f(E, a, at, fn, dl, dt):
        if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
            return NotImplemented
        vs = [tok_of(E, x) for x in a]
        for v in vs:
            E.alive_ref(v)
        E.user(name)
        return E.user_rel(name, fn, a, vs, dt)
    return f


for _n in ("std::cmp::PartialEq::eq", "std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::ge",
           "compare::Compare::compare", "equals::Equals::equals", "std::cmp::PartialEq::ne"):
    M[_n] = _rel(_n.split("::")[-1])
    M["trait " + "::".join(_n.split("::")[-2:])] = M[_n]


@model("hash::Hash::hash", "trait Hash::hash")
def m_hash(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    k = tok_of(E, a[0])
    E.alive_ref(k)
    E.user("hash")
    return E.user_hash(a, k)


@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once", "trait Fn::call", "trait FnMut::call_mut", "trait FnOnce::call_once")
def m_call(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    if str(fn.get("rkind") or "").startswith("Shim"):
        return NotImplemented
    once = fn["path"].endswith("call_once")
    args = a[1][1] if a[1][0] == "s" else ()
    for v in args:
        if isinstance(v, tuple) and v[0] == "p":
            if v[1] is not None and v[3] is None:
                E.alive_ref(E.load(v[1], v[2]))
        else:
            E.give(v)
    E.on_callback(fn, a, args)
    if once:
        E.give(a[0])
    E.user("callback")
    t = E.T[E.T.strip(dt)]
    if t.get("size") == 0:
        return UNIT
    if t["k"] == "bool":
        return ("bo", E.result("ret", dt)[1:], False)
    return E.result("ret", dt)


@model("std::iter::IntoIterator::into_iter", "trait IntoIterator::into_iter")
def m_into_iter(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    if isinstance(a[0], tuple) and a[0][0] == "y":
        E.give(a[0])
    E.user("into_iter")
    return E.result("iter", dt)


@model("std::iter::Iterator::next", "trait Iterator::next")
def m_next(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    p = E.asptr(a[0])
    it = E.load(p[1], p[2])
    if it[0] != "y":
        raise Undecided("next on %s" % it[0])
    E.user("next of the input iterator")
    if E.choose(2) == 1:
        E.st.misc[("done", it[1], it[2])] = True
        return NONE
    key = ("pos", it[1], it[2])
    pos = E.st.misc.get(key, ZERO)
    E.st.misc[key] = pos + 1
    et = E.T.fields(E.T.strip(dt), 1)[0]
    seq = ("it", it[1], it[2])
    if E.T[E.T.strip(et)]["k"] in ("ref",):
        return some(("y", seq, pos, et))
    E.acquire(seq, et, pos, pos + 1)
    return some(("y", seq, pos, et))


@model("std::iter::adapters::fuse::FuseImpl::next", "trait FuseImpl::next", "<std::iter::Fuse<I> as std::iter::adapters::fuse::FuseImpl<I>>::next")
def m_fuse_next(E, a, at, fn, dl, dt):
    """the input iterator, until it is exhausted"""
    p = E.asptr(a[0])
    v = E.load(p[1], p[2])
    if v[0] != "s" or not v[1] or v[1][0][0] != "e":
        raise Undecided("fused iterator")
    if v[1][0][1] == 0:
        return NONE
    it = v[1][0][2][0]
    if it[0] != "y":
        raise Undecided("fused %s" % it[0])
    r = m_next(E, [("p", p[1], p[2] + (("f", 0), ("d", 1), ("f", 0)), None)], at, {"path": fn["path"]}, dl, dt)
    if r == NONE:
        # the adapter drops the exhausted iterator
        E.dispose(it[1], it[3], it[2], it[2] + 1)
        E.store(p[1], p[2] + (("f", 0),), NONE)
    return r


@model("std::iter::Iterator::size_hint", "trait Iterator::size_hint")
def m_size_hint(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    E.user("size_hint")
    lo = E.fresh("hint")
    E.fact(con(USIZE_MAX) - lo)
    hi = NONE
    if E.choose(2) == 0:
        h = E.fresh("hint_hi")
        hi = some(h)
    return ("s", (lo, hi))


@model("std::convert::AsRef::as_ref", "trait AsRef::as_ref")
def m_asref(E, a, at, fn, dl, dt):
    if fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    p = E.asptr(a[0])
    v = E.load(p[1], p[2])
    E.alive_ref(v)
    E.user("as_ref")
    t = E.T[E.T.strip(dt)]
    d = E.T[E.T.strip(t["t"])]
    if isinstance(v, tuple) and v[0] == "p":
        return v
    o = ("R", "asref", v[1] if v[0] == "y" else repr(v)[:40], v[2] if v[0] == "y" else 0)
    n = P.atom(("len", o))
    if o not in E.st.mem:
        el = E.u8 if d["k"] == "str" else d["t"]
        E.fact(con(ISIZE_MAX) - n)
        if d["k"] == "str":
            E.st.misc[("slen", ("str",) + o)] = n
        E.st.mem[o] = ("a", ((ZERO, n, ("q", ("str",) + o, ZERO, el)),))
        E.st.oty[o] = ("arr", el)
    return ("p", o, (("i", ZERO),), n)


# ---------------------------------------------------------------- text
@model("std::char::methods::<impl char>::len_utf8")
def m_len_utf8(E, a, at, fn, dl, dt):
    return E.char_len(a[0])


@model("std::char::methods::<impl char>::len_utf16")
def m_len_utf16(E, a, at, fn, dl, dt):
    n = E.char_len(a[0])
    return con(2) if E.ge(n - 4) else ONE


@model("std::char::convert::<impl std::convert::TryFrom<char> for u8>::try_from")
def m_char_to_u8(E, a, at, fn, dl, dt):
    c = E.asint(a[0])
    if E.ge(con(255) - c):
        return ("e", 0, (c,))
    return ("e", 1, (("o", ("narrow", c), "TryFromCharError"),))


@model("std::char::methods::<impl char>::is_ascii")
def m_char_is_ascii(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return con(1 if E.ge(con(127) - E.asint(E.load(p[1], p[2]))) else 0)


@model("std::char::methods::<impl char>::encode_utf8")
def m_encode(E, a, at, fn, dl, dt):
    n = E.char_len(a[0])
    p = E.asptr(a[1])
    E.check(p[3] - n, "C11", "a character is encoded into a buffer too small for it") if p[3] is not None else None
    arr = E.load(p[1], p[2][:-1])
    i = p[2][-1][1]
    seq = ("enc", E.char_id(a[0]))
    if arr[0] == "u":
        arr = ("a", ((ZERO, E.array_len(p[1], p[2][:-1]), U),))
    E.store(p[1], p[2][:-1], ("a", E.put(arr[1], i, i + n, ((i, i + n, ("q", seq, ZERO, E.u8)),))))
    return ("p", p[1], p[2], n)


@model("std::str::<impl str>::chars")
def m_chars(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return ("s", (p, ZERO, p[3]))


@model("std::str::<impl str>::bytes")
def m_str_bytes(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return ("s", (p, ZERO, p[3]))


@model("<std::str::Bytes<'_> as std::iter::Iterator>::next")
def m_bytes_next(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    b, i, n = E.load(p[1], p[2])[1]
    if not E.ge(n - i - 1):
        return NONE
    E.store(p[1], p[2], ("s", (b, i + 1, n)))
    q = sl_at(E, b, i, None)
    return some(E.load(q[1], q[2]))


def _char(E, a, back):
    p = E.asptr(a[0])
    b, i, n = E.load(p[1], p[2])[1]
    if not E.ge(n - i - 1):
        return NONE
    # the byte sequence position, if it is a plain slice of a named text
    q = sl_at(E, b, i if not back else n, None)
    pos = q[2][-1][1]
    arr = E.load(q[1], q[2][:-1])
    name = ("ch", "last" if back else "first", E.text_name(arr, pos, back))
    l = P.atom(("len8", name), 1)
    E.fact(con(4) - l)
    E.fact(n - i - l)
    if back:
        E.boundary(arr, pos - l)
        E.store(p[1], p[2], ("s", (b, i, n - l)))
    else:
        E.boundary(arr, pos + l)
        E.store(p[1], p[2], ("s", (b, i + l, n)))
    return some(("o", name))


@model("<std::str::Chars<'a> as std::iter::Iterator>::next")
def m_chars_next(E, a, at, fn, dl, dt):
    return _char(E, a, False)


@model("<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def m_chars_next_back(E, a, at, fn, dl, dt):
    return _char(E, a, True)


@model("std::str::<impl str>::is_char_boundary")
def m_icb(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    i = E.asint(a[1])
    if E.eqz(i):
        return ONE
    if E.eqz(i - p[3]):
        return ONE
    if E.ge(i - p[3]):
        return ZERO
    q = sl_at(E, p, i, None)
    arr = E.load(q[1], q[2][:-1])
    return E.is_boundary(arr, q[2][-1][1])


@model("std::str::traits::<impl std::cmp::PartialEq for str>::eq", "std::intrinsics::compare_bytes")
def m_str_eq(E, a, at, fn, dl, dt):
    return ("bo", ("streq", a[0], a[1]), False) if E.T[E.T.strip(dt)]["k"] == "bool" else E.fresh("cmpbytes")


@model("moveit::slot::__macro::core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq",
       "std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq")
def m_bytes_eq(E, a, at, fn, dl, dt):
    t = [E.T[E.T.strip(x["t"])] for x in (E.T[E.T.strip(y)] for y in at) if x["k"] in ("ref", "ptr")]
    if len(t) != 2 or any(x["k"] != "slice" or x["t"] != E.u8 for x in t) or E.T[E.T.strip(dt)]["k"] != "bool":
        return NotImplemented
    return ("bo", ("streq", a[0], a[1]), False)


@model("std::str::traits::<impl std::slice::SliceIndex<str> for std::ops::RangeFrom<usize>>::index", "std::str::traits::<impl std::slice::SliceIndex<str> for std::ops::RangeTo<usize>>::index",
       "std::str::traits::<impl std::slice::SliceIndex<str> for std::ops::Range<usize>>::index",
       "std::str::traits::<impl std::slice::SliceIndex<str> for std::ops::RangeFrom<usize>>::get", "std::str::traits::<impl std::slice::SliceIndex<str> for std::ops::RangeTo<usize>>::get",
       "std::str::traits::<impl std::slice::SliceIndex<str> for std::ops::Range<usize>>::get")
def m_str_index(E, a, at, fn, dl, dt):
    p = E.asptr(a[1])
    r = a[0][1] if a[0][0] == "s" else None
    n = p[3]
    nm = E.callee_path
    lo, hi = ZERO, n
    if "RangeFrom<" in nm:
        lo = E.asint(r[0])
    elif "RangeTo<" in nm:
        hi = E.asint(r[0])
    else:
        lo, hi = E.asint(r[0]), E.asint(r[1])
    get = nm.endswith("::get")
    def bad():
        if get:
            return NONE
        E.range_panic()
    if not (E.ge(hi - lo) and E.ge(n - hi)):
        return bad()
    for x in (lo, hi):
        if E.eqz(x) or E.eqz(x - n):
            continue
        q = sl_at(E, p, x, None)
        arr = E.load(q[1], q[2][:-1])
        if not E.truth(E.is_boundary(arr, q[2][-1][1])):
            return bad()
    s = sl_at(E, p, lo, hi - lo)
    return some(s) if get else s


@model("std::slice::range")
def m_slice_range(E, a, at, fn, dl, dt):
    # range(r, ..len) -> checked Range
    r, bound = a[0], a[1]
    ln = E.asint(bound[1][0]) if bound[0] == "s" else None
    t = E.T[at[0]]
    nm = t["path"].split("::")[-1]
    if nm == "RangeFrom":
        lo, hi = E.asint(r[1][0]), ln
    elif nm == "RangeTo":
        lo, hi = ZERO, E.asint(r[1][0])
    elif nm == "Range":
        lo, hi = E.asint(r[1][0]), E.asint(r[1][1])
    elif nm == "RangeFull":
        lo, hi = ZERO, ln
    else:
        raise Undecided("slice::range of %s" % nm)
    if E.ge(hi - lo) and E.ge(ln - hi):
        return ("s", (lo, hi))
    E.range_panic()


@model("std::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut")
def m_array_index(E, a, at, fn, dl, dt):
    p, r = E.asptr(a[0]), a[1]
    arr = E.T[E.T.strip(E.T[E.T.strip(at[0])]["t"])]
    t = E.T[E.T.strip(at[1])]
    if arr["k"] != "array" or t["k"] != "adt":
        return NotImplemented
    n = E.nconst(arr["n"])
    nm = t["path"].split("::")[-1]
    f = [E.asint(x) for x in r[1]] if r[0] == "s" else []
    if nm == "RangeFull":
        lo, hi = ZERO, n
    elif nm == "RangeFrom" and len(f) == 1:
        lo, hi = f[0], n
    elif nm == "RangeTo" and len(f) == 1:
        lo, hi = ZERO, f[0]
    elif nm == "Range" and len(f) == 2:
        lo, hi = f
    else:
        return NotImplemented
    if E.ge(hi - lo) and E.ge(n - hi):
        return ("p", p[1], E.adjust(p[1], p[2], E.T.strip(E.T[E.T.strip(at[0])]["t"])) + (("i", lo),), hi - lo)
    E.range_panic()


# ---------------------------------------------------------------- superslice
@model("<[T] as superslice::Ext>::lower_bound_by", "<[T] as superslice::Ext>::lower_bound", "std::slice::<impl [T]>::partition_point")
def m_lower_bound(E, a, at, fn, dl, dt):
    """contract: the partition point of the slice under the (monotone) comparison"""
    p = E.asptr(a[0])
    n = p[3]
    if E.small and n.const() is not None and n.const() <= 8 and fn.get("inst") is not None and E.I[fn["inst"]]["body"]:
        return NotImplemented
    if E.ge(n - 1):
        E.user("compare")
    w = a[1]
    if isinstance(w, tuple) and w[0] == "p" and w[1] is not None:
        w = E.load(w[1], w[2])
    if isinstance(w, tuple) and w[0] == "s":
        w = tuple(x[1] if isinstance(x, tuple) and x[0] == "p" else repr(x) for x in w[1])
    elif isinstance(w, P):
        w = (w,)
    else:
        w = tuple(w[1:3]) if w[0] in ("y", "o") else repr(w)
    j = P.atom(("lb", p[1], n, w))
    E.fact(n - j)
    E.on_lower_bound(p, a[1], j)
    return j
