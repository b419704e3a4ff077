"""C04: contracts of the Options setters and constructor.

Abstract state: the values the getters return.  Invariant: with MATLAB
compatibility on, every option MATLAB requires has its required value, and
every option has a value of its domain.
"""
import posixpath

import z3

from pyvc.engine import Model, Opaque, SBool, SInt, SStr, Unsupported, zb, zs

FUNCTIONS = "Options.* property setters/getters, Options.__init__"
TRUSTED = [
    "posixpath.normpath/isabs: normpath gives the canonical path or, for exactly two leading slashes, '/' plus it",
    "isinstance of values: any object outside of bool/int/str/bytes/float/tuple/list/None/MarshallerCollection behaves as one opaque type",
]

B = "bool"
KIND = {
    "marshaller_collection": "collection", "store_python_metadata": B, "matlab_compatible": "matlab",
    "action_for_matlab_incompatible": ("ignore", "discard", "error"), "delete_unused_variables": B,
    "structured_numpy_ndarray_as_struct": B, "make_atleast_2d": B, "convert_numpy_bytes_to_utf16": B,
    "convert_numpy_str_to_utf16": B, "convert_bools_to_uint8": B, "reverse_dimension_order": B, "structs_as_dicts": B,
    "store_shape_for_empty": B, "complex_names": "pair", "group_for_references": "path", "oned_as": ("row", "column"),
    "dict_like_keys_name": "str", "dict_like_values_name": "str", "compress": B, "compress_size_threshold": "nat",
    "compression_algorithm": ("gzip", "lzf", "szip"), "gzip_compression_level": "level", "shuffle_filter": B,
    "compressed_fletcher32_filter": B, "uncompressed_fletcher32_filter": B,
}
MATLAB = {
    "delete_unused_variables": True, "structured_numpy_ndarray_as_struct": True, "make_atleast_2d": True,
    "convert_numpy_bytes_to_utf16": True, "convert_numpy_str_to_utf16": True, "convert_bools_to_uint8": True,
    "reverse_dimension_order": True, "store_shape_for_empty": True, "complex_names": ("real", "imag"),
    "group_for_references": "/#refs#", "compression_algorithm": "gzip",
}

CANON = z3.Function("canon", z3.StringSort(), z3.StringSort())


def canon_ok(e):
    """Whether a value is accepted as reference Group path."""
    return z3.And(z3.PrefixOf(z3.StringVal("/"), CANON(e)), z3.Length(CANON(e)) > 1)


def fresh(ctx, name, kind):
    if kind in (B, "matlab"):
        return ctx.bool(name)
    if isinstance(kind, tuple):
        s = ctx.str(name)
        ctx.assume(z3.Or(*[s.e == k for k in kind]))
        return s
    if kind in ("str", "path"):
        s = ctx.str(name)
        if kind == "path":
            ctx.assume(z3.And(z3.PrefixOf(z3.StringVal("/"), s.e), z3.Length(s.e) > 1))
        return s
    if kind == "pair":
        return (ctx.str(name + "0"), ctx.str(name + "1"))
    if kind in ("nat", "level"):
        n = ctx.int(name)
        ctx.assume(n.e >= 0)
        if kind == "level":
            ctx.assume(n.e <= 9)
        return n
    if kind == "collection":
        from hdf5storage import MarshallerCollection

        return Opaque(name, (MarshallerCollection,), True)
    raise AssertionError(kind)


def install(ctx):
    it = ctx.interp

    def normpath(p):
        if not isinstance(p, SStr):
            return posixpath.normpath(p)
        c = SStr(CANON(p.e))
        if ctx.branch(ctx.bool("two_slashes").e):
            ctx.assume(z3.PrefixOf(z3.StringVal("/"), c.e))
            ctx.assume(z3.PrefixOf(z3.StringVal("//"), p.e))
            r = SStr(z3.Concat(z3.StringVal("/"), c.e))
            table[r.e.get_id()] = (r, c)
            return r
        table[c.e.get_id()] = (c, c)
        return c

    table = {}

    def replace(s, a, b):
        if (a, b) == ("//", "/") and s.e.get_id() in table:
            return table[s.e.get_id()][1]
        raise Unsupported("str.replace")

    def isabs(p):
        if isinstance(p, str):
            return posixpath.isabs(p)
        return SBool(z3.PrefixOf(z3.StringVal("/"), p.e))

    it.models[posixpath.normpath] = normpath
    it.models[posixpath.isabs] = isabs
    it.hooks["str.replace"] = replace


def slots(ctx):
    """Which instance field each getter returns (found by running the getters)."""
    import hdf5storage as h

    o = h.Options()
    marks = {}
    for f in list(vars(o)):
        m = Opaque("field:" + f, (), True)
        marks[id(m)] = (f, m)
        object.__setattr__(o, f, m)
    out = {}
    for n in KIND:
        v = ctx.interp.getattr(o, n)
        if id(v) not in marks:
            raise Unsupported(f"the getter of {n} does not return a field")
        out[n] = marks[id(v)][0]
    if len(set(out.values())) != len(out):
        raise Unsupported("two options share a field")
    return o, out


def havoc(ctx):
    o, slot = slots(ctx)
    st = {n: fresh(ctx, n, k) for n, k in KIND.items()}
    for n, v in st.items():
        object.__setattr__(o, slot[n], v)
    inv(ctx, st, ctx.assume)
    return o, st


def read(ctx, o):
    return {n: ctx.interp.getattr(o, n) for n in KIND}


def same(ctx, a, b):
    return ctx.interp.eq(a, b) if not isinstance(a, Opaque) else a is b


def inv(ctx, st, do):
    m = st["matlab_compatible"]
    for n, v in MATLAB.items():
        c = same(ctx, st[n], v)
        do(z3.Implies(zb(m), zb(c)))


VALUES = ["bool", "int", "str", "pair", "tuple0", "tuple1", "tuple3", "strint", "intstr", "list", "none", "bytes", "float",
          "collection", "other"]


def value(ctx, vk):
    if vk == "bool":
        return ctx.bool("v")
    if vk == "int":
        return ctx.int("v")
    if vk == "str":
        return ctx.str("v")
    if vk == "pair":
        return (ctx.str("v0"), ctx.str("v1"))
    if vk == "tuple0":
        return ()
    if vk == "tuple1":
        return (ctx.str("v0"),)
    if vk == "tuple3":
        return (ctx.str("v0"), ctx.str("v1"), ctx.str("v2"))
    if vk == "strint":
        return (ctx.str("v0"), ctx.int("v1"))
    if vk == "intstr":
        return (ctx.int("v0"), ctx.str("v1"))
    if vk == "list":
        return [ctx.str("v0"), ctx.str("v1")]
    if vk == "none":
        return None
    if vk == "bytes":
        return Opaque("bytes", (bytes,), True)
    if vk == "float":
        return Opaque("float", (float,), True)
    if vk == "collection":
        from hdf5storage import MarshallerCollection

        return Opaque("collection", (MarshallerCollection,), True)
    return Opaque("other", (), True)


def accepts(kind, vk, v):
    """(condition under which the value is accepted, the value then taken)."""
    if kind in (B, "matlab"):
        return (vk == "bool"), v
    if isinstance(kind, tuple):
        return (z3.Or(*[v.e == k for k in kind]) if vk == "str" else False), v
    if kind == "str":
        return (vk == "str"), v
    if kind == "path":
        return (canon_ok(v.e), SStr(CANON(v.e))) if vk == "str" else (False, v)
    if kind == "pair":
        return (vk == "pair"), v
    if kind in ("nat", "level"):
        if vk == "int":
            return (z3.And(v.e >= 0, v.e <= 9) if kind == "level" else v.e >= 0), v
        if vk == "bool":  # bool is a kind of int
            return True, SInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
        return False, v
    if kind == "collection":
        return (vk == "collection"), v
    raise AssertionError(kind)


def eqz(ctx, a, b):
    """z3 equality of two option values (False if of different kinds)."""
    if isinstance(a, Model) or isinstance(b, Model):
        return z3.BoolVal(a is b)
    if isinstance(a, tuple) != isinstance(b, tuple):
        return z3.BoolVal(False)
    num = (SInt, SBool, bool, int)
    if isinstance(a, num) and isinstance(b, num):
        from pyvc.engine import zi

        return zi(a) == zi(b)
    return zb(ctx.interp.eq(a, b))


def proc_setter(name, vk):
    kind = KIND[name]

    def proc(ctx):
        install(ctx)
        it = ctx.interp
        o, old = havoc(ctx)
        v = value(ctx, vk)
        raised = None
        try:
            it.setattr(o, name, v)
        except Exception as e:  # noqa: BLE001
            raised = e
        new = read(ctx, o)
        ok, taken = accepts(kind, vk, v)
        ok = zb(ok)
        where = f"Options.{name}"
        if raised is not None:
            ctx.oblige(f"{where}:raises", z3.And(zb(isinstance(raised, (TypeError, ValueError))), z3.Not(ok)), repr(raised))
            for n in KIND:
                ctx.oblige(f"{where}:frame-on-error({n})", eqz(ctx, new[n], old[n]))
            ctx.cover("end")
            return
        ctx.oblige(f"{where}:ensures value", z3.If(ok, eqz(ctx, new[name], taken), eqz(ctx, new[name], old[name])), f"value {v!r}")
        if kind == "matlab":
            on = z3.And(ok, zb(v) if vk == "bool" else z3.BoolVal(False))
            for n in KIND:
                if n == name:
                    continue
                if n in MATLAB:
                    ctx.oblige(f"{where}:forces {n}", z3.If(on, eqz(ctx, new[n], MATLAB[n]), eqz(ctx, new[n], old[n])))
                else:
                    ctx.oblige(f"{where}:frame({n})", eqz(ctx, new[n], old[n]))
        else:
            for n in KIND:
                if n in (name, "matlab_compatible"):
                    continue
                ctx.oblige(f"{where}:frame({n})", eqz(ctx, new[n], old[n]))
            if name in MATLAB:
                off = z3.Not(eqz(ctx, new[name], MATLAB[name]))
                ctx.oblige(
                    f"{where}:clears MATLAB compatibility",
                    z3.If(off, z3.Not(zb(new["matlab_compatible"])), eqz(ctx, new["matlab_compatible"], old["matlab_compatible"])),
                )
            else:
                ctx.oblige(f"{where}:frame(matlab_compatible)", eqz(ctx, new["matlab_compatible"], old["matlab_compatible"]))
        inv(ctx, new, lambda c: ctx.oblige(f"{where}:invariant", c))
        ctx.cover("end")

    return proc


def proc_init(bad):
    """The constructor, each setter call replaced by its contract."""

    def proc(ctx):
        import hdf5storage as h

        install(ctx)
        it = ctx.interp
        _, slot = slots(ctx)
        args = {}
        for n, k in KIND.items():
            if n == bad:
                args[n] = Opaque("bad:" + n, (), True)
            else:
                args[n] = fresh(ctx, "arg_" + n, k)
                if k == "path":
                    ctx.assume(canon_ok(args[n].e))
        field = {n: slot[n] for n in KIND}

        def setprop(o, n, v):
            if n not in KIND or n == "marshaller_collection":
                return False
            d = vars(o)
            ok = not isinstance(v, Opaque)
            if KIND[n] == "path" and ok:
                v = SStr(CANON(v.e)) if isinstance(v, SStr) else v
            if ok:
                object.__setattr__(o, field[n], v)
            m = field["matlab_compatible"]
            if n == "matlab_compatible":
                if ok:
                    on = zb(v)
                    for k, req in MATLAB.items():
                        object.__setattr__(o, field[k], Ite(on, req, d[field[k]]))
            elif n in MATLAB:
                keep = eqz(ctx, d[field[n]], MATLAB[n])
                object.__setattr__(o, m, SBool(z3.And(zb(d[m]), keep)))
            return True

        it.hooks["setprop"] = setprop
        o = it.instantiate(h.Options, [], args)
        get = {n: vars(o).get(slot[n]) for n in KIND}
        on = zb(get["matlab_compatible"])
        where = "Options.__init__"
        want_on = zb(args["matlab_compatible"]) if bad != "matlab_compatible" else None
        if want_on is not None:
            ctx.oblige(f"{where}:MATLAB compatibility as given", on == want_on)
        for n in KIND:
            got = get[n]
            if n in ("matlab_compatible", bad):
                continue
            want = args[n] if KIND[n] != "path" else SStr(CANON(args[n].e))
            if n in MATLAB:
                ctx.oblige(f"{where}:{n}", z3.If(on, ieq(ctx, got, MATLAB[n]), ieq(ctx, got, want)))
            else:
                ctx.oblige(f"{where}:{n}", ieq(ctx, got, want))
        ctx.cover("end")

    return proc


class Ite(Model):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def ieq(ctx, got, want):
    if isinstance(got, Ite):
        return z3.If(got.c, ieq(ctx, got.a, want), ieq(ctx, got.b, want))
    return eqz(ctx, got, want)


def procedures(tier):
    out = []
    for n in KIND:
        for vk in VALUES:
            out.append((f"set {n} {vk}", proc_setter(n, vk), dict(must_cover={"end"})))
    for bad in [None] + list(KIND):
        out.append((f"init bad={bad}", proc_init(bad), dict(must_cover={"end"})))
    return out
