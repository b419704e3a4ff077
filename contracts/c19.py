"""C19: savemat and loadmat over the contract of File (C06, C21, C23), Options (C04) and unescape_path (C01)."""
import importlib

import z3

from contracts.filemodel import FileProxy, H5Error
from pyvc.engine import FocusDict, FocusSeq, Model, Opaque, PathEnd, SBool, SStr, Unsupported, zs

TRUSTED = [
    "File by its contract: reading gives what is stored or raises KeyError, items() gives every name in the root with its value",
    "Options(...) by its contract (C04); unescape_path by its contract (C01); scipy.io",
]


class Opt(Model):
    def __init__(self, args, kw):
        self.args, self.kw = args, kw

    def sym_isinstance(self, cls):
        return cls.__name__ == "Options"

    def sym_is(self, o):
        return self is o


class Scipy(Model):
    def __init__(self, log):
        self.log = log

    def savemat(self, *a, **k):
        self.log.append(("savemat", a, k))

    def loadmat(self, *a, **k):
        self.log.append(("loadmat", a, k))
        return self


class BytesName(Model):
    def __init__(self, ctx, e):
        self.ctx, self.e = ctx, e

    def sym_isinstance(self, cls):
        return issubclass(bytes, cls)

    def sym_bool(self):
        return True

    def endswith(self, x):
        if not isinstance(x, bytes):
            raise TypeError("endswith first arg must be bytes")
        return SBool(z3.SuffixOf(z3.StringVal(x.decode()), self.e))

    def sym_binop(self, op, o, refl):
        if op == "Add" and isinstance(o, bytes) and not refl:
            return BytesName(self.ctx, z3.Concat(self.e, z3.StringVal(o.decode())))
        return NotImplemented


class Target(Model):
    """The dict to load into."""

    def __init__(self):
        self.set = FocusDict()

    def sym_isinstance(self, cls):
        return issubclass(dict, cls)

    def sym_setitem(self, k, v):
        self.set.sym_setitem(k, v)

    def update(self, o=(), **k):
        self.set.update(o)

    def sym_bool(self):
        from pyvc.engine import current

        return current().bool("given dict not empty")


def setup(ctx):
    it = ctx.interp
    s = dict(log=[], files=[], raised=[], scipy=[], options=[])

    def Options(*a, **k):
        s["options"].append(Opt(a, k))
        return s["options"][-1]

    it.by_name["Options"] = Options
    it.models[importlib.import_module] = lambda n, *a: Scipy(s["scipy"])
    it.hooks["dict_factory"] = FocusDict
    return it, s


def names(ctx, kind):
    n = "n" if kind == "str" else "b"
    e = ctx.str(n)
    return e if kind == "str" else BytesName(ctx, e.e)


def expected(name, append):
    e = name.e
    if not append:
        return e
    return z3.If(z3.SuffixOf(z3.StringVal(".mat"), e), e, z3.Concat(e, z3.StringVal(".mat")))


def proc_savemat(kind, fmt, explicit):
    def proc(ctx):
        import hdf5storage as h

        it, s = setup(ctx)

        def errors(what):
            e = ctx.pick([None, H5Error], f"{what} raises")
            if e is not None:
                s["raised"].append(e(what))
                return s["raised"][-1]

        def File(*a, **k):
            s["files"].append(FileProxy(s["log"], errors, a, k))
            return s["files"][-1]

        it.by_name["File"] = File
        name, md = names(ctx, kind), Opaque("mdict", (dict,), True)
        append = True
        args = {}
        if explicit:
            append = ctx.choose(2, "appendmat") == 0
            args = dict(
                appendmat=append, oned_as=Opaque("oned_as", (str,), True), store_python_metadata=ctx.bool("metadata"),
                action_for_matlab_incompatible=Opaque("action", (str,), True), marshaller_collection=Opaque("collection", (), True),
                truncate_existing=ctx.bool("truncate"), truncate_invalid_matlab=ctx.bool("truncate_invalid"),
            )
        e = None
        try:
            it.call(h.savemat, name, md, format=fmt, **args)
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e = x
        where = "savemat"
        if fmt != "7.3":
            ctx.cover("ok")
            ctx.oblige(f"{where}:older formats are left to scipy", not s["files"] and len(s["scipy"]) == 1 and s["scipy"][0][0] == "savemat"
                       and s["scipy"][0][1][0] is name and s["scipy"][0][1][1] is md and e is None)
            return
        ctx.oblige(f"{where}:only the errors of the operation", (e is None) == (not s["raised"]), repr(e))
        ops = [x for x in s["log"] if x[0] not in ("open", "close")]
        ctx.oblige(f"{where}:one file is opened, and closed", len(s["files"]) == 1 and not s["files"][0].open)
        if len(s["files"]) != 1:
            return
        ctx.cover("ok")
        ctx.oblige(f"{where}:writes the variables, once", len(ops) == 1 and ops[0][0] == "writes" and ops[0][1] is md, str(ops))
        a, k = s["log"][0][1:]
        k = dict(zip(("filename", "writable", "truncate_existing", "truncate_invalid_matlab", "options"), a), **k)
        fn = k.get("filename")
        ctx.oblige(f"{where}:the .mat suffix is added iff asked for and missing",
                   fn.e == expected(name, append) if isinstance(fn, type(name)) else False)
        ctx.oblige(f"{where}:opened for writing", k.get("writable") is True)
        ctx.oblige(f"{where}:truncates iff asked to", k.get("truncate_existing", False) is args.get("truncate_existing", False)
                   and k.get("truncate_invalid_matlab", False) is args.get("truncate_invalid_matlab", False))
        o = k.get("options")
        if not isinstance(o, Opt):
            raise Unsupported("options given in another way")
        want = dict(matlab_compatible=True)
        for n in ("oned_as", "store_python_metadata", "action_for_matlab_incompatible", "marshaller_collection"):
            want[n] = args[n] if n in args else {"oned_as": "row", "store_python_metadata": True, "action_for_matlab_incompatible": "error",
                                                 "marshaller_collection": None}[n]
        defaults = dict(matlab_compatible=True, oned_as="row", store_python_metadata=True, action_for_matlab_incompatible="error",
                        marshaller_collection=None)
        got = dict(defaults, **o.kw)
        for n, v in want.items():
            ctx.oblige(f"{where}:option {n}", got[n] is v or (isinstance(v, (str, bool)) and got[n] == v))
        ctx.oblige(f"{where}:no other option", set(got) <= set(want), str(set(got) - set(want)))

    return proc


def proc_loadmat(kind, given, into, opt):
    def proc(ctx):
        import hdf5storage as h

        it, s = setup(ctx)
        injected = s["raised"]
        store = {}

        def elems():
            return [(g, Opaque(f"name {n}", (str,), True)) for g, n in ((True, "before"), (False, "focus"), (True, "after"))]

        inroot = elems()
        unesc = {}

        def unescape(k):
            if not any(k is x for _, x in inroot):
                raise Unsupported("unescaping of something else")
            return unesc.setdefault(id(k), Opaque(f"unescaped {k.label}", (str,), True))

        it.by_name["unescape_path"] = unescape

        class Proxy(FileProxy):
            def read(self, path="/"):
                s["log"].append(("read", path))
                if not self.open:
                    raise OSError("File is closed.")
                return self.value(path)

            __getitem__ = sym_getitem = read

            def value(self, k):
                if id(k) not in store:
                    how = ctx.pick(["there", "missing", "error"] if given else ["there", "error"], f"read of {k!r}")
                    store[id(k)] = (k, Opaque(f"value of {k!r}", (), True) if how == "there" else how)
                v = store[id(k)][1]
                if v == "missing" if isinstance(v, str) else False:
                    raise KeyError("missing")
                if isinstance(v, str):
                    injected.append(H5Error("read"))
                    raise injected[-1]
                return v

            def sym_contains(self, k):
                if id(k) not in store:
                    try:
                        self.value(k)
                    except KeyError:
                        return False
                    except H5Error:
                        pass
                return store[id(k)][1] != "missing" if isinstance(store[id(k)][1], str) else True

            __contains__ = sym_contains

            def keys(self):
                return FocusSeq(inroot)

            sym_iter = None

            def sym_list(self):
                return FocusSeq(inroot)

            def items(self):
                def take(seq):
                    return [(g, Pair(self, k)) for g, k in inroot]

                return FocusSeq([], on_take=take)

        class Pair(Model):
            def __init__(self, f, k):
                self.f, self.k = f, k

            def sym_iter(self):
                return iter((self.k, self.f.read(self.k)))

            def sym_getitem(self, i):
                return self.k if i == 0 else self.f.read(self.k)

        def File(*a, **k):
            if ctx.choose(2, "opening fails"):
                err = ctx.pick([OSError, H5Error], "opening error")("open")
                injected.append(err)
                s["openerr"] = err
                raise err
            s["files"].append(Proxy(s["log"], lambda w: None, a, k))
            return s["files"][-1]

        it.by_name["File"] = File
        name = names(ctx, kind)
        args = {}
        append = True
        if ctx.choose(2, "appendmat given"):
            append = args["appendmat"] = ctx.choose(2, "appendmat") == 0
        mc = None
        if opt == "options":
            args["options"] = Opt((), {})
        elif opt == "collection":
            mc = args["marshaller_collection"] = Opaque("collection", (), True)
        wanted = elems() if given else inroot
        if given:
            args["variable_names"] = FocusSeq(wanted)
        target = Target() if into else None
        if into:
            args["mdict"] = target
        r = e = None
        try:
            r = it.call(h.loadmat, name, **args)
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e = x
        where = "loadmat"
        if "openerr" in s:
            if isinstance(s["openerr"], OSError):
                ctx.cover("scipy")
                ok = e is None and len(s["scipy"]) == 1 and s["scipy"][0][0] == "loadmat"
                ctx.oblige(f"{where}:what is no HDF5 file is left to scipy", ok and isinstance(r, Scipy))
                if ok:
                    a, k = s["scipy"][0][1:]
                    k = dict(zip(("file_name", "mdict", "appendmat"), a), **k)
                    ctx.oblige(f"{where}:with the given arguments", k["file_name"] is name and k.get("mdict") is target
                               and k.get("appendmat", True) is append and k.get("variable_names") is args.get("variable_names"))
            else:
                ctx.oblige(f"{where}:errors pass", e is s["openerr"])
            return
        ctx.oblige(f"{where}:the file is closed", len(s["files"]) == 1 and not s["files"][0].open)
        a, k = s["log"][0][1:]
        k = dict(zip(("filename", "writable"), a), **k)
        fn = k.get("filename")
        ctx.oblige(f"{where}:the .mat suffix is added iff asked for and missing",
                   fn.e == expected(name, append) if isinstance(fn, type(name)) else False)
        ctx.oblige(f"{where}:opened read-only", k.get("writable", False) is False)
        o = k.get("options")
        if opt == "options":
            ctx.oblige(f"{where}:with the given options", o is args["options"])
        elif isinstance(o, Opt):
            ctx.oblige(f"{where}:with default options", set(o.kw) <= {"marshaller_collection", "matlab_compatible"} and not o.args
                       and o.kw.get("marshaller_collection") is mc and o.kw.get("matlab_compatible", True) is True)
        else:
            raise Unsupported("options given in another way")
        focus = wanted[1][1]
        if e is not None:
            ctx.oblige(f"{where}:only errors of reading", e in injected, repr(e))
            return
        ctx.cover("ok")
        out = target.set if into else r
        ctx.oblige(f"{where}:gives the dict it was given", (r is target) if into else isinstance(r, FocusDict))
        if not isinstance(out, FocusDict):
            return
        key = focus if given else unesc.get(id(focus))
        got = [v for _, (x, v) in out.elems if x is key]
        st = store.get(id(focus), (None, None))[1]
        if isinstance(st, Opaque):
            ctx.oblige(f"{where}:gives the variable that exists", len(got) == 1 and got[0] is st)
        elif st == "missing":
            ctx.oblige(f"{where}:leaves out the variable that does not exist", not got)
        elif st is None:
            ctx.oblige(f"{where}:every variable asked for is read", False)
        legal = [x for _, x in wanted] if given else list(unesc.values())
        ctx.oblige(f"{where}:gives no other variable", all(any(x is y for y in legal) for _, (x, _) in out.elems))

    return proc


def procedures(tier):
    out = []
    for kind in ("str", "bytes"):
        for fmt in ("7.3", "5", "4"):
            for explicit in (False, True):
                out.append((f"savemat {kind} {fmt} {'explicit' if explicit else 'default'}", proc_savemat(kind, fmt, explicit), dict(must_cover={"ok"})))
        for given in (False, True):
            for into in (False, True):
                for opt in ("none", "options", "collection"):
                    out.append((f"loadmat {kind} given={given} into={into} {opt}", proc_loadmat(kind, given, into, opt),
                                dict(must_cover={"ok", "scipy"})))
    return out
