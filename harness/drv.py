"""Drives the real code (/repo) and records what it does, as plain data.

Run with /opt/venv/bin/python:  drv.py COMMAND IN.ndjson OUT.ndjson
Every command maps one case (a JSON line) to one record (a JSON line); it
never judges anything, the specification does.
"""
import io, json, os, resource, signal, sys, traceback
import multiprocessing as mp

REPO = os.environ.get("HRDC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

CASE_TIMEOUT = 15


HUNG = [0]


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout("no result within %d s" % CASE_TIMEOUT)


def errtext(e):
    s = "%s: %s" % (type(e).__name__, e)
    return "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "?" for c in s)[:160]


def guarded(fn, *args, **kw):
    """(result, "") or (None, error text)."""
    if HUNG[0] >= 3:
        return None, "not run: several earlier cases hung"
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return fn(*args, **kw), ""
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if isinstance(e, CaseTimeout):
            HUNG[0] += 1
        return None, errtext(e)
    finally:
        signal.alarm(0)
        sys.stdout = so


# ---- words ---------------------------------------------------------------

def w2u(w):
    return (w[0] << 16) | w[1]


def w2s(w):
    v = w2u(w)
    return v - (1 << 32) if v & 0x80000000 else v


def i2w(i):
    i = int(i)
    if not 0 <= i < (1 << 32):
        raise ValueError("not an unsigned 32-bit value: %d" % i)
    return [i >> 16, i & 0xffff]


def s2w(i):
    i = int(i)
    if not -(1 << 31) <= i < (1 << 31):
        raise ValueError("not a signed 32-bit value: %d" % i)
    i &= 0xffffffff
    return [i >> 16, i & 0xffff]


# ---- trees ---------------------------------------------------------------

def build(es, ints=False, maker=False, own=False):
    """Descriptor object from visit events.  ints: write every constant as a
    plain integer.  own: as constants of one's own.  maker: only the function
    that makes one object."""
    from hrdc import descriptor as D
    from hrdc.usage import Usage, UsageRange
    from hrdc.stream import item
    from hrdc.util import NamedConstant

    def us(w):
        if not w:
            return None
        return NamedConstant("Own%x" % w2u(w), w2u(w)) if own else w2u(w) if ints else Usage.lookup(w2u(w))

    def way(n):
        return n if ints else {8: D.Value.Input, 9: D.Value.Output, 11: D.Value.Feature}[n]

    def kind(w):
        n = w2u(w)
        names = ["Physical", "Application", "Logical", "Report", "NamedArray", "UsageSwitch", "UsageModifier"]
        if own:
            return NamedConstant("Kind%d" % n, n)
        if ints or n >= len(names):
            return n
        return getattr(D.Collection, names[n])

    units = {int(v): v for v in vars(item.Unit).values() if type(v).__name__ == "NamedConstant" and int(v) != 6}

    def flags(n):
        """As a user writes them: constants, or-ed."""
        names = ["Constant", "Variable", "Relative", "Wrap", "NonLinear", "NoPreferred", "NullState", "Volatile", "BufferedBytes"]
        ns = [getattr(D.Value, x) for i, x in enumerate(names) if n >> i & 1]
        if len(ns) == 1 and n < 512:
            return ns[0]
        r = n & ~511
        for x in ns:
            r = r | x
        return r

    stack, root = [], None

    def add(x):
        nonlocal root
        if stack:
            stack[-1].append(x)
        elif root is None:
            root = x
        else:
            raise ValueError("two roots")

    def make(e, members=()):
        """The object of one event; e["raw"]: attributes given as they are."""
        k, raw = e["k"], e.get("raw", {})
        if k == "top":
            return D.TopLevel(*members)
        if k == "coll":
            return D.Collection(raw.get("kind", kind(e["kind"])), raw.get("usage", us(e["usage"])), *members)
        if k == "rep":
            return D.Report(raw.get("id", e["id"]), *members)
        if k == "pad":
            return D.Padding(raw["way"] if "way" in raw else way(e["way"]), raw.get("size", e["size"]))
        if k == "align":
            return D.Align(raw["way"] if "way" in raw else way(e["way"]), e["b"])
        kw = {}
        kw["flags"] = w2u(e["flags"]) if ints else flags(w2u(e["flags"]))
        kw["logicalMin"] = w2s(e["lmin"])
        # (of no effect when there is a named array)
        if (not e["na"] or (sum(e["usage"]) + e["size"]) % 3) and e["lmax"] != []:
            kw["logicalMax"] = w2s(e["lmax"])
        if e["nak"] == 2:
            (hi, a, b), = e["na"] or [[1, 2, 1]]
            lo, up = (hi << 16) | a, (hi << 16) | b
            kw["namedArray"] = UsageRange(lo, up) if ints else UsageRange(Usage.lookup(lo), Usage.lookup(up))
        elif e["nak"] == 1:
            kw["namedArray"] = [us([hi, i]) for hi, a, b in e["na"] for i in range(a, b + 1)]
        if e["pmin"] != []:
            kw["physicalMin"] = w2s(e["pmin"])
        if e["pmax"] != []:
            kw["physicalMax"] = w2s(e["pmax"])
        if e["unit"] != [0, 0]:
            kw["unit"] = NamedConstant("MyUnit", w2u(e["unit"])) if own else w2u(e["unit"]) if ints else units.get(w2u(e["unit"]), w2u(e["unit"]))
        if e["exp"] != [0, 0]:
            kw["unitExponent"] = w2s(e["exp"])
        if e["desig"] != [0, 0]:
            kw["designator"] = w2u(e["desig"])
        if e["str"] != [0, 0]:
            kw["string"] = w2u(e["str"])
        if e["count"] != 1:
            kw["count"] = e["count"]
        if e["align"] != -1:
            kw["alignment"] = e["align"]
        for n, arg in (("flags", "flags"), ("lmin", "logicalMin"), ("lmax", "logicalMax"), ("pmin", "physicalMin"), ("pmax", "physicalMax"),
                       ("unit", "unit"), ("exp", "unitExponent"), ("desig", "designator"), ("str", "string"), ("count", "count")):
            if n in raw:
                kw[arg] = raw[n]
        if "na" in raw:
            kw["namedArray"] = list(kw["namedArray"]) + [raw["na"]]
        return D.Value(raw["way"] if "way" in raw else way(e["way"]), raw["usage"] if "usage" in raw else us(e["usage"]),
                       raw.get("size", e["size"]), **kw)

    if maker:
        return make
    for e in es:
        if e["k"] == "end":
            stack.pop()
            continue
        x = make(e)
        add(x)
        if e["k"] in ("top", "coll", "rep"):
            stack.append(x)
    return root


def flatten(root):
    """Visit events of a descriptor object (the inverse of build)."""
    from hrdc import descriptor as D
    from hrdc.usage import UsageRange
    out = []

    def u(x):
        return [] if x is None else i2w(x)

    class V:
        def enter(self, e):
            if isinstance(e, D.Report):
                out.append({"k": "rep", "id": int(e.id)})
            elif isinstance(e, D.Collection):
                out.append({"k": "coll", "kind": i2w(e.kind), "usage": u(e.usage)})
            else:
                out.append({"k": "top"})

        def leave(self, e):
            out.append({"k": "end"})

        def element(self, e):
            if isinstance(e, D.Align):
                out.append({"k": "align", "way": int(e.way), "b": int(e.boundary)})
            elif isinstance(e, D.Padding):
                out.append({"k": "pad", "way": int(e.way), "size": int(e.size)})
            else:
                na, nak = [], 0
                if e.namedArray is not None and len(e.namedArray):
                    nak = 2 if isinstance(e.namedArray, UsageRange) else 1
                    for x in e.namedArray:
                        w = i2w(x)
                        if na and na[-1][0] == w[0] and na[-1][2] + 1 == w[1]:
                            na[-1][2] = w[1]
                        else:
                            na.append([w[0], w[1], w[1]])
                out.append({
                    "k": "val", "way": int(e.way),
                    "usage": [] if e.usage is None or int(e.usage) == 0 else i2w(e.usage),
                    "size": int(e.size), "flags": i2w(e.flags),
                    "lmin": s2w(e.logicalMin if e.logicalMin is not None else 0),
                    "lmax": [] if e.logicalMax is None else s2w(e.logicalMax),
                    "pmin": [] if e.physicalMin is None else s2w(e.physicalMin),
                    "pmax": [] if e.physicalMax is None else s2w(e.physicalMax),
                    "na": na, "nak": nak, "unit": i2w(e.unit), "exp": s2w(e.unitExponent),
                    "desig": i2w(e.designator), "str": i2w(e.string),
                    "count": int(e.count), "align": int(e.alignment)})
    root.accept(V())
    return out


# ---- pipelines -----------------------------------------------------------

def compile_tree(tree, optimize):
    from hrdc.stream.formatter import Formatter
    from hrdc.stream.optimizer import Optimizer
    from hrdc.descriptor.streamer import Streamer
    buf = io.BytesIO()
    out = Formatter.get("binary")(buf)
    if optimize:
        out = Optimizer.new(out)
    tree.accept(Streamer(out))
    out.close()
    return list(buf.getvalue())


def cmd_compile(c):
    """Compile a tree, plain and optimised."""
    plain, perr = guarded(lambda: compile_tree(build(c["es"]), False))
    opt, oerr = guarded(lambda: compile_tree(build(c["es"]), True))
    return {"es": c["es"], "plain": plain or [], "perr": perr, "opt": opt or [], "oerr": oerr}


def cmd_reoptimise(c):
    """Compile a tree (or convert a stream) optimised, then optimise the
    result again."""
    if "its" in c:
        opt, oerr = guarded(lambda: list(convert("binary", "binary", enc(c["its"]), True)))
    else:
        opt, oerr = guarded(lambda: compile_tree(build(c["es"]), True))
    again, aerr = guarded(lambda: list(convert("binary", "binary", bytes(opt or []), True)))
    return {"es": c.get("es", []), "its": c.get("its", []), "opt": opt or [], "oerr": oerr, "again": again or [], "aerr": aerr}


# ---- item streams --------------------------------------------------------

def enc(its):
    """Bytes of a generated stream (items <<kind, tag, hi, lo>>): shortest
    payload, none for End Collection, Push and Pop.  Independent of the code
    under test."""
    out = bytearray()
    for kind, tag, hi, lo in its:
        if (kind, tag) in ((0, 12), (1, 10), (1, 11)):
            out.append(tag << 4 | kind << 2)
            continue
        v = hi << 16 | lo
        if kind == 1 and 1 <= tag <= 5:
            sv = v - (1 << 32) if v >> 31 else v
            n = 1 if -128 <= sv < 128 else 2 if -32768 <= sv < 32768 else 4
        else:
            n = 1 if v < 256 else 2 if v < 65536 else 4
        out.append(tag << 4 | kind << 2 | {1: 1, 2: 2, 4: 3}[n])
        out += v.to_bytes(4, "little")[:n]
    return bytes(out)


def split_items(b):
    """Byte chunks, one per item."""
    res, i = [], 0
    while i < len(b):
        n = (0, 1, 2, 4)[b[i] & 3]
        res.append(bytes(b[i:i + 1 + n]))
        i += 1 + n
    return res


def optimize_stream(its, lo, hi, direct):
    from hrdc.stream.formatter import Formatter
    from hrdc.stream.parser import Parser
    from hrdc.stream.optimizer import Optimizer
    from hrdc.stream import item
    buf = io.BytesIO()
    out = Optimizer.new(Formatter.get("binary")(buf), lo, hi)
    blob = enc(its)
    if direct:
        for c in split_items(blob):
            out.append(item.Item.parse(c))
        out.close()
    else:
        Parser.get("binary")(io.BytesIO(blob), out).read()
    return list(buf.getvalue())


def cmd_optstream(c):
    """Optimise an item stream with several pass selections."""
    outs = []
    for k, (lo, hi) in enumerate(c["rs"]):
        b, err = guarded(optimize_stream, c["its"], lo, hi, (c["id"] + k) % 3 == 2)
        for o in outs:
            if o["b"] == (b or []) and o["err"] == err:
                o["rs"].append([lo, hi])
                break
        else:
            outs.append({"rs": [[lo, hi]], "b": b or [], "err": err})
    return {"its": c["its"], "outs": outs}


# ---- single items ----------------------------------------------------------

def num(n):
    v = (n[1] << 32) | (n[2] << 16) | n[3]
    return -v if n[0] else v


def formatted(fmt, i):
    """Bytes a formatter writes for an item, read back from its text without
    the code under test."""
    from hrdc.stream.formatter import Formatter
    out = io.BytesIO() if fmt == "binary" else io.StringIO()
    Formatter.get(fmt)(out).append(i)
    return text_bytes(fmt, out.getvalue())


def text_bytes(fmt, t):
    if fmt == "binary":
        return list(t)
    if fmt == "code":
        t = "\n".join(l.split("//", 1)[0] for l in t.split("\n"))
        t = t.replace(",", " ")
    return [int(x, 16) for x in t.split()]


def cmd_encode(c):
    """Encode values of one item type, in several ways."""
    def cls():
        from hrdc.stream import item
        return item.Item.itemclass(c["kind"], c["tag"])

    def wrapped(v):
        from hrdc.util import NamedConstant
        return NamedConstant("x", v)
    res = []
    for n in c["ns"]:
        v = num(n)
        ways = [("bytes", lambda: list(cls()(v).bytes())),
                ("bytes of named constant", lambda: list(cls()(wrapped(v)).bytes()))]
        if not res or len(res) % 7 == 0 or v in (0, 127, 128, 255, 256, 65535, 65536, -128, -129):
            ways += [(f, lambda f=f: formatted(f, cls()(v))) for f in ("binary", "hex", "code")]
        outs = []
        for how, fn in ways:
            b, err = guarded(fn)
            o = {"how": how, "b": b or [], "err": err}
            if not any(p["b"] == o["b"] and p["err"] == err for p in outs):
                outs.append(o)
        res.append(outs)
    return dict(c, res=res)


def cmd_compare(c):
    """Compare an item with others, made in different ways."""
    from hrdc.util import NamedConstant
    from hrdc.stream import item

    def make(it, how):
        cls = item.Item.itemclass(it[0], it[1])
        u = it[2] << 16 | it[3]
        v = u - (1 << 32) if it[0] == 1 and 1 <= it[1] <= 5 and u >> 31 else u
        if how == 0 or cls in (item.EndCollection, item.Push, item.Pop):
            return cls(v)
        if how == 1:
            return item.Item.parse(bytes([it[1] << 4 | it[0] << 2 | 3]) + u.to_bytes(4, "little"))
        return cls(NamedConstant("x", v))

    def run():
        res = []
        for i, b in enumerate(c["bs"]):
            x, y = make(c["a"], i % 3), make(b, i // 3 % 3)
            res.append([int(bool(z)) for z in (x == y, y == x, x != y, x < y, y < x)])
        x = make(c["a"], 0)
        return {"res": res, "alien": [int(bool(x == o)) for o in (None, int(x.value), str(x), x.bytes(), object())] + [int(x != None)]}
    r, err = guarded(run)
    return dict(c, err=err, **(r or {"res": [], "alien": []}))


def collector():
    from hrdc.stream import Stream

    class Collector(Stream):
        def __init__(self):
            self.its, self.neg, self.closed = [], [], 0

        def append(self, i):
            v = int(i.value)
            if not -(1 << 31) <= v < (1 << 32):
                raise ValueError("not a 32-bit value: %d" % v)
            self.its.append([int(i.kind), int(i.tag), (v >> 16) & 0xffff, v & 0xffff])
            self.neg.append(int(v < 0))

        def close(self):
            self.closed += 1
    return Collector()


def cmd_decode(c):
    """Decode byte strings, through each parser and item by item."""
    from_text = {"binary": lambda b: io.BytesIO(bytes(b)),
                 "hex": lambda b: io.StringIO(" ".join("%02x" % x for x in b)),
                 "code": lambda b: io.StringIO(", ".join("0x%02x" % x for x in b))}

    def parse(fmt, b):
        from hrdc.stream.parser import Parser
        k = collector()
        Parser.get(fmt)(from_text[fmt](b), k).read()
        return [k.its, k.neg]

    def direct(b):
        from hrdc.stream import item
        k = collector()
        for chunk in split_items(b):
            k.append(item.Item.parse(chunk))
        return [k.its, k.neg]
    res = []
    for b in c["bs"]:
        outs = []
        for how, fn in [(f, lambda f=f: parse(f, b)) for f in from_text] + [("item", lambda: direct(b))]:
            r, err = guarded(fn)
            o = {"how": how, "its": r[0] if r else [], "neg": r[1] if r else [], "err": err}
            if not any(p["its"] == o["its"] and p["neg"] == o["neg"] and (p["err"] == "") == (err == "") for p in outs):
                outs.append(o)
        res.append(outs)
    return dict(c, res=res)


# ---- formats -----------------------------------------------------------------

FORMATS = ("binary", "hex", "code")


def convert(src, dst, data, optimize=False):
    """One conversion with the library; data and result as bytes or text."""
    from hrdc.stream.formatter import Formatter
    from hrdc.stream.parser import Parser
    from hrdc.stream.optimizer import Optimizer
    inp = io.BytesIO(data) if src == "binary" else io.StringIO(data)
    out = io.BytesIO() if dst == "binary" else io.StringIO()
    s = Formatter.get(dst)(out)
    if optimize:
        s = Optimizer.new(s)
    Parser.get(src)(inp, s).read()
    return out.getvalue()


def render(fmt, b):
    if fmt == "binary":
        return bytes(b)
    return (" " if fmt == "hex" else ", ").join(("%02x" if fmt == "hex" else "0x%02x") % x for x in b)


def codes(t):
    return list(t) if isinstance(t, bytes) else [ord(x) for x in t]


def cmd_convert(c):
    """Convert between every two formats, then every result again."""
    texts, errs = {}, []

    def conv(a, b, data, via):
        t, err = guarded(convert, a, b, data)
        if err:
            errs.append(via + ": " + err)
            return None
        new = (b, t) not in texts
        texts.setdefault((b, t), []).append(via)
        return t if new else None
    b = c["b"] if "b" in c else list(enc(c["its"]))
    first = []
    for src in FORMATS:
        for dst in FORMATS:
            via = src + ">" + dst
            t = conv(src, dst, render(src, b), via)
            if t is not None:
                first.append((dst, t, via))
    for src, t, via in first:
        for dst in FORMATS:
            conv(src, dst, t, via + ">" + dst)
    return {"b": b, "errs": errs, "texts": [{"fmt": f, "t": codes(t), "via": v} for (f, t), v in texts.items()]}


def cmd_readtext(c):
    from_codes = "".join(map(chr, c["t"]))

    def run():
        from hrdc.stream.parser import Parser
        k = collector()
        Parser.get(c["fmt"])(io.StringIO(from_codes), k).read()
        return k.its
    its, err = guarded(run)
    return {"fmt": c["fmt"], "t": c["t"], "its": its or [], "err": err}


# ---- decompiling -------------------------------------------------------------

def decompile(data):
    from hrdc.stream.parser import Parser
    from hrdc.descriptor.extractor import Extractor
    x = Extractor()
    Parser.get("binary")(io.BytesIO(bytes(data)), x).read()
    return x.root


def cmd_decompile(c):
    es, err = guarded(lambda: flatten(decompile(enc(c["its"]))))
    return {"its": c["its"], "es": es or [], "err": err}


# ---- named arrays --------------------------------------------------------------

def cmd_named(c):
    """Compile a tree, also with every UsageRange written as a list and
    every list of consecutive usages as a UsageRange; decompile the result."""
    def variant(nak):
        es = [dict(e) for e in c["es"]]
        for e in es:
            if e["k"] == "val" and e["nak"] and len(e["na"]) == 1:
                e["nak"] = nak
        return es
    plain, perr = guarded(lambda: compile_tree(build(c["es"]), False))
    opt, oerr = guarded(lambda: compile_tree(build(c["es"]), True))
    alt = []
    for nak in (1, 2):
        for o in (False, True):
            b, err = guarded(lambda: compile_tree(build(variant(nak), ints=c["id"] % 2 == 1), o))
            alt.append({"b": b or [], "err": err, "o": int(o)})
    es2, derr = guarded(lambda: flatten(decompile(plain))) if not perr else ([], "")
    return {"k": "tree", "es": c["es"], "plain": plain or [], "perr": perr, "opt": opt or [], "oerr": oerr, "alt": alt,
            "es2": es2 or [], "derr": derr}


def cmd_range(c):
    """A UsageRange and the list of its usages, used alike."""
    def words(x):
        return [i2w(u) for u in x]

    def make():
        from hrdc.usage import Usage, UsageRange
        if c["how"] == "array":
            return UsageRange.from_array([Usage.lookup(v) for v in range(w2u(c["lo"]), w2u(c["hi"]) + 1)])
        f = int if c["how"] == "int" else Usage.lookup
        return UsageRange(f(w2u(c["lo"])), f(w2u(c["hi"])))

    def at(i):
        try:
            return i2w(make()[i])
        except IndexError:
            return []
    lo, hi = w2u(c["lo"]), w2u(c["hi"])
    ask = [i2w(u) for u in (lo, hi, max(lo - 1, 0), min(hi + 1, 0xffffffff), (lo + hi) // 2)]
    r, err = guarded(lambda: (words(make()), len(make()), words(list(reversed(make()))), [at(i) for i in c["ix"]],
                              [words(make()[a:b:k]) for a, b, k in c["sl"]], bool(make()), [w2u(w) in make() for w in ask]))
    r = r or ([], 0, [], [], [], False, [])
    return dict(c, k="range", iter=r[0], n=r[1], rev=r[2], at=r[3], slices=r[4], true=r[5], ask=ask, has=r[6], err=err)


# ---- scripts -----------------------------------------------------------------

def dump_text(tree):
    from hrdc.descriptor.dumper import Dumper
    out = io.StringIO()
    tree.accept(Dumper(out))
    return out.getvalue()


def run_script(text):
    ns = {"__name__": "generated"}
    exec(compile(text, "generated.py", "exec"), ns)
    return ns


def script_usages(text, ns):
    """How usages are written in a script: [text ("#": a number), value]."""
    import ast
    exprs = []
    for node in ast.walk(ast.parse(text)):
        if not isinstance(node, ast.Call) or not isinstance(node.func, ast.Name):
            continue
        kw = {k.arg: k.value for k in node.keywords}
        f = node.func.id
        if f in ("Collection", "Value"):
            exprs.append(kw["usage"] if "usage" in kw else node.args[1] if len(node.args) > 1 else None)
            if isinstance(kw.get("namedArray"), (ast.List, ast.Tuple)):
                exprs += kw["namedArray"].elts
        elif f == "UsageRange":
            exprs += node.args
    res = []
    for e in exprs:
        if e is None or (isinstance(e, ast.Constant) and e.value is None):
            continue
        v = eval(compile(ast.Expression(e), "usage", "eval"), ns)
        x = ["#" if isinstance(e, ast.Constant) and type(e.value) is int else ast.unparse(e), i2w(v)]
        if x not in res:
            res.append(x)
    return res


def cmd_dump(c):
    """Generate the script of a tree (given, or decompiled), run it, compile
    both."""
    empty = {"derr": "", "es": [], "plain": [], "opt": [], "perr": "", "err": "", "es2": [], "plain2": [], "opt2": [], "us": []}

    def source():
        if "its" in c:
            return decompile(enc(c["its"]))
        if c["id"] % 5 == 4:
            import hrdc.usage.arcade
        return build(c["es"], ints=c["id"] % 3 == 1)

    def original(t):
        return flatten(t), compile_tree(t, False), compile_tree(t, True)

    def script(t):
        text = dump_text(t)
        ns = run_script(text)
        t2 = ns["descriptor"]
        return flatten(t2), compile_tree(t2, False), compile_tree(t2, True), script_usages(text, ns)
    t, derr = guarded(source)
    if derr:
        return dict(empty, derr=derr)
    r1, perr = guarded(original, t)
    r2, err = guarded(script, t)
    es, plain, opt = r1 or ([], [], [])
    es2, plain2, opt2, us = r2 or ([], [], [], [])
    return dict(empty, es=es, plain=plain, opt=opt, perr=perr, err=err, es2=es2, plain2=plain2, opt2=opt2, us=us)


# ---- usages and constants ------------------------------------------------------

def usage_namespace():
    ns = {}
    exec("from hrdc.usage import *", ns)
    return ns


def cmd_lookup(c):
    ns = usage_namespace()

    def one(w):
        from hrdc.usage import Usage
        v = w2u(w)
        u = Usage.lookup(v)
        p, i = u.split()
        n = Usage.inpage(v >> 16, v & 0xffff)
        return {"w": i2w(u), "t": str(u), "ew": i2w(eval(str(u), dict(ns))), "pw": i2w(p), "pn": str(p), "uw": i2w(i), "un": str(i),
                "iw": i2w(n), "in": str(n), "lw": i2w(Usage.lookup(u)), "pgw": i2w(Usage.page(v >> 16)), "err": ""}
    res = []
    for w in c["ws"]:
        r, err = guarded(one, w)
        res.append(r if r is not None else {"err": err})
    return {"k": "lookup", "ws": c["ws"], "res": res}


def usage_kinds(u):
    """Names of its usage types, asked with the usage and with its number."""
    from hrdc.usage import usage
    types = {k: v for k, v in vars(usage).items() if isinstance(v, usage.UsageType)}
    return sorted(k if v.test(u) and v.test(int(u)) else k + " either way" for k, v in types.items() if v.test(u) or v.test(int(u)))


def cmd_constants(c):
    def module():
        import importlib
        from hrdc.usage import Usage
        m = importlib.import_module("hrdc.usage." + c["mod"])
        return [[k, i2w(v), usage_kinds(v), str(v)] for k, v in vars(m).items() if isinstance(v, Usage)]

    def numbered():
        import importlib
        m = importlib.import_module("hrdc.usage." + c["mod"])
        f = m.Button if c["mod"] == "button" else m.Ordinal
        return [[n, i2w(f(n)), usage_kinds(f(n)), str(f(n))] for n in c["ns"]]

    def tags():
        from hrdc.stream import item
        base = [item.MainItem, item.GlobalItem, item.LocalItem]
        res = []
        for n, x in vars(item).items():
            if isinstance(x, type) and issubclass(x, item.Item) and hasattr(x, "tag"):
                kind = int(x.kind)
                got = item.Item.itemclass(kind, int(x.tag))
                k = getattr(base[kind], n, None)
                res.append([n, kind, int(x.tag), int(k) if k is not None else int(x.tag), got.__name__])
        return res

    def pairs(cls):
        return [[k, int(v)] for b in reversed(cls.__mro__) for k, v in vars(b).items() if type(v).__name__ == "NamedConstant"]

    def kinds():
        from hrdc.stream import item
        from hrdc import descriptor
        if c.get("api"):
            return pairs(descriptor.Collection)
        return [x for x in pairs(item.Collection) if x[0] != "Collection"]

    def flags():
        from hrdc.stream import item
        from hrdc import descriptor
        return pairs(descriptor.Value if c.get("api") else item.DataItem)
    r, err = guarded({"module": module, "numbered": numbered, "tags": tags, "kinds": kinds, "flags": flags, "ways": flags}[c["k"]])
    return dict(c, cs=r or [], err=err)


# ---- units -----------------------------------------------------------------------

def cmd_units(c):
    from hrdc import descriptor as D
    from hrdc.usage import Usage
    if c.get("k") == "known":
        cs, err = guarded(lambda: [[k, i2w(v)] for k, v in vars(D.Unit).items() if type(v).__name__ == "NamedConstant"])
        return {"k": "known", "cs": cs or [], "err": err}
    dims = ["length", "mass", "time", "temperature", "current", "luminousintensity"]

    def compose(u, how):
        sysname, exps = u
        U = D.Unit
        s = 0 if sysname == "None" else getattr(U, sysname)
        ds = [getattr(U, n)(x) for n, x in zip(dims, exps) if x or how == 2]
        if how == 0:
            r = s
            for x in ds:
                r = r | x
        elif how == 1:
            r = 0
            for x in reversed(ds):
                r = x | r
            r = r | s
        else:
            r = sum(ds)
            r = s + r
        return r
    got, vals = [], []
    for u in c["us"]:
        g = []
        for how in (0, 1, 2):
            w, err = guarded(compose, u, how)
            g.append({"w": i2w(w) if not err else [], "err": err})
        got.append(g)
        if all(-8 <= x <= 7 for x in u[1]):
            vals.append(u)

    def descriptor():
        t = D.Collection(D.Collection.Application, Usage.lookup(0x10002))
        for i, u in enumerate(vals):
            t.append(D.Value(D.Value.Input, Usage.lookup(0x10030 + i % 5), 8, logicalMin=0, logicalMax=i % 3, unit=compose(u, i % 2)))
        plain = compile_tree(t, False)
        opt = compile_tree(t, True)
        t2 = decompile(opt)
        t3 = run_script(dump_text(t2))["descriptor"]
        return plain, opt, flatten(t2), flatten(t3)
    r, err = guarded(descriptor) if vals else (None, "")
    plain, opt, es2, es3 = r or ([], [], [], [])
    return {"k": "units", "us": c["us"], "got": got, "err": err, "plain": plain, "opt": opt, "es2": es2, "es3": es3}


# ---- listings ----------------------------------------------------------------------

def listing_lines(t):
    """Lines of a code listing: bytes, spaces before the comment's text, item
    name, argument: [] none, ["t", text] or ["n", negative, magnitude]."""
    import re
    res = []
    for line in t.split("\n"):
        if not line.strip():
            continue
        code, sep, comment = line.partition("//")
        try:
            b = [int(x, 16) for x in code.split(",") if x.strip()]
        except ValueError:
            b = []
        text = comment.strip()
        m = re.match(r"(\w+)(?:\s*\((.*)\))?$", text)
        name, arg = (m.group(1), m.group(2)) if m else (text[:60], None)
        a = []
        if arg is not None:
            n = re.match(r"(-?)(0x[0-9a-fA-F]+|[0-9]+)$", arg)
            if n and int(n.group(2), 0) < 1 << 32:
                v = int(n.group(2), 0)
                a = ["n", 1 if n.group(1) and v else 0, [v >> 16, v & 0xffff]]
            else:
                a = ["t", "".join(c if 32 <= ord(c) < 127 else "?" for c in arg)]
        res.append({"b": b, "i": len(comment) - len(comment.lstrip()), "n": name, "a": a, "c": 1 if sep else 0})
    return res


def code_listing(feed, optimize):
    """feed(stream) through the code formatter."""
    from hrdc.stream.formatter import Formatter
    from hrdc.stream.optimizer import Optimizer
    out = io.StringIO()
    s = Formatter.get("code")(out)
    if optimize:
        s = Optimizer.new(s)
    feed(s)
    return listing_lines(out.getvalue())


def cmd_listing(c):
    def feed(s):
        if "its" in c:
            from hrdc.stream.parser import Parser
            Parser.get("binary")(io.BytesIO(enc(c["its"])), s).read()
        else:
            from hrdc.descriptor.streamer import Streamer
            build(c["es"], ints=c["id"] % 3 == 1).accept(Streamer(s))
            s.close()
    import warnings
    warnings.simplefilter("ignore")
    outs = []
    for how, o in (("plain", False), ("optimised", True)):
        ls, err = guarded(code_listing, feed, o)
        outs.append({"how": how, "lines": ls or [], "err": err})
    return {"its": c.get("its", []), "wf": int("its" in c), "outs": outs if c.get("opt", 1) else outs[:1]}


# ---- symbolic constants ----------------------------------------------------------------

def cmd_const(c):
    import operator as op
    from hrdc import descriptor as D
    from hrdc.stream import item
    from hrdc.usage import Usage
    M = 1 << 96

    def wide(v):
        v = int(v)
        if not -(M >> 1) <= v < M >> 1:
            return [-1]
        v %= M
        return [v >> 8 * i & 255 for i in range(12)]

    def unwide(b):
        v = sum(x << 8 * i for i, x in enumerate(b))
        return v - M if v >= M >> 1 else v

    def const(x):
        cls, name = x[0], x[1]
        if cls in ("flag", "way"):
            return getattr(D.Value, name)
        if cls == "kind":
            return getattr(D.Collection, name)
        if cls == "type":
            return getattr(item.Item, name)
        if cls == "tag":
            return next(getattr(k, name) for k in (item.MainItem, item.GlobalItem, item.LocalItem) if name in vars(k))
        if cls in ("unit", "system"):
            return getattr(D.Unit, name)
        return Usage.lookup(w2u(x[2]))

    def result(f, a, b):
        try:
            r = f(a, b)
        except (TypeError, ValueError):
            return []
        if isinstance(r, bool):
            return [int(r)]
        return wide(r)
    ops = {"add": op.add, "mul": op.mul, "and": op.and_, "or": op.or_, "shl": op.lshift, "shr": op.rshift,
           "eq": op.eq, "ne": op.ne, "lt": op.lt, "gt": op.gt, "le": op.le, "ge": op.ge}

    def run():
        a = const(c["c"])
        res = []
        for b in [unwide(x) for x in c["ints"]] + [const(x) for x in c["consts"]]:
            row = [["in", [int(a in {b: 1} and b in {a})]]] if int(a) == int(b) else [["in", [int(a in {b: 1} or b in {a})]]]
            for n, f in ops.items():
                if n in ("shl", "shr"):
                    if 0 <= int(b) <= 40:
                        row.append([n, result(f, a, b)])
                    if 0 <= int(a) <= 40:
                        row.append(["r" + n, result(f, b, a)])
                else:
                    row += [[n, result(f, a, b)], ["r" + n, result(f, b, a)]]
            res.append(row)
        others = {"nothing": None, "text": str(int(a)), "name": str(a), "list": [int(a)], "object": object()}
        alien = [[n, sum([result(f, x, y) for f in (op.eq, op.ne) for x, y in ((a, b), (b, a))] + [[int(a in [b])]], [])]
                 for n, b in ((n, others[n]) for n in c["others"])]
        return {"text": str(a), "int": wide(int(a)), "hash": wide(hash(a)), "inv": wide(~a), "res": res, "alien": alien}
    r, err = guarded(run)
    return dict(c, k="const", err=err, **(r or {"text": "", "int": [], "hash": [], "inv": [], "res": [], "alien": []}))


def cmd_intree(c):
    """A tree written with constants and with plain integers."""
    def both(ints):
        t = build(c["es"], ints=ints)
        return compile_tree(t, False), compile_tree(t, True)
    a, err = guarded(both, False)
    b, err2 = guarded(both, True)
    a, b = a or ([], []), b or ([], [])
    return {"k": "tree", "plain": a[0], "opt": a[1], "plain2": b[0], "opt2": b[1], "err": err, "err2": err2}


# ---- the test helper -----------------------------------------------------------------

def mutate(b, m):
    op, k, v = m
    n = len(b)
    k = k % n if n else 0
    if op == "same" or (n == 0 and op not in ("extend", "front", "empty", "twice")):
        return list(b)
    return {"empty": lambda: [], "over": lambda: b[:k] + [b[k] + 256] + b[k + 1:], "extend": lambda: b + [v] * (m[1] % 3 + 1), "front": lambda: [v] + b, "twice": lambda: b + b,
            "change": lambda: b[:k] + [(b[k] + v) % 256] + b[k + 1:], "flip": lambda: b[:k] + [b[k] ^ 1] + b[k + 1:],
            "last": lambda: b[:-1] + [(b[-1] + v) % 256], "drop": lambda: b[:k] + b[k + 1:], "dup": lambda: b[:k + 1] + b[k:],
            "insert": lambda: b[:k] + [v] + b[k:],
            "swap": lambda: b[:k] + [b[k + 1], b[k]] + b[k + 2:] if k + 1 < n else list(b),
            "turn": lambda: b[k:] + b[:k], "cut": lambda: b[:k], "tail": lambda: b[k:]}[op]()


def cmd_expect(c):
    """Tests with the expected-bytes helper, on right and wrong texts."""
    import unittest
    from hrdc.descriptor.test import descriptor_expected
    opt, err = guarded(lambda: compile_tree(build(c["es"]), True))
    runs = []
    for m, gaps in zip(c["muts"], c["gaps"]) if not err else []:
        gs = ["".join(map(chr, g)) for g in gaps]
        b = mutate(opt, m)
        text = gs[0]
        for i, x in enumerate(b):
            text += ("0x%02X" if c["up"] and i % 2 else "0x%02x") % x + gs[(2 * i) % len(gs)] \
                + ("," if i + 1 < len(b) or c["last"] else "") + gs[(2 * i + 1) % len(gs)]
        if c["id"] % 2 and text.endswith("\n"):
            text = text[:-1]

        def run():
            class T(unittest.TestCase):
                def test(self):
                    descriptor_expected(self, build(c["es"], ints=c["id"] % 2 == 1), text)
            res = unittest.TestResult()
            T("test").run(res)
            why = "".join(x[1].strip().split("\n")[-1] for x in res.failures + res.errors)
            return res.wasSuccessful() and res.testsRun == 1 and not res.skipped, errtext(Exception(why))
        r, e = guarded(run)
        ok, why = r or (False, e)
        runs.append({"t": codes(text), "ok": ok, "err": why})
    return {"opt": opt or [], "err": err, "muts": c["muts"], "runs": runs}


# ---- command lines ---------------------------------------------------------------------

SCRIPT = """import sys, json
sys.path[:0] = [%r, %r]
from drv import build
from hrdc.usage import *
from hrdc.descriptor import *
descriptor = build(json.loads(%r))
if __name__ == "__main__":
    compile_main(descriptor)
"""


def cmd_cli(c):
    """Run a tool as a process; the library's results for the same input."""
    import shutil, subprocess, tempfile
    tool, mal = c["tool"], c["mal"]
    d = tempfile.mkdtemp(prefix="cli-", dir=os.getcwd())
    try:
        inp, outp = os.path.join(d, ("in.txt", "a b.c")[c["id"] % 2]), os.path.join(d, ("out", "o.bin")[c["id"] // 2 % 2])
        lib, data = {}, b""

        def hexed(t):
            return (t if isinstance(t, bytes) else t.encode("ascii")).hex()
        if tool == "script":
            tree, err = guarded(build, c["es"])
            for f in FORMATS:
                lib[f] = []
                for o in (False, True):
                    def comp(f=f, o=o):
                        from hrdc.stream.formatter import Formatter
                        from hrdc.stream.optimizer import Optimizer
                        from hrdc.descriptor.streamer import Streamer
                        buf = io.BytesIO() if f == "binary" else io.StringIO()
                        s = Formatter.get(f)(buf)
                        if o:
                            s = Optimizer.new(s)
                        build(c["es"]).accept(Streamer(s))
                        s.close()
                        return hexed(buf.getvalue())
                    t, e = guarded(comp)
                    lib[f].append("error" if e else t)
            script = os.path.join(d, "descr.py")
            with open(script, "w") as f:
                if c["id"] % 3:
                    f.write(SCRIPT % (REPO, os.path.dirname(os.path.abspath(__file__)), json.dumps(c["es"])))
                else:
                    t, e = guarded(lambda: dump_text(build(c["es"])))
                    f.write(t if not e else "raise SystemExit(1)")
                    if e:
                        lib = {f: ["error", "error"] for f in FORMATS}
            base = [sys.executable, script]
        else:
            b = list(enc(c["its"]))
            text = render(c["infmt"] if c["infmt"] in FORMATS else "hex", b)
            if mal in ("truncated", "reserved"):
                b += [0x27, 1, 0] if mal == "truncated" else [0x31, 1] if c["id"] % 2 else [0xfe, 0, 0]
                text = render(c["infmt"], b)
            elif mal == "token":
                if c["infmt"] == "code":
                    text += ", " + ("0xzz", "0x1ff", "foo")[c["id"] % 3]
                else:
                    text = render(c["infmt"], b + [0x36, 9])
            for f in FORMATS if tool == "converter" else ():
                lib[f] = []
                for o in (False, True):
                    t, e = ("", "not asked for") if o and c.get("plain") else guarded(convert, c["infmt"], f, text, o)
                    lib[f].append("error" if e else hexed(t))
            if tool == "extractor":
                def dec():
                    from hrdc.stream.parser import Parser
                    from hrdc.descriptor.extractor import Extractor
                    x = Extractor()
                    Parser.get(c["infmt"])(io.BytesIO(text) if c["infmt"] == "binary" else io.StringIO(text), x).read()
                    return hexed(dump_text(x.root))
                t, e = guarded(dec)
                lib["script"] = ["error" if e else t] * 2
            data = text if isinstance(text, bytes) else text.encode()
            base = [sys.executable, "-m", "hrdc.converter" if tool == "converter" else "hrdc.descriptor.extractor"]
        if mal != "nofile":
            with open(inp, "wb") as f:
                f.write(data)
        if c["old"]:
            with open(outp, "wb") as f:
                f.write(b"old contents " * 2000)
        argv = [{"IN": inp, "OUT": outp}.get(x, x) for x in c["argv"]]
        if mal == "nofile" and "IN" not in c["argv"]:
            argv = [x for x, t in zip(argv, c["argv"]) if t not in ("-", "OUT")] + [inp]
        named = any(t == "OUT" for t in c["argv"]) and mal != "nofile"
        env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
        env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", LC_ALL=("C", "C.UTF-8", "POSIX")[c["id"] % 3])
        hung, rc, so, se = False, 0, b"", b""
        try:
            if c["id"] % 5 == 4 and mal != "nofile":
                with open(inp, "rb") as f:
                    p = subprocess.run(base + argv, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=60)
            else:
                p = subprocess.run(base + argv, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=60)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            hung = True
        out, stray = so, ""
        if named:
            out = b"no file"
            if os.path.exists(outp):
                with open(outp, "rb") as f:
                    out = f.read()
            stray = so.hex()[:200]
        why = se.decode(errors="replace").strip().split("\n")[-1]
        return {"tool": tool, "ts": c["ts"], "argv": c["argv"], "mal": mal, "rc": rc, "out": out.hex(), "stray": stray, "err": errtext(Exception(why)) if rc else "",
                "hung": hung, "lib": lib}
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- sessions ----------------------------------------------------------------------------

class Stopped(Exception):
    pass


def in_fresh_process(fn):
    """Result of fn() in a fork of this process, which never ran the code."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                data = json.dumps(fn())
            except BaseException as e:
                data = json.dumps({"failed": errtext(e)})
            with os.fdopen(w, "w") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {"failed": "no result within 60 s"}


def job_run(d, tree, its, gate, broken):
    """One job; gate() is called between items."""
    from hrdc.stream import Stream
    from hrdc.stream.formatter import Formatter
    from hrdc.stream.parser import Parser
    from hrdc.stream.optimizer import Optimizer
    from hrdc.descriptor.streamer import Streamer
    from hrdc.descriptor.extractor import Extractor
    from hrdc.descriptor.dumper import Dumper
    from hrdc.usage import Usage
    import warnings
    warnings.simplefilter("ignore")

    class Gate(Stream):
        def __init__(self, out):
            self.out = out

        def append(self, i):
            gate()
            self.out.append(i)

        def close(self):
            gate()
            self.out.close()

    def sink(binary):
        base = io.BytesIO if binary else io.StringIO

        class Sink(base):
            def write(self, x):
                if broken():
                    raise Stopped("write")
                return base.write(self, x)
        return Sink()
    blob = enc(its)
    if d["mal"]:
        blob += b"\x27\x01"
    if d["kind"] in ("compile", "convert"):
        out = sink(d["fmt"] == "binary")
        s = Formatter.get(d["fmt"])(out)
        if d["opt"]:
            s = Optimizer.new(s)
        s = Gate(s)
        if d["kind"] == "compile":
            tree.accept(Streamer(s))
            s.close()
        else:
            Parser.get("binary")(io.BytesIO(blob), s).read()
        t = out.getvalue()
        return t.hex() if isinstance(t, bytes) else t
    if d["kind"] == "decompile":
        x = Extractor()
        Parser.get("binary")(io.BytesIO(blob), Gate(x)).read()
        return json.dumps(flatten(x.root)).replace('"', "'") + dump_text(x.root)
    if d["kind"] == "dump":
        out = sink(False)
        w = out.write

        class Slow:
            def write(self, t):
                gate()
                return w(t)
        tree.accept(Dumper(Slow()))
        return out.getvalue()
    names = []
    for it in its:
        gate()
        u = (it[2] << 16 | it[3]) if it[2] else (1 + it[3] % 12) << 16 | it[3]
        x = Usage.lookup(u)
        names.append(str(x) + "|" + "|".join(map(str, x.split())))
        names.append("%d %s" % (int(Usage.inpage(u >> 16, u & 0xffff)), Usage.inpage(u >> 16, u & 0xffff)))
    return "; ".join(names)


def job_result(*args):
    try:
        return job_run(*args)
    except Stopped:
        return "stopped"
    except Exception:
        return "error"


def styled(c, j):
    s = c.get("styles", [0, 0, 0])[j]
    return build(c["trees"][j], ints=s == 1, own=s == 2)


def session(c):
    import threading
    trees = [styled(c, j) for j in range(len(c["trees"]))]
    before = [json.dumps(flatten(t)).replace('"', "'") for t in trees]
    n = len(c["jobs"])
    log, res = [], [None] * n
    me = threading.Semaphore(0)

    class Job(threading.Thread):
        def __init__(self, j):
            threading.Thread.__init__(self, daemon=True)
            self.j, self.turn, self.abort, self.sink_broken = j, threading.Semaphore(0), False, False
            self.over = self.started = False

        def gate(self):
            log.append([self.j + 1, "item"])
            me.release()
            self.turn.acquire()
            if self.abort:
                raise Stopped("abort")

        def run(self):
            self.turn.acquire()
            d = c["jobs"][self.j]
            r = job_result(d, trees[d["src"] - 1], c["streams"][d["src"] - 1], self.gate, lambda: self.sink_broken)
            res[self.j] = r
            log.append([self.j + 1, "stop" if r == "stopped" else "end"])
            self.over = True
            me.release()

        def go(self, act):
            if self.over:
                return
            if not self.started:
                self.started = True
                self.start()
                log.append([self.j + 1, "start"])
            elif act == "abort":
                self.abort = True
            if act == "break":
                self.sink_broken = True
            self.turn.release()
            me.acquire()
    jobs = [Job(j) for j in range(n)]
    for j, act in c["sched"]:
        jobs[j - 1].go(act)
    for j in jobs:
        while not j.over:
            j.go("go")
    again = []
    for d in c["jobs"]:
        again.append(job_result(d, trees[d["src"] - 1], c["streams"][d["src"] - 1], lambda: None, lambda: False))
    after = [json.dumps(flatten(t)).replace('"', "'") for t in trees]
    return {"log": log, "res": res, "again": again, "before": before, "after": after}


def cmd_session(c):
    # this process only imports the code; everything runs in forks of it
    import hrdc.descriptor, hrdc.stream, hrdc.usage, hrdc.descriptor.extractor, hrdc.descriptor.dumper, threading

    def alone(d):
        j = d["src"] - 1
        return job_result(d, styled(c, j), c["streams"][d["src"] - 1], lambda: None, lambda: False)
    base = [in_fresh_process(lambda d=d: alone(d)) for d in c["jobs"]]
    r = in_fresh_process(lambda: session(c))
    err = next((b["failed"] for b in base + [r] if isinstance(b, dict) and "failed" in b), "")
    if err:
        return {"err": err}

    def clean(t):
        return "".join(x if 32 <= ord(x) < 127 and x not in '"\\' else "~" if x == "\n" else "?" for x in t)
    byts = []
    for d, x in zip(c["jobs"], r["res"]):
        ok = d["kind"] in ("compile", "convert") and d["fmt"] == "binary" and x not in ("error", "stopped")
        byts.append(list(bytes.fromhex(x)) if ok else [])
    for k in ("res", "again", "before", "after"):
        r[k] = [clean(x) for x in r[k]]
    return dict(r, jobs=c["jobs"], trees=c["trees"], streams=c["streams"], base=[clean(x) for x in base], bytes=byts, err="")


# ---- editing ------------------------------------------------------------------------------

def cmd_edit(c):
    """A history of operations on descriptor objects."""
    make = build([], maker=True)
    objs, obs = [], []

    def num_of(x):
        for i, o in enumerate(objs):
            if o is x:
                return i + 1
        return 0

    def do(p):
        op = p["op"]
        if op == "new":
            objs.append(make(p["ev"], [objs[m - 1] for m in p["mem"]]))
            return [], []
        x = objs[p["c"] - 1]
        if op == "append":
            x.append(objs[p["o"] - 1])
        elif op == "pop":
            x.pop()
        elif op == "len":
            return [len(x)], []
        elif op == "iter":
            return [num_of(m) for m in x], []
        elif op == "get":
            return [num_of(x[p["i"]])], []
        elif op == "slice":
            return [num_of(m) for m in x[p["i"]:p["o"]:p["opt"]]], []
        elif op == "visit":
            seen = []

            class V:
                def enter(self, e):
                    seen.append([1, num_of(e)])

                def leave(self, e):
                    seen.append([2, num_of(e)])

                def element(self, e):
                    seen.append([3, num_of(e)])
            x.accept(V())
            return seen, []
        else:
            return [], compile_tree(x, p["opt"])
        return [], []
    for p in c["ops"]:
        r, err = guarded(do, p)
        if p["op"] == "new" and err:
            objs.append(None)
        obs.append({"rs": r[0] if r else [], "b": r[1] if r else [], "err": err})
    return {"ops": c["ops"], "obs": obs}


# ---- refusals -----------------------------------------------------------------------------

ATTRS = {"val": "way usage size flags lmin lmax pmin pmax unit exp desig str count na".split(), "coll": ["kind", "usage"], "rep": ["id"],
         "pad": ["way", "size"], "align": ["way"], "top": [], "end": []}


def cmd_refuse(c):
    """Compile a tree with one number replaced."""
    at, n = c.get("at", 0), c["n"]
    if not at:
        fit = [i for i, e in enumerate(c["es"]) if c["attr"] in ATTRS[e["k"]] and (c["attr"] != "na" or (e["nak"] == 1 and e["na"]))]
        at = fit[c["pos"] % len(fit)] + 1 if fit else 0
    if not at:
        return {"es": c["es"], "at": 0, "attr": c["attr"], "n": n, "plain": [], "perr": "", "opt": [], "oerr": ""}

    def tree():
        from hrdc.util import NamedConstant
        v = num(n) if n else None
        if n and c["id"] % 3 == 0 and c["attr"] in ("unit", "flags", "kind"):
            v = NamedConstant("x", v)
        return build([dict(e, raw={c["attr"]: v}) if i == at - 1 else e for i, e in enumerate(c["es"])], ints=c["id"] % 2 == 1)
    plain, perr = guarded(lambda: compile_tree(tree(), False))
    opt, oerr = guarded(lambda: compile_tree(tree(), True))
    return {"es": c["es"], "at": at, "attr": c["attr"], "n": n, "plain": plain or [], "perr": perr, "opt": opt or [], "oerr": oerr}


COMMANDS = {n[4:]: f for n, f in list(globals().items()) if n.startswith("cmd_")}


def _work(args):
    cmd, lines = args
    f = COMMANDS[cmd]
    res = []
    for line in lines:
        c = json.loads(line)
        r = f(c)
        r["id"] = c["id"]
        res.append(json.dumps(r, separators=(",", ":")))
    return res


def main():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    cmd, inp, outp = sys.argv[1:4]
    with open(inp) as f:
        lines = [l for l in f if l.strip()]
    n = int(os.environ.get("DRV_PROCS", min(8, os.cpu_count() or 1)))
    chunk = max(1, (len(lines) + n - 1) // n)
    parts = [(cmd, lines[i:i + chunk]) for i in range(0, len(lines), chunk)]
    with mp.get_context("fork").Pool(len(parts)) as pool, open(outp, "w") as f:
        for res in pool.imap(_work, parts):
            for r in res:
                f.write(r + "\n")


if __name__ == "__main__":
    main()
