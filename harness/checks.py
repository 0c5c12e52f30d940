"""What is explored and replayed for each property."""
import itertools

from common import *

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def tree_cases(ctx, menus, num, maxev=12, salt=0):
    """Trees: every one of the bounded menus, and random ones."""
    cases = ctx.mc_all([dict(module="GenTree", spec="BfsSpec", invs=["ModelOk"], emit=True,
                             env={"MENU": m, "MAXEV": d}) for m, d in menus])
    cases += ctx.random("GenTree", num=num, depth=80, env={"MAXEV": maxev}, salt=salt)
    return [{"es": c} for c in cases]


def big_trees(ctx, quick, thorough, salt):
    """Long trees, some nested deeply."""
    return [{"es": c} for c in ctx.random("GenTree", num=ctx.q(quick, thorough), depth=200, env={"MAXEV": 90, "BIG": 1}, salt=1000 + salt)]


def big_streams(ctx, quick, thorough, salt, tame=0):
    return ctx.random("GenStream", num=ctx.q(quick, thorough), depth=200, env={"MAXEV": 90, "BIG": 1, "TAME": tame}, salt=2000 + salt)


def deep_trees(ctx, invs=("DeepOk", "ModelOk"), focus="", deep=(300, 600)):
    """One shape repeated up to that many times: nested, in a row, ..."""
    return [{"es": c} for c in ctx.mc("GenTree", "DeepSpec", invs, emit=True, env={"DEEP": ctx.q(*deep), "FOCUS": focus})]


def deep_streams(ctx, invs=("DeepOk", "ModelOk"), deep=(300, 600)):
    return ctx.mc("GenStream", "DeepSpec", invs, emit=True, env={"DEEP": ctx.q(*deep)})


def akin_trees(ctx, invs=("ModelOk",)):
    """Values that differ from the next by little."""
    return [{"es": c} for c in ctx.mc("GenTree", "AkinSpec", invs, emit=True)]


def akin_streams(ctx, invs=()):
    return ctx.mc("GenStream", "AkinSpec", invs, emit=True)


def long_bytes(ctx, quick, thorough, salt):
    """One of each length, and more; and all of them in one."""
    cases = ctx.mc("GenItem", "LongSpec", [], emit=True) + ctx.random("GenItem", "LongSpec", num=ctx.q(quick, thorough), depth=3, salt=salt)
    whole = [b for c in cases for b in c["bs"][0]]
    return cases + [{"bs": [whole * (70000 // len(whole) + 1)]}]


def slices(its, size):
    """A long stream in pieces, each with the usage page in effect first."""
    page, out = [], []
    for i in range(0, len(its), size):
        out.append(page + its[i:i + size])
        page = ([x] for x in reversed(its[:i + size]) if x[:2] == [1, 0])
        page = next(page, [])
    return out


@check
def C01(ctx):
    cases = ctx.mc("GenItem", "ItemSpec", ["CodecOk"], emit=True)
    cases += ctx.random("GenItem", "NumSpec", num=ctx.q(200, 5000), depth=3)
    ctx.conform("encode", cases, "Trace_Item", env={"PROP": "C01"}, label="27 item types x %d values, then random ones" % len(cases[0]["ns"]))


@check
def C23(ctx):
    cases = ctx.mc("GenItem", "PairSpec", ["LessOk"], emit=True)
    cases += ctx.random("GenItem", "NearSpec", num=ctx.q(500, 10000), depth=3, salt=23)
    ctx.conform("compare", cases, "Trace_Compare", label="items compared with 60 or %d others each" % len(cases[0]["bs"]))


@check
def C02(ctx):
    cases = ctx.mc("GenItem", "ByteSpec", ["DecodeOk"], emit=True)
    cases += ctx.random("GenItem", num=ctx.q(400, 8000), depth=3)
    cases += long_bytes(ctx, 12, 60, 202)
    ctx.conform("decode", cases, "Trace_Item", env={"PROP": "C02"}, label="byte strings, 20-27 per trace")


@check
def C03(ctx):
    cases = [{"b": b} for c in ctx.mc("GenItem", "SizeSpec", ["CanonOk"], emit=True) for b in c["bs"]]
    cases += [{"b": b} for c in ctx.random("GenItem", num=ctx.q(60, 1500), depth=3, salt=3) for b in c["bs"]]
    cases += [{"its": s} for c in ctx.mc("GenStream", "ListSpec", ["ListOk"], emit=True) for s in slices(c["its"], 50)]
    cases += ctx.random("GenStream", num=ctx.q(400, 6000), depth=60, env={"MAXEV": 6}, salt=3)
    cases += big_streams(ctx, 30, 1000, 3)
    cases += [{"b": c["bs"][0]} for c in long_bytes(ctx, 3, 20, 203)]
    ctx.conform("convert", cases, "Trace_Text", env={"PROP": "C03"})


@check
def C04(ctx):
    cases = ctx.mc("GenText", "GapSpec", ["LexOk"], emit=True)
    cases += ctx.random("GenText", num=ctx.q(2000, 30000), depth=3, salt=4)
    ctx.conform("readtext", cases, "Trace_Text", env={"PROP": "C04"})


@check
def C05(ctx):
    d = ctx.q(3, 4)
    cases = ctx.mc_all([dict(module="GenStream", spec="BfsSpec", invs=["ModelOk"], emit=True, env={"MENU": m, "MAXEV": d})
                        for m in ("global", "local", "page", "rep", "bare", "merge")])
    cases += ctx.random("GenStream", num=ctx.q(4000, 60000), depth=60, env={"MAXEV": 12})
    cases += big_streams(ctx, 200, 4000, 5)
    cases += deep_streams(ctx)
    cases += akin_streams(ctx, ["DeepOk"])
    ctx.conform("optstream", cases, "Trace_Stream")


@check
def C06(ctx):
    cases = tree_cases(ctx, [("attr", ctx.q(2, 3)), ("merge", ctx.q(3, 4))], ctx.q(4000, 40000), salt=6)
    cases += [{"its": c["its"]} for c in ctx.mc_all([dict(module="GenStream", spec="BfsSpec", invs=["LeanOk"], emit=True, env={"MENU": m, "MAXEV": ctx.q(3, 4)})
                                                     for m in ("local", "bounds")])]
    cases += [{"its": c["its"]} for c in ctx.random("GenStream", num=ctx.q(2500, 40000), depth=60, env={"MAXEV": 12}, salt=6)]
    cases += big_trees(ctx, 200, 4000, 6)
    cases += [{"its": c["its"]} for c in big_streams(ctx, 150, 3000, 6)]
    cases += deep_trees(ctx)
    cases += [{"its": c["its"]} for c in deep_streams(ctx, ["DeepOk"])]
    cases += akin_trees(ctx, ())
    cases += [{"its": c["its"]} for c in akin_streams(ctx)]
    ctx.conform("reoptimise", cases, "Trace_Redund")


@check
def C07(ctx):
    cases = tree_cases(ctx, [("layout", ctx.q(3, 4)), ("shape", ctx.q(3, 4))], ctx.q(3000, 40000), salt=7)
    cases += big_trees(ctx, 250, 5000, 7)
    cases += deep_trees(ctx)
    ctx.conform("compile", cases, "Trace_Compile", env={"PROP": "C07"})


@check
def C08(ctx):
    cases = tree_cases(ctx, [("bounds", ctx.q(1, 2)), ("attr", ctx.q(2, 3)), ("merge", ctx.q(3, 4))], ctx.q(3500, 40000), salt=8)
    cases += big_trees(ctx, 250, 5000, 8)
    cases += deep_trees(ctx)
    cases += akin_trees(ctx)
    ctx.conform("compile", cases, "Trace_Compile", env={"PROP": "C08"})


@check
def C09(ctx):
    cases = tree_cases(ctx, [("shape", ctx.q(4, 5))], ctx.q(3000, 40000), maxev=16, salt=9)
    cases += big_trees(ctx, 250, 5000, 9)
    cases += deep_trees(ctx)
    ctx.conform("compile", cases, "Trace_Compile", env={"PROP": "C09"})


@check
def C10(ctx):
    d = ctx.q(3, 4)
    cases = ctx.mc_all([dict(module="GenStream", spec="BfsSpec", invs=["ExtractOk"], emit=True, env={"MENU": m, "MAXEV": d})
                        for m in ("global", "local", "page", "rep", "array", "bare")])
    cases += [{"its": []}]
    cases += ctx.random("GenStream", num=ctx.q(6000, 60000), depth=60, env={"MAXEV": 12, "TAME": 1}, salt=10)
    cases += big_streams(ctx, 250, 5000, 10, tame=1)
    for i, what in enumerate(("plain", "lean")):
        cases += ctx.random("GenTree", num=ctx.q(800, 20000), depth=80, env={"MAXEV": 12, "EMIT": what}, salt=3010 + i)
    cases += deep_streams(ctx, ["DeepOk"])
    cases += akin_streams(ctx)
    ctx.conform("decompile", cases, "Trace_Extract")


@check
def C11(ctx):
    jobs = [dict(module="GenTree", spec="BfsSpec", invs=["ScriptOk"], emit=True, env={"MENU": m, "MAXEV": d})
            for m, d in (("bounds", 1), ("attr", ctx.q(1, 2)), ("layout", ctx.q(2, 3)), ("shape", 3), ("merge", ctx.q(1, 2)))]
    cases = ctx.mc_all(jobs)
    cases += ctx.random("GenTree", num=ctx.q(3000, 40000), depth=80, env={"MAXEV": 12}, salt=11)
    cases = [{"es": c} for c in cases]
    cases += [{"its": c["its"]} for c in ctx.random("GenStream", num=ctx.q(2500, 30000), depth=60, env={"MAXEV": 10, "TAME": 1}, salt=11)]
    cases += big_trees(ctx, 150, 3000, 11)
    cases += [{"its": c["its"]} for c in big_streams(ctx, 100, 3000, 11, tame=1)]
    # Python nests at most 200 parentheses
    cases += deep_trees(ctx, ["DeepOk"], deep=(80, 80))
    cases += [{"its": c["its"]} for c in deep_streams(ctx, ["DeepOk"], deep=(80, 80))]
    cases += akin_trees(ctx, ["ScriptOk"])
    ctx.conform("dump", cases, "Trace_Script")


@check
def C12(ctx):
    cases = ctx.mc_all([dict(module="GenTree", spec="BfsSpec", invs=["ModelOk", "NamedOk"], emit=True, env={"MENU": "named", "MAXEV": ctx.q(2, 3)})])
    cases += ctx.random("GenTree", num=ctx.q(2500, 30000), depth=80, env={"MAXEV": 8, "FOCUS": "named"}, salt=12)
    cases = [{"es": c} for c in cases] + deep_trees(ctx, focus="named", deep=(600, 600))
    ctx.conform("named", cases, "Trace_Named")
    cases = ctx.mc("GenUsage", "RangeSpec", ["RangeOk"], emit=True)
    ctx.conform("range", cases, "Trace_Named")


@check
def C13(ctx):
    cases = ctx.mc("GenUsage", "TableSpec", ["TableOk"], emit=True)
    cases += ctx.random("GenUsage", num=ctx.q(200, 6000), depth=3, salt=13)
    cases = [{"ws": c["ws"][i:i + 40]} for c in cases for i in range(0, len(c["ws"]), 40)]
    ctx.conform("lookup", cases, "Trace_Usage", label="usage numbers, 20-40 per trace")


MODULES = ("arcade camera consumer desktop device digitizers game keyboard led lighting pid sensors simulation telephony vr").split()


@check
def C14(ctx):
    ctx.mc("GenUsage", "TableSpec", ["TableOk"], emit=True)
    cases = [{"k": "module", "mod": m} for m in MODULES] + [{"k": "tags"}]
    cases += [{"k": k, "api": a} for k in ("kinds", "flags", "ways") for a in (0, 1)]
    step = ctx.q(997, 1)
    for m in ("button", "ordinal"):
        ns = sorted(set(list(range(0, 300)) + list(range(300, 65536, step)) + [32767, 32768, 65535]))
        cases += [{"k": "numbered", "mod": m, "ns": ns[i:i + 400]} for i in range(0, len(ns), 400)]
    ctx.conform("constants", cases, "Trace_Usage", label="constants of the package")


@check
def C15(ctx):
    cases = [{"k": "known"}] + ctx.mc("GenUnit", "TableSpec", ["UnitOk"], emit=True)
    cases += ctx.random("GenUnit", num=ctx.q(300, 10000), depth=3, salt=15)
    ctx.conform("units", cases, "Trace_Unit", label="units, 16-110 per trace")


@check
def C16(ctx):
    plans = ctx.mc("GenCli", "AllSpec", ["ReadOk"], emit=True)
    plans += ctx.random("GenCli", num=ctx.q(900, 12000), depth=3, salt=16)
    trees = ctx.random("GenTree", num=ctx.q(300, 3000), depth=80, env={"MAXEV": 8}, salt=16)
    streams = ctx.random("GenStream", num=ctx.q(300, 3000), depth=60, env={"MAXEV": 8, "TAME": 1}, salt=16)
    streams += ctx.random("GenStream", num=ctx.q(200, 2000), depth=60, env={"MAXEV": 8}, salt=116)
    cases = [dict(p, es=trees[i % len(trees)]) if p["tool"] == "script" else dict(p, its=streams[i % len(streams)]["its"]) for i, p in enumerate(plans)]
    # more than pipes and buffers hold, in every format
    body = [it for s in streams for it in s["its"]]
    plain = {}
    for p in plans:
        if p["tool"] == "converter" and p["mal"] == "no":
            plain.setdefault((p["infmt"], *sorted({t["o"] + t["v"] for t in p["ts"] if t["o"] in ("o", "O")})), p)
    for i, (k, p) in enumerate(sorted(plain.items())):
        opt = "O" in k
        if not opt and i % 3:
            continue
        cases.append(dict(p, its=[[0, 10, 0, 1]] + (body[:3000] if opt else body * ctx.q(7, 1)) + [[0, 12, 0, 0]], plain=0 if opt else 1))
    ctx.conform("cli", cases, "Trace_Cli", label="processes run")


@check
def C17(ctx):
    cases = [{"its": c["its"], "opt": 0} for c in ctx.mc("GenStream", "ListSpec", ["ListOk"], emit=True)]
    cases += [{"its": c["its"]} for c in ctx.mc_all([dict(module="GenStream", spec="BfsSpec", emit=True, env={"MENU": m, "MAXEV": ctx.q(3, 4)}) for m in ("page",)])]
    cases += [{"its": c["its"]} for c in ctx.random("GenStream", num=ctx.q(1500, 20000), depth=60, env={"MAXEV": 10}, salt=17)]
    cases += [{"es": c} for c in ctx.random("GenTree", num=ctx.q(1500, 20000), depth=80, env={"MAXEV": 10}, salt=17)]
    cases += [{"its": c["its"]} for c in big_streams(ctx, 150, 4000, 17)]
    cases += big_trees(ctx, 150, 4000, 17)
    cases += deep_trees(ctx, ["DeepOk"])
    cases += [{"its": c["its"]} for c in deep_streams(ctx, ["DeepOk"])]
    ctx.conform("listing", cases, "Trace_Listing")


@check
def C18(ctx):
    ctx.mc("GenSession", "IsoSpec", ["IsoOk"])
    small = [{"its": c["its"]} for c in ctx.random("GenStream", num=ctx.q(200, 400), depth=60, env={"MAXEV": 3, "TAME": 1}, salt=118)]
    smallt = ctx.random("GenTree", num=ctx.q(200, 400), depth=80, env={"MAXEV": 3}, salt=118)
    trees = ctx.random("GenTree", num=ctx.q(600, 6000), depth=80, env={"MAXEV": 9}, salt=18)
    streams = ctx.random("GenStream", num=ctx.q(300, 3000), depth=60, env={"MAXEV": 8, "TAME": 1}, salt=18)
    streams += ctx.random("GenStream", num=ctx.q(300, 3000), depth=60, env={"MAXEV": 8}, salt=218)
    # streams that go on after their last main item
    heads = [list(itertools.takewhile(lambda it: it[0] != 0, c["its"])) for c in streams]
    heads = [h for h in heads if h]
    streams += [{"its": streams[i]["its"] + heads[(7 * i) % len(heads)]} for i in range(0, len(streams), 2)]

    def inputs(i, ts, ss):
        k = 3 * i
        tr = [ts[(k + j) % len(ts)] for j in range(3)]
        if i % 3 == 1:
            tr[1] = tr[0]
        return {"trees": tr, "styles": [0, i % 3, (2 * i) % 3], "streams": [ss[(k + 2 * j) % len(ss)]["its"] for j in range(3)]}
    plans = ctx.mc("GenSession", "AllSpec", emit=True, env={"STEPS": ctx.q(4, 6)})
    cases = [dict(p, **inputs(i, smallt, small)) for i, p in enumerate(plans)]
    # the same tree with constants of one's own, then as usual
    plans = [{"jobs": [{"kind": k, "src": s, "opt": o, "fmt": "code", "mal": 0} for s in (2, 1)], "sched": [[1, "go"]] * 3}
             for k in ("compile", "dump") for o in (True, False)]
    cases += [dict(plans[i % 4], trees=[t, t, t], styles=[(i // 2) % 2, 2, 0], streams=[small[0]["its"]] * 3) for i, t in enumerate(trees[:ctx.q(240, 2000)])]
    plans = ctx.random("GenSession", num=ctx.q(1500, 20000), depth=3, salt=18)
    cases += [dict(p, **inputs(i, trees, streams)) for i, p in enumerate(plans)]
    ctx.conform("session", cases, "Trace_Session", label="sessions of 2 to 5 jobs")


@check
def C19(ctx):
    ctx.mc("GenExpect", "CmpSpec", ["AcceptOk", "PrefixOk"])
    trees = tree_cases(ctx, [("shape", 3)], ctx.q(1200, 20000), salt=19)
    plans = ctx.random("GenExpect", "PlanSpec", num=ctx.q(1200, 10000), depth=3, salt=19)
    ctx.conform("expect", [dict(plans[i % len(plans)], es=t["es"]) for i, t in enumerate(trees)], "Trace_Expect", label="10 expected texts per tree")


@check
def C20(ctx):
    cases = ctx.mc("GenConst", "Spec", ["WideOk"], emit=True, env={"ALL": 1} if ctx.thorough else None)
    ctx.conform("const", cases, "Trace_Const", label="constants, each against %d operands" % (len(cases[0]["ints"]) + len(cases[0]["consts"])))
    cases = tree_cases(ctx, [("attr", ctx.q(1, 2)), ("shape", ctx.q(3, 4))], ctx.q(2000, 30000), salt=20)
    ctx.conform("intree", cases, "Trace_Const")


@check
def C21(ctx):
    cases = ctx.mc("GenEdit", "HistSpec", ["EditOk"], emit=True, env={"MAXEV": ctx.q(3, 4)})
    cases += ctx.random("GenEdit", "RandEdit", num=ctx.q(3000, 40000), depth=60, env={"MAXEV": 30}, salt=21)
    ctx.conform("edit", cases, "Trace_Edit", label="histories of edits")


@check
def C22(ctx):
    cases = ctx.mc("GenRefuse", "AllSpec", ["RefuseOk"], emit=True)
    plans = ctx.random("GenRefuse", num=ctx.q(6000, 60000), depth=3, salt=22)
    trees = ctx.random("GenTree", num=ctx.q(1500, 15000), depth=80, env={"MAXEV": 8}, salt=22)
    cases += [dict(p, es=trees[i % len(trees)]) for i, p in enumerate(plans)]
    ctx.conform("refuse", cases, "Trace_Refuse", label="trees with one number replaced")
