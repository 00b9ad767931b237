"""One plan per property: what is model checked, generated, driven through the real code and validated."""
import json
import os
from vf import CheckError, Violation, gather

PLANS, HARNESS = {}, {}


def plan(pid, harness, jni=False):
    def deco(f):
        HARNESS[pid] = (harness, jni)
        PLANS[pid] = f
        return f
    return deco


def build_for(ctx, pid, name=None):
    h, jni = HARNESS[pid]
    return ctx.build(name or h, jni=jni)


# ---------------------------------------------------------------------------------------------------- C04
@plan("C04", "packedset")
def c04(c):
    q = c.quick
    m = c.background(lambda: c.model("PackedSetBlocks", f"PackedSetBlocks_{'q' if q else 't'}.cfg", workers=3, timeout=800,
                                     actions=["DoStart", "DoPush", "RemoveTail", "Clear", "DoSet"],
                                     what="block storage mechanism refines the list of lists"))
    g = c.background(lambda: c.behaviours("PackedSetGen", "PackedSetGen_6.cfg" if q else "PackedSetGen_7.cfg",
                                          limit=4000 if q else 60000))
    exe = c.build("packedset")
    r = c.background(lambda: c.traces(exe, "packedset", {"mode": "random", "n": 600 if q else 12000}, "PackedSetTrace",
                                      kinds=["start", "push", "pushn", "remove", "clear", "write", "set", "get", "load", "ref",
                                             "deref", "refwrite", "copy", "aside", "restore", "same"]))
    b = c.background(lambda: c.traces(exe, "packedset", {"mode": "big", "n": 24 if q else 240}, "PackedSetTrace", shards=4))
    h = c.background(lambda: c.traces(exe, "packedset", {"mode": "huge", "n": 4 if q else 40}, "PackedSetTrace", shards=4, kinds=["starts"]))
    behs, tr, _, _ = gather(g, r, b, h)
    c.replay_behaviours(exe, "packedset", behs, {"mode": "script", "blocks": 1 if q else 3}, "PackedSetTrace", shards=8)
    c.self_test_stateful(tr[0], "PackedSetTrace", {"push": "v", "set": "v", "write": "rej", "get": "rej", "deref": "v",
                                                   "remove": "dump", "clear": "n", "load": "v", "aside": "dump", "copy": "n"})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C05
@plan("C05", "growarray")
def c05(c):
    q = c.quick
    m = c.background(lambda: c.model("GrowArrayImpl", f"GrowArrayImpl_{'q' if q else 't'}.cfg", workers=3, timeout=800,
                                     actions=["Resize", "Grow", "FillAll", "Write", "SetDefault", "Assign", "MoveFront"],
                                     what="capacity and stale cells mechanism refines the plain list"))
    g = c.background(lambda: c.behaviours("GrowArrayGen", "GrowArrayGen_3.cfg" if q else "GrowArrayGen_4.cfg",
                                          limit=5000 if q else 60000))
    exe = c.build("growarray")
    r = c.background(lambda: c.traces(exe, "growarray", {"mode": "random", "n": 640 if q else 12000}, "GrowArrayTrace",
                                      kinds=["new", "list", "wrap", "copy", "destroy", "default", "resize", "grow", "fill", "setto",
                                             "set", "selfset", "assign", "write", "poke", "get"]))
    h = c.background(lambda: c.traces(exe, "growarray", {"mode": "huge", "n": 8 if q else 64}, "GrowArrayTrace"))
    behs, tr, _ = gather(g, r, h)
    c.replay_behaviours(exe, "growarray", behs, {"mode": "script", "types": 1 if q else 2}, "GrowArrayTrace", shards=8)
    c.self_test_stateful(tr[0], "GrowArrayTrace", {"resize": "els", "fill": "els", "write": "rej", "get": "rej", "copy": "els",
                                                   "assign": "at", "grow": "sizes"})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C06, C07
def image_model(c):
    return c.background(lambda: c.model("ImageModel", f"ImageModel_{'q' if c.quick else 't'}.cfg", workers=3, timeout=800,
                                        actions=["MSub", "MWrite", "MReshapeOther", "MCopyIn", "MCopyOut"],
                                        what="addresses of nested views, isolation of writes and copies"))


@plan("C06", "images")
def c06(c):
    q = c.quick
    m = image_model(c)
    g = c.background(lambda: c.behaviours("ImageGen", "ImageGen_31.cfg" if q else "ImageGen_41.cfg", limit=3000 if q else 40000))
    exe = c.build("images")
    r = c.background(lambda: c.traces(exe, "images", {"mode": "random", "kind": "gray", "n": 560 if q else 9000}, "ImageTrace",
                                      kinds=["new", "list", "wrap", "sub", "reshape", "copy", "assign", "dup", "write", "poke", "read", "inb",
                                             "destroy"]))
    behs, tr = gather(g, r)
    c.replay_behaviours(exe, "images", behs, {"mode": "script", "kind": "gray", "nb": 1}, "ImageTrace", shards=8)
    c.self_test_stateful(tr[0], "ImageTrace", {"sub": "rej", "reshape": "dim", "copy": "pix", "write": "rej", "read": "rej", "dup": "pix",
                                               "inb": "v", "assign": "pix", "poke": "pix"})
    gather(m)


@plan("C07", "images")
def c07(c):
    q = c.quick
    m = image_model(c)
    g = c.background(lambda: c.behaviours("ImageGen", "ImageGen_32.cfg" if q else "ImageGen_42.cfg", limit=1500 if q else 30000))
    exe = c.build("images")
    r = c.background(lambda: c.traces(exe, "images", {"mode": "random", "kind": "inter", "n": 480 if q else 8000}, "ImageTrace",
                                      kinds=["new", "wrap", "sub", "shape", "copy", "assign", "dup", "write", "poke", "read", "average",
                                             "destroy"]))
    p = c.background(lambda: c.traces(exe, "images", {"mode": "random", "kind": "planar", "n": 240 if q else 6000}, "ImageTrace",
                                      kinds=["new", "shape", "copy", "assign", "dup", "write", "poke", "read", "band"]))
    behs, tr, _ = gather(g, r, p)
    c.replay_behaviours(exe, "images", behs, {"mode": "script", "kind": "inter", "nb": 2}, "ImageTrace", shards=8)
    c.self_test_stateful(tr[0], "ImageTrace", {"sub": "rej", "shape": "dim", "copy": "pix", "write": "rej", "read": "rej",
                                               "average": ("v", 5), "poke": "pix"})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C01, C02, C03
CHANG = ["Begin", "Step1", "Below", "NoBelow", "Step3", "Advance", "Trace", "Done"]


@plan("C01", "contour")
def c01(c):
    q = c.quick
    m = c.background(lambda: c.model("ContourLemmas", f"ContourLemmas_{'q' if q else 't'}.cfg", workers=3, timeout=850,
                                     what="certified components are the reachable ones; blob/hole structure seen from roots"))
    m2 = c.background(lambda: c.model("ChangModel", f"ChangModel_{'q' if q else 't'}.cfg", actions=CHANG, workers=3, timeout=850,
                                      what="single pass labelling and tracing on all small images"))
    exe = c.build("contour")
    L = {"what": "label"}
    e = c.background(lambda: c.traces(exe, "contour", dict(L, mode="exhaustive", maxpx=9 if q else 16, maxw=9 if q else 8, maxh=9 if q else 8),
                                      "ContourTrace", timeout=800, kinds=["label"]))
    r = c.background(lambda: c.traces(exe, "contour", dict(L, mode="random", n=1600 if q else 24000, size=14), "ContourTrace"))
    b = c.background(lambda: c.traces(exe, "contour", dict(L, mode="big", n=10 if q else 60), "ContourTrace", shards=8))
    mn = c.background(lambda: c.traces(exe, "contour", dict(L, mode="many", n=4 if q else 16), "ContourTrace", shards=4))
    tr, _, _, _ = gather(r, e, b, mn)
    c.self_test(tr[0], "ContourTrace", {"label": ["labels", "ids", "lw", "img"]})
    gather(m, m2)


@plan("C02", "contour")
def c02(c):
    q = c.quick
    m2 = c.background(lambda: c.model("ChangModel", f"ChangModel_{'c' if q else 'ct'}.cfg", actions=CHANG, workers=3, timeout=850,
                                      what="contours, holes and size limits on all small images"))
    exe = c.build("contour")
    L = {"what": "contour"}
    e = c.background(lambda: c.traces(exe, "contour", dict(L, mode="exhaustive", maxpx=9 if q else 15, maxw=9 if q else 8, maxh=9 if q else 8, limits=1),
                                      "ContourTrace", timeout=800, kinds=["contour", "limit"]))
    r = c.background(lambda: c.traces(exe, "contour", dict(L, mode="random", n=1000 if q else 16000, size=14), "ContourTrace"))
    b = c.background(lambda: c.traces(exe, "contour", dict(L, mode="big", n=10 if q else 60), "ContourTrace", shards=8))
    tr, _, _ = gather(r, e, b)
    c.self_test(tr[0], "ContourTrace", {"contour": ["sets", "blobs", "labels", "img"], "limit": ["sets", "labels", "blobs"]})
    gather(m2)


@plan("C03", "contour")
def c03(c):
    q = c.quick
    m2 = c.background(lambda: c.model("ChangModel", f"ChangModel_{'h' if q else 'ht'}.cfg", actions=CHANG, workers=3, timeout=850,
                                      what="two images processed by one finder which keeps its marked border"))
    g = c.background(lambda: c.behaviours("ContourGen", "ContourGen_3.cfg" if q else "ContourGen_4.cfg", limit=3000 if q else 60000))
    exe = c.build("contour")
    r = c.background(lambda: c.traces(exe, "contour", {"mode": "history", "n": 800 if q else 12000}, "ContourHistory",
                                      kinds=["init", "rule", "limits", "save", "process"]))
    behs, tr = gather(g, r)
    c.replay_behaviours(exe, "contour", behs, {"mode": "script"}, "ContourHistory", shards=8)
    c.self_test_stateful(tr[0], "ContourHistory", {"process": "sets"})
    gather(m2)


# ---------------------------------------------------------------------------------------------------- C16
@plan("C16", "binary")
def c16(c):
    q = c.quick
    m = c.background(lambda: c.model("BinaryModel", f"BinaryModel_{'q' if q else 't'}.cfg", actions=["Pick", "Border", "Inside"], workers=3, timeout=850,
                                     what="border pass and interior pass write every pixel once and agree with the definition"))
    exe = c.build("binary")
    e = c.background(lambda: c.traces(exe, "binary", {"mode": "exhaustive", "maxpx": 9 if q else 12, "logicpx": 3 if q else 6}, "BinaryTrace", timeout=800,
                                      kinds=["op"]))
    r = c.background(lambda: c.traces(exe, "binary", {"mode": "random", "n": 6000 if q else 80000}, "BinaryTrace", timeout=800))
    tr, _ = gather(r, e)
    c.self_test(tr[0], "BinaryTrace", {"op": ["rej", "res"], "guard": ["two", "three"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C17
@plan("C17", "stats")
def c17(c):
    q = c.quick
    m = c.background(lambda: c.model("StatModel", f"StatModel_{'q' if q else 't'}.cfg", actions=["Shape", "Scan", "Top", "Cols"], workers=3, timeout=850,
                                     what="scans and border fill of windows touch exactly the pixels and give the defined statistics"))
    exe = c.build("stats")
    e = c.background(lambda: c.traces(exe, "stats", {"mode": "borders", "max": 7 if q else 11}, "StatTrace", timeout=800, kinds=["border"]))
    lg = c.background(lambda: c.traces(exe, "stats", {"mode": "long", "n": 104 if q else 800}, "StatTrace", timeout=800, kinds=["sum", "mean", "hist"]))
    r = c.background(lambda: c.traces(exe, "stats", {"mode": "random", "n": 3200 if q else 64000}, "StatTrace", timeout=800,
                                      kinds=["min", "max", "sum", "mean", "meanf", "hist", "fill", "border", "uniform"]))
    br = c.background(lambda: c.traces(exe, "stats", {"mode": "bright", "n": 24 if q else 240}, "StatTrace", timeout=800, kinds=["bright"]))
    tr, _, _, bt = gather(r, e, lg, br)
    c.self_test(bt[0], "StatTrace", {"bright": ["q"]})
    c.self_test(tr[0], "StatTrace", {"min": ["v"], "max": ["v"], "sum": ["v"], "mean": ["v"], "meanf": [("v", 4000000)], "hist": ["v"], "fill": ["v"],
                                     "border": ["k"], "uniform": [("lo", 2000)]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C13
@plan("C13", "thresh")
def c13(c):
    q = c.quick
    m = c.background(lambda: c.model("ThresholdModel", f"ThresholdModel_{'q' if q else 't'}.cfg", actions=["Global", "Local", "Blur", "Compare"], workers=3,
                                     timeout=850, what="filter objects with retained storage give the definition on every call"))
    exe = c.build("thresh")
    f = c.background(lambda: c.traces(exe, "thresh", {"mode": "fixed", "n": 4000 if q else 60000}, "ThresholdTrace", timeout=800, kinds=["threshold", "inplace"]))
    r = c.background(lambda: c.traces(exe, "thresh", {"mode": "local", "n": 2400 if q else 40000}, "ThresholdTrace", timeout=800, kinds=["local"]))
    tr, tl = gather(f, r)
    c.self_test(tr[0], "ThresholdTrace", {"threshold": ["res", "rej"], "inplace": ["res", "rej"]})
    c.self_test(tl[0], "ThresholdTrace", {"local": ["rej"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C14
@plan("C14", "thresh")
def c14(c):
    q = c.quick
    m = c.background(lambda: c.model("OtsuModel", f"OtsuModel_{'q' if q else 't'}.cfg", actions=["Pick", "Step", "Stop"], workers=3, timeout=850,
                                     what="one pass over the histogram finds a maximal split; the result shifts with the pixels"))
    exe = c.build("thresh")
    o = c.background(lambda: c.traces(exe, "thresh", {"mode": "otsu", "n": 3000 if q else 60000}, "ThresholdTrace", timeout=800, kinds=["otsu", "filter"]))
    b = c.background(lambda: c.traces(exe, "thresh", {"mode": "big", "n": 80 if q else 800}, "ThresholdTrace", timeout=800))
    p = c.background(lambda: c.traces(exe, "thresh", {"mode": "compute", "n": 8000 if q else 120000}, "ThresholdTrace", timeout=800, kinds=["compute"]))
    tr, tb, tp = gather(o, b, p)
    c.self_test(tr[0], "ThresholdTrace", {"otsu": [("t", 70000)], "filter": ["res"]})
    c.self_test(tp[0], "ThresholdTrace", {"compute": [("t", 400000)]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C15
@plan("C15", "block")
def c15(c):
    q = c.quick
    m = c.background(lambda: c.model("BlockModel", f"BlockModel_{'q' if q else 't'}.cfg", actions=["Pick", "Inner", "Remainder", "Use"], workers=3,
                                     timeout=850, what="block layout: every pixel in exactly one block, statistics stored at its block"))
    exe = c.build("block")
    me = c.background(lambda: c.traces(exe, "block", {"mode": "mean", "n": 1200 if q else 24000}, "BlockTrace", timeout=800, kinds=["block"]))
    mm = c.background(lambda: c.traces(exe, "block", {"mode": "minmax", "n": 1200 if q else 24000}, "BlockTrace", timeout=800))
    ot = c.background(lambda: c.traces(exe, "block", {"mode": "otsu", "n": 600 if q else 9000}, "BlockTrace", timeout=800))
    a, b, d = gather(me, mm, ot)
    c.self_test(a[0], "BlockTrace", {"block": ["res", "rej"]})
    c.self_test(b[0], "BlockTrace", {"block": ["res", "rej"]})
    c.self_test(d[0], "BlockTrace", {"block": ["res", "rej"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C10
@plan("C10", "conv")
def c10(c):
    q = c.quick
    m = c.background(lambda: c.model("BorderModel", f"BorderModel_{'q' if q else 't'}.cfg", actions=["MoveX", "MoveY"], workers=3, timeout=850,
                                     what="border rules as walks: each rule is the unique continuation of the image by its step law"))
    exe = c.build("conv")
    a = c.background(lambda: c.traces(exe, "conv", {"mode": "borders", "max": 6 if q else 9}, "ConvTrace", timeout=800, kinds=["border", "factory"]))
    r = c.background(lambda: c.traces(exe, "conv", {"mode": "border", "n": 8000 if q else 100000}, "ConvTrace", timeout=800, kinds=["border"]))
    ta, tr = gather(a, r)
    c.self_test(ta[0], "ConvTrace", {"factory": ["rej"], "border": ["bw", "bh", "res"]})
    c.self_test(tr[0], "ConvTrace", {"border": ["bw", "res"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C09
@plan("C09", "conv")
def c09(c):
    q = c.quick
    m = c.background(lambda: c.model("RegionModel", f"RegionModel_{'q' if q else 't'}.cfg", actions=["Pick", "Row", "Sides", "Ends"], workers=3, timeout=850,
                                     what="inner part and border strips write every pixel once, all taps of the kernel are used"))
    exe = c.build("conv")
    f = c.background(lambda: c.traces(exe, "conv", {"mode": "conv", "n": 16000 if q else 240000}, "ConvTrace", timeout=800, kinds=["conv"]))
    n = c.background(lambda: c.traces(exe, "conv", {"mode": "inner", "n": 12000 if q else 160000}, "ConvTrace", timeout=800, kinds=["conv"]))
    tf, tn = gather(f, n)
    c.self_test(tf[0], "ConvTrace", {"conv": ["res", "rej", "ow"]})
    c.self_test(tn[0], "ConvTrace", {"conv": ["res", "rej"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C11
@plan("C11", "conv")
def c11(c):
    q = c.quick
    m = c.background(lambda: c.model("RegionModel", f"RegionModel_n{'q' if q else 't'}.cfg", actions=["Pick", "Row", "Sides", "Ends"], workers=3, timeout=850,
                                     what="taps used by the border code are exactly the part of the kernel inside the image"))
    exe = c.build("conv")
    tr, = gather(c.background(lambda: c.traces(exe, "conv", {"mode": "norm", "n": 40000 if q else 500000}, "ConvTrace", timeout=800, kinds=["norm"])))
    c.self_test(tr[0], "ConvTrace", {"norm": [("res", 300000), "rej"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C12
@plan("C12", "conv")
def c12(c):
    q = c.quick
    m = c.background(lambda: c.model("MeanModel", f"MeanModel_{'q' if q else 't'}.cfg", actions=["Pick", "Edge", "First", "Slide"], workers=3, timeout=850,
                                     what="running sums of a line equal the sums of the windows"))
    exe = c.build("conv")
    a = c.background(lambda: c.traces(exe, "conv", {"mode": "mean", "n": 24000 if q else 300000}, "ConvTrace", timeout=800, kinds=["mean"]))
    g = c.background(lambda: c.traces(exe, "conv", {"mode": "gauss", "n": 16000 if q else 200000}, "ConvTrace", timeout=800, kinds=["gauss"]))
    k = c.build("kernels")
    w = c.background(lambda: c.traces(k, "kernels", {"mode": "gauss", "n": 800 if q else 16000}, "KernelTrace", timeout=800, kinds=["gauss", "gaussi"]))
    z = c.background(lambda: c.traces(exe, "conv", {"mode": "pan", "n": 8 if q else 40}, "ConvTrace", timeout=800, kinds=["pan"]))
    ta, tg, _, tz = gather(a, g, w, z)
    c.self_test(ta[0], "ConvTrace", {"mean": [("res", 300000), "rej"]})
    c.self_test(tg[0], "ConvTrace", {"gauss": [("res", 300000), "rej"]})
    c.self_test(tz[0], "ConvTrace", {"pan": ["vs", "other", "bw"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C20
@plan("C20", "kernels")
def c20(c):
    q = c.quick
    m = c.background(lambda: c.model("KernelModel", f"KernelModel_{'q' if q else 't'}.cfg", actions=["Pick", "Weight"], workers=2, timeout=850,
                                     what="geometry of Gaussian weights, default width and default sigma are inverse"))
    g = c.background(lambda: c.behaviours("KernelGen", "KernelGen_2.cfg" if q else "KernelGen_3.cfg", limit=4000 if q else 60000))
    exe = c.build("kernels")
    h = c.background(lambda: c.traces(exe, "kernels", {"mode": "history", "n": 600 if q else 10000}, "KernelHistory",
                                      kinds=["new", "blank", "list", "reshape", "copy", "assign", "set", "destroy"]))
    w = c.background(lambda: c.traces(exe, "kernels", {"mode": "gauss", "n": 2400 if q else 40000}, "KernelTrace", timeout=800, kinds=["gauss", "gaussi"]))
    x = c.background(lambda: c.traces(exe, "kernels", {"mode": "misc", "n": 4800 if q else 60000}, "KernelTrace", timeout=800,
                                      kinds=["flat", "toint", "norm", "sigma", "radius", "uniform"]))
    behs, th, tw, tx = gather(g, h, w, x)
    c.replay_behaviours(exe, "kernels", behs, {"mode": "script"}, "KernelHistory", shards=8)
    c.self_test_stateful(th[0], "KernelHistory", {"new": "rej", "list": "els", "reshape": "els", "copy": "sum", "assign": "amx", "set": "rej"})
    c.self_test(tw[0], "KernelTrace", {"gauss": ["o", "rej", ("v", 1000)], "gaussi": ["o", ("v", 30)]})
    c.self_test(tx[0], "KernelTrace", {"flat": ["o", ("v", 1000)], "toint": ["v"], "norm": [("v", 20000)], "sigma": [("v", 5000)], "radius": [("v", 2)],
                                       "uniform": ["o"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C21
@plan("C21", "kernels")
def c21(c):
    q = c.quick
    m = c.background(lambda: c.model("LengthModel", f"LengthModel_{'q' if q else 't'}.cfg", actions=["Longer", "Fraction", "Total"], workers=2,
                                     timeout=850, what="resolved lengths are bounded, monotone and rounded to the nearest integer"))
    exe = c.build("kernels")
    a = c.background(lambda: c.traces(exe, "kernels", {"mode": "lengths", "max": 6 if q else 16}, "KernelTrace", timeout=800, kinds=["length"]))
    r = c.background(lambda: c.traces(exe, "kernels", {"mode": "length", "n": 8000 if q else 200000}, "KernelTrace", timeout=800, kinds=["length"]))
    ta, tr = gather(a, r)
    c.self_test(tr[0], "KernelTrace", {"length": ["v", "vi", "rel", "fix", "rej", "clen", "cfrac"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C08
@plan("C08", "views")
def c08(c):
    q = c.quick
    m = c.background(lambda: c.model("ViewModel", f"ViewModel_{'q' if q else 't'}.cfg", actions=["Pixel", "NextRow"], workers=2, timeout=850,
                                     what="row walk with running indexes stays inside the windows and equals the operation on stand-alone images"))
    g = c.background(lambda: c.behaviours("ViewGen", f"ViewGen_{'q' if q else 't'}.cfg", limit=4000 if q else 60000, mem="4g"))
    exe = c.build("views")
    r = c.background(lambda: c.traces(exe, "views", {"mode": "random", "n": 16000 if q else 240000}, "ViewTrace", timeout=800, kinds=["view"]))
    behs, tr = gather(g, r)
    c.replay_behaviours(exe, "views", behs, {"mode": "script", "per": 4}, "ViewTrace", shards=8)
    c.self_test(tr[0], "ViewTrace", {"view": ["rej", ("ret", 2)]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C18
@plan("C18", "bridge", jni=True)
def c18(c):
    q = c.quick
    m = c.background(lambda: c.model("BridgeModel", f"BridgeModel_{'q' if q else 't'}.cfg", workers=2, timeout=850,
                                     actions=["Lookup", "Acquire", "NoMemory", "Compute", "Scratch", "Fail", "Computed", "Release"],
                                     what="arrays handed out as copies or pins, shared or not, come back with inputs kept and results delivered"))
    exe, short = c.build("bridge", jni=True), c.build("nfaults", jni=True)
    f = c.background(lambda: c.traces(short, "nfaults", {"n": 840 if q else 16800, "most": 16}, "BridgeTrace", timeout=800,
                                      kinds=["native", "short", "none", "left"]))
    h = c.background(lambda: c.traces(exe, "bridge", {"mode": "huge", "n": 28 if q else 280}, "BridgeTrace", timeout=800, kinds=["native"]))
    r = c.background(lambda: c.traces(exe, "bridge", {"mode": "call", "n": 8400 if q else 140000}, "BridgeTrace", timeout=800, kinds=["native"]))
    tr, _, tf = gather(r, h, f)
    c.self_test(tr[0], "BridgeTrace", {"native": ["cpp", "log"]})
    c.self_test(tf[0], "BridgeTrace", {"short": ["log"], "none": ["set", "rej"], "left": ["n"]})
    gather(m)


# ---------------------------------------------------------------------------------------------------- C19
@plan("C19", "bridge", jni=True)
def c19(c):
    q = c.quick
    m = c.background(lambda: c.model("HandleModel", f"HandleModel_{'q' if q else 't'}.cfg", workers=2, timeout=850,
                                     actions=["Init", "Destroy", "SetRule", "SetMin", "SetMax", "SetSave"],
                                     what="handles to native objects in memory which is used again refine independent settings"))
    t = c.background(lambda: c.model("TransferModel", f"TransferModel_{'q' if q else 't'}.cfg", workers=2, timeout=850,
                                     actions=["Blob", "Resize", "Block", "Describe"],
                                     what="blocks, set entries and the shared index queue carry all results to Java"))
    g = c.background(lambda: c.behaviours("HandleGen", "HandleGen_5.cfg" if q else "HandleGen_6.cfg", limit=3000 if q else 40000))
    exe = c.build("bridge", jni=True)
    h = c.background(lambda: c.traces(exe, "bridge", {"mode": "history", "n": 2400 if q else 40000}, "HandleTrace", timeout=800,
                                      kinds=["new", "set", "get", "apply", "process", "destroy"]))
    b = c.background(lambda: c.traces(exe, "bridge", {"mode": "big", "n": 24 if q else 240}, "HandleTrace", timeout=800, kinds=["process"]))
    behs, th, _ = gather(g, h, b)
    c.replay_behaviours(exe, "bridge", behs, {"mode": "script"}, "HandleTrace", shards=8)
    c.self_test_stateful(th[0], "HandleTrace", {"new": "fresh", "set": "rej", "get": "v", "apply": "cpp", "process": "cpp", "destroy": "freed"})
    gather(m, t)


# ---------------------------------------------------------------------------------------------------- C22
@plan("C22", "threads")
def c22(c):
    q = c.quick
    m = c.background(lambda: c.model("ThreadModel", f"ThreadModel_{'q' if q else 't'}.cfg", workers=3, timeout=800,
                                     actions=["Start", "Inside", "Finish"],
                                     what="disjoint steps commute and every interleaving gives what the calls give alone"))
    g2 = c.background(lambda: c.behaviours("ThreadGen", f"ThreadGen_{'25' if q else '27'}.cfg", limit=240 if q else 3000))
    g3 = c.background(lambda: c.behaviours("ThreadGen", f"ThreadGen_{'33' if q else '34'}.cfg", limit=400 if q else 6000))
    b = c.background(lambda: [c.build("threads@thread"), c.build("bridge@thread", jni=True)])
    exe, nat = c.build("threads"), c.build("bridge", jni=True)
    race = gather(b)[0]
    names = ["threads@thread", "bridge@thread"]
    rc, out = c.harness(race[0], {"mode": "probe"}, os.path.join(c.work, "probe.nd"), 60)
    if rc != 0:     # the race detector needs an address space layout which not every kernel gives
        c.log("no race detector here: " + out.strip()[-200:])
        race, names = [exe, nat], ["threads", "bridge"]
    r = c.background(lambda: [c.traces(race[0], names[0], {"mode": "free", "n": 320 if q else 6000}, "ThreadTrace",
                                       kinds=["solo", "begin", "end", "shared"], timeout=600),
                              c.traces(race[1], names[1], {"mode": "free", "n": 320 if q else 6000}, "ThreadTrace",
                                       kinds=["solo", "begin", "end"], timeout=600)])
    b2, b3 = gather(g2, g3)
    tr = c.replay_behaviours(exe, "threads", b2 + b3, {"mode": "steps"}, "ThreadTrace", shards=8, kinds=["step"])
    c.replay_behaviours(nat, "bridge", b2 + b3, {"mode": "steps"}, "ThreadTrace", shards=8, kinds=["step"])
    gather(r)
    c.self_test_stateful(tr[0], "ThreadTrace", {"end": "r", "shared": "d", "begin": "k"})
    gather(m)


# ---------------------------------------------------------------------------------------------------------------- C23
@plan("C23", "faults")
def c23(c):
    q = c.quick
    f = ["Grow", "Grown", "Fits", "Adopt", "Push", "Pop", "PushGot", "Destroy"]
    p = ["More", "MoreGot", "Less", "LessGot", "Shape", "ShapeGot", "Destroy"]
    what = "objects stay sound and nothing is left over, whichever request is refused"
    m = [c.background(lambda: c.model("FaultModel", f"FaultModel_{'q1' if q else 't1'}.cfg", actions=p, what=what)),
         c.background(lambda: c.model("FaultModel", f"FaultModel_{'q2' if q else 't2'}.cfg", actions=f, what=what))]
    if not q:
        m.append(c.background(lambda: c.model("FaultModel", "FaultModel_t3.cfg", actions=f + p, what=what)))
    m += [c.background(lambda v=v: c.refuted("FaultModel", f"FaultModel_v{v}.cfg", "Sound")) for v in (1, 2, 3)]
    g = [c.background(lambda: c.behaviours("FaultGen", "FaultGen_24.cfg", limit=600 if q else 4000)),
         c.background(lambda: c.behaviours("FaultGen", f"FaultGen_{'34' if q else '25'}.cfg", limit=600 if q else 12000))]
    exe = c.build("faults")
    e = c.background(lambda: c.traces(exe, "faults", {"mode": "every", "n": 570 if q else 9120, "most": 16 if q else 60}, "FaultTrace",
                                      kinds=["alone", "try"], timeout=600))
    b = gather(*g)
    tr = c.replay_behaviours(exe, "faults", b[0] + b[1], {"mode": "history"}, "FaultTrace", shards=8, kinds=["alone", "try"], timeout=600)
    gather(e)
    c.self_test_stateful(tr[0], "FaultTrace", {"alone": "left", "try": "sound", "drop": "left"})
    gather(*m)
