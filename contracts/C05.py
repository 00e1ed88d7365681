from vc.contract import *
HARNESS = "C05"
CONTRACTS = []
def add(name, entry, params, ens, req=None, ret=None):
    CONTRACTS.append(Contract(name, entry, params, ens, req, ret=ret, functions="cafes::geometry::" + name.split("(")[0], samples=1500))
for kind, N in (("I", "i"), ("R", "d")):
    for D in (2, 3):
        sm = (-4, 4)
        def B(n, mode="in", D=D, kind=kind): return Arr(n, 2 * D, kind, mode, sm)
        def Pt(n, D=D, kind=kind): return Arr(n, D, kind, "in", sm)
        suf = "<%s,%d>" % ("int" if kind == "I" else "double", D)
        ordered = lambda D, *names: (lambda v: [S.le(getattr(v, n)[d], getattr(v, n)[D + d]) for n in names for d in range(D)])
        def inb(b, p, D): return S.land(*[S.land(S.le(b[d], p[d]), S.lt(p[d], b[D + d])) for d in range(D)])
        def meet(a, b, D): return S.land(*[S.land(S.le(a[d], b[D + d]), S.le(b[d], a[D + d])) for d in range(D)])
        R = (lambda x: S.real(x))
        def e_len(v, D=D):
            tot = c(1)
            for d in range(D):
                l = S.abs(R(v.b[D + d]) - R(v.b[d])); tot = tot * l
                yield "length(%d)" % d, S.eq(v.o[d], l)
            yield "length()", S.eq(v.o[D], tot)
        add("box::length" + suf, "len_%s%d" % (N, D), [B("b"), Out("o", D + 1)], e_len)
        add("point_inside" + suf, "inside_%s%d" % (N, D), [B("b"), Pt("p")], lambda v, D=D: [("point_inside <=> bottom_left <= p < upper_right", S.iff(v.ret, inb(v.b, v.p, D)))], ret="B")
        def e_int(v, D=D):
            yield "intersect <=> the closed boxes share a point", S.iff(v.ret, meet(v.a, v.b, D))
            # witness form: a common point implies intersect
            for _ in v.given(S.land(*[S.land(S.le(v.a[d], v.p[d]), S.le(v.p[d], v.a[D + d]), S.le(v.b[d], v.p[d]), S.le(v.p[d], v.b[D + d])) for d in range(D)])):
                yield "a common point implies intersect", v.ret
        GP = lambda D=D, kind=kind: GhostArr("p", D, kind, sm)
        add("intersect" + suf, "intersect_%s%d" % (N, D), [B("a"), B("b"), GP()], e_int, ordered(D, "a", "b"), ret="B")
        add("check_box_inside" + suf, "check_%s%d" % (N, D), [B("a"), B("b")], lambda v, D=D: [("check_box_inside <=> a part of the second box is in the first", S.iff(v.ret, meet(v.a, v.b, D)))], ordered(D, "a", "b"), ret="B")
        def e_common(v, D=D):
            for d in range(D):
                yield "lower corner %d" % d, S.eq(v.o[d], S.max(v.a[d], v.b[d]))
                yield "upper corner %d" % d, S.eq(v.o[D + d], S.min(v.a[D + d], v.b[D + d]))
            yield "a point is in the result <=> it is in both boxes", S.iff(inb(v.o, v.p, D), S.land(inb(v.a, v.p, D), inb(v.b, v.p, D)))
        for f, en in (("overlap_box", "overlap"), ("box_inside", "binside")):
            add(f + suf, "%s_%s%d" % (en, N, D), [B("a"), B("b"), Arr("o", 2 * D, kind, "out"), GP()], e_common, ordered(D, "a", "b"))
        def e_union(v, D=D):
            for d in range(D):
                yield "lower corner %d" % d, S.eq(v.o[d], S.min(v.a[d], v.b[d]))
                yield "upper corner %d" % d, S.eq(v.o[D + d], S.max(v.a[D + d], v.b[D + d]))
            yield "both boxes are inside", S.imp(S.lor(inb(v.a, v.p, D), inb(v.b, v.p, D)), inb(v.o, v.p, D))
        add("union_box" + suf, "union_%s%d" % (N, D), [B("a"), B("b"), Arr("o", 2 * D, kind, "out"), GP()], e_union, ordered(D, "a", "b"))
        def e_pts(v, D=D):
            yield "number of corners", S.eq(v.ret, 2 ** D)
            for k in range(2 ** D):
                for d in range(D):
                    yield "corner %d direction %d" % (k, d), S.eq(v.o[k * D + d], v.a[d] if (k >> d) % 2 == 0 else v.a[D + d])
        add("get_box_points" + suf, "points_%s%d" % (N, D), [B("a"), Arr("o", D * 2 ** D, kind, "out")], e_pts, ret="I")
