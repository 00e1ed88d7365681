from vc.contract import *
import re
HARNESS = "C31"; VECMODEL = True
CONTRACTS = []
NA = 24
SOLVE, SRC, SING, LAST, CTRL, MASS, BC, KRYLOV, RHS, Y, SURF = 0, 2, 4, 6, 8, 9, 11, 12, 14, 16, 18
def quiet(E, ctx):
    E.hpat.append((re.compile(r"[^(]*operator<<"), lambda E, st, args, n: args[0]))
def mk(dim, sem):
    C = 1 if dim == 2 else 3; n = 3 * dim
    MEAN = SURF + n; CROSS = MEAN + 2 * dim; SL = CROSS + 2 * C; PM = SL + n; PC = PM + 2 * dim; END = PC + 2 * C
    P = lambda what: [Int("what", (what, what)), In("h", dim, (.1, 1)), InI("b", 2 * dim, (0, 5)), Int("size", (0, 9)), In("st", 20), InI("fl", 4, (0, 1)), Fns("f", END, NA, always=True), Out("o", 6), OutI("bad", 6)]
    req = lambda what: (lambda v: [S.eq(v.what, what)] + [S.land(S.le(0, v.fl[k]), S.le(v.fl[k], 1)) for k in range(4)])
    nm = "SEM" if sem else "DtoN"
    ap = lambda v, k, *a: v.f(k, *(list(a) + [c(0)] * (NA - len(a))))
    # the right-hand side of the fluid problem for the control x: source, singular source and control, boundary values or none
    def rhs(v, x, src, sing, forces):
        m = [ap(v, CTRL, *x, forces), c(0)]
        r0 = ap(v, MASS, *m) + S.ite(src, ap(v, SRC), c(0)) + S.ite(sing, ap(v, SING), c(0))
        return [r0, S.ite(src, ap(v, BC), c(0))]
    solve = lambda v, r: [ap(v, SOLVE + k, *r) for k in range(2)]
    def after(v, x, src, rigid, sing):
        u = solve(v, rhs(v, x, src, sing, S.ite(src, c(1), c(0)) if sem else c(0)))
        g = [ap(v, SURF + k, *u, S.ite(rigid, c(1), c(0))) for k in range(n)]
        s = [ap(v, SL + k, *g) for k in range(n)] if sem else g
        w = solve(v, [ap(v, RHS, *s), c(0)])
        if not sem: return [ap(v, Y + k, *w) for k in range(2)]
        return [ap(v, Y + k, *w, *[ap(v, PM + i, *w) for i in range(2 * dim)], *[ap(v, PC + i, *w) for i in range(2 * C)]) for k in range(2)]
    F = S.eq(c(0), c(1)); T = S.eq(c(0), c(0))
    x0 = lambda v: [v.st[12], v.st[13]]; ctl = lambda v: [v.st[8], v.st[9]]
    sing = lambda v: F if sem else S.eq(v.fl[3], 1)
    def common(v):
        yield "success; vectors, boundary conditions and mesh are those of the fluid problem", S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0))
        yield "the fluid solver is set up once; the operator has one value per component and node of the particles", S.land(S.eq(v.bad[1], 1), S.eq(v.bad[3], dim * v.size), S.eq(v.bad[4], dim * v.size), S.eq(v.bad[5], 1))
    def op(v):
        for x in common(v): yield x
        y = after(v, x0(v), S.eq(v.fl[0], 1), F if sem else S.eq(v.fl[1], 1), F if sem else S.eq(v.fl[2], 1))
        for k in range(2): yield "the operator is fluid solve, surface values, spreading, fluid solve, values in the particles: entry %d" % k, S.eq(v.o[k], y[k])
    def rh(v):
        for x in common(v): yield x
        y = after(v, ctl(v), T, F if sem else T, sing(v))
        for k in range(2): yield "the right-hand side of the control problem is minus the operator with all the data: entry %d" % k, S.eq(v.o[k], -y[k])
    def so(v):
        for x in common(v): yield x
        yield "one Krylov solve", S.eq(v.bad[2], 1)
        y = after(v, x0(v), F, F, F)
        for k in range(2): yield "the Krylov solver is given the linear part of the operator, without any data: entry %d" % k, S.eq(v.o[4 + k], y[k])
        x = [ap(v, KRYLOV + k, v.st[10], v.st[11]) for k in range(2)]
        for k in range(2): yield "the control is the one the Krylov solver returns: entry %d" % k, S.eq(v.o[2 + k], x[k])
        u = solve(v, rhs(v, x, T, sing(v), c(1) if sem else c(0)))
        for k in range(2): yield "the fluid is that of the final control with the data, and of nothing else%s: entry %d" % ("" if sem else ", with the singular field", k), S.eq(v.o[k], u[k] + S.ite(sing(v), ap(v, LAST + k), c(0)))
    fn = "problem::sem_matrix, SEM::" if sem else "problem::DtoN_matrix, DtoN::"
    K = dict(ret="I", handlers=quiet, samples=60, note="bounded: two particles, of 1 and 2 surface points")
    e = ("sem_%d" if sem else "dton_%d") % dim
    CONTRACTS.append(Contract("%s operator<%dD>" % (nm, dim), e, P(0), op, req(0), functions=fn + "create_Mat_and_Vec, problem::init_problem, set_rhs_problem", **K))
    CONTRACTS.append(Contract("%s setup_RHS<%dD>" % (nm, dim), e, P(1), rh, req(1), functions=fn + "setup_RHS, init_problem, set_rhs_problem", **K))
    CONTRACTS.append(Contract("%s solve<%dD>" % (nm, dim), e, P(2), so, req(2), functions=fn + "solve" + ("" if sem else ", solve_last_problem") + ", init_problem, set_rhs_problem", **K))
    if not sem: return
    def ve(v):
        for x in common(v): yield x
        g = [ap(v, SURF + k, v.st[0], v.st[1], c(0)) for k in range(n)]
        for k in range(2 * dim): yield "the velocity of a particle is the mean of the field over its surface: particle %d, component %d" % (k // dim, k % dim), S.eq(v.o[k], ap(v, MEAN + k, *g))
    def fo(v):
        for x in common(v): yield x
        yield "forces and torques are those of the control, without singular forces", S.eq(v.o[0], c(1))
    CONTRACTS.append(Contract("SEM get_new_velocities<%dD>" % dim, e, P(3), ve, req(3), functions="SEM::get_new_velocities", **K))
    CONTRACTS.append(Contract("SEM get_new_forces_torques<%dD>" % dim, e, P(4), fo, req(4), functions="SEM::get_new_forces_torques", **{**K, "ret": "I"}))
for dim in (2, 3):
    for sem in (False, True): mk(dim, sem)
