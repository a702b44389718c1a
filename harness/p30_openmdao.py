"""P30: the OpenMDAO components and the MPhys builder, over histories of calls,
with a model solver behind the documented interface."""
import copy, importlib, os, sys, types
import numpy as np
import pbt

REPO = os.environ.get("VERIF_REPO_DIR", "/repo")
sys.dont_write_bytecode = True

# memory that nobody has written is never what a component may hand on
_empty, _empty_like = np.empty, np.empty_like


def _blank(a):
    if a.dtype.kind == "f":
        a.fill(np.nan)
    return a


np.empty = lambda *a, **k: _blank(_empty(*a, **k))
np.empty_like = lambda *a, **k: _blank(_empty_like(*a, **k))

# ------------------------------------------------------- stand-in for OpenMDAO
_missing = object()


class Options:
    def __init__(self):
        self.types, self.vals = {}, {}

    def declare(self, name, default=_missing, values=None, types=None, desc="", **kw):
        self.types[name] = types
        self.vals[name] = default

    def __setitem__(self, name, v):
        if name not in self.types:
            raise KeyError("option %s has not been declared" % name)
        t = self.types[name]
        if t is not None and v is not None and not isinstance(v, t):
            raise TypeError("option %s has type %s" % (name, type(v).__name__))
        self.vals[name] = v

    def __getitem__(self, name):
        v = self.vals[name]
        if v is _missing:
            raise RuntimeError("option %s is required but has not been set" % name)
        return v


class Comm:
    rank, size = 0, 1


class System:
    def __init__(self, **kw):
        self.options, self.comm = Options(), Comm()
        self.initialize()
        for k, v in kw.items():
            self.options[k] = v

    def initialize(self): pass
    def setup(self): pass


class Component(System):
    def __init__(self, **kw):
        self.ins, self.outs = {}, {}
        System.__init__(self, **kw)

    def _add(self, where, name, val=1.0, shape=None, shape_by_conn=False, distributed=False, desc="", tags=None, **kw):
        if name in self.ins or name in self.outs:
            raise ValueError("variable %s already exists" % name)
        if not set(kw) <= {"units", "ref", "ref0", "res_ref", "lower", "upper"}:
            raise TypeError("unexpected keyword %s" % set(kw))
        tags = [tags] if isinstance(tags, str) else list(tags or [])
        n = None if shape_by_conn else int(shape) if shape is not None else np.size(val)
        where[name] = dict(size=n, val=None if n is None else np.array(np.broadcast_to(np.asarray(val, float).ravel() if np.size(val) > 1 else np.asarray(val, float), (n,))), tags=tags, distributed=distributed)

    def add_input(self, name, **kw): self._add(self.ins, name, **kw)
    def add_output(self, name, val=1.0, **kw): self._add(self.outs, name, val=val, **kw)


class IndepVarComp(Component): pass
class ExplicitComponent(Component): pass
class ImplicitComponent(Component): pass


class Group(System):
    def __init__(self, **kw):
        self.subs = []
        System.__init__(self, **kw)

    def add_subsystem(self, name, comp, promotes_inputs=None, promotes_outputs=None, **kw):
        if any(n == name for n, *_ in self.subs):
            raise NameError("subsystem %s already exists" % name)
        self.subs.append((name, comp, list(promotes_inputs or []), list(promotes_outputs or [])))
        return comp


def flat(system, prefix=""):
    """[(component, {input: promoted name}, {output: promoted name})] after setup"""
    system.setup()
    if isinstance(system, Component):
        return [(system, {k: k for k in system.ins}, {k: k for k in system.outs})]
    res = []
    for name, sub, pi, po in system.subs:
        maps = {0: {}, 1: {}}
        for k, ps in enumerate((pi, po)):
            for p in ps:
                a, b = p if isinstance(p, tuple) else (p, p)
                maps[k][a] = b
        seen = {0: set(), 1: set()}
        for comp, i, o in flat(sub):
            new = []
            for k, m in enumerate((i, o)):
                seen[k] |= set(m.values())
                new.append({v: maps[k].get(p, name + "." + p) for v, p in m.items()})
            res.append((comp, new[0], new[1]))
        for k in (0, 1):
            for p in maps[k]:
                if p not in seen[k]:
                    raise RuntimeError("'%s' does not exist in %s to be promoted" % (p, name))
    return res


# ---------------------------------------------------------- the model of pyMISO
def arr(x, what):
    if not isinstance(x, np.ndarray) or x.dtype != np.float64:
        raise RuntimeError("Incompatible format: expected a double array! (%s)" % what)
    if x.ndim != 1:
        raise RuntimeError("Incompatible dimensions: expected a 1D array! (%s)" % what)
    if x.strides[0] != 8:
        raise RuntimeError("Incompatible stride: expected a contiguous array! (%s)" % what)
    return x


def read(inputs):
    if type(inputs) is not dict:
        raise TypeError("inputs: incompatible function arguments")
    return {k: np.array([float(v)]) if type(v) in (int, float) else np.array(arr(v, k)) for k, v in inputs.items()}


class Maths:
    """R(u, z) = K u + c u^3 + C z + u sin(P z);  outputs scale (q.u + u.Q u + sin(p.z) + (e.u)(h.z))"""
    def __init__(self, seed, n, sizes):
        r = np.random.default_rng(seed)
        self.n, self.sizes, self.at, k = n, sizes, {}, 0
        for f, s in sizes.items():
            self.at[f] = slice(k, k + s)
            k += s
        self.K = np.eye(n) * 4 + r.uniform(-0.5, 0.5, (n, n)) / max(1, n) * 2
        self.C, self.P = r.uniform(-1, 1, (n, k)), r.uniform(-1, 1, (n, k))
        self.r = r.integers(1 << 30)

    def z(self, v):
        z = np.zeros(sum(self.sizes.values()))
        for f, s in self.at.items():
            z[s] = v[f]
        return z

    def R(self, u, z): return self.K @ u + 0.3 * u ** 3 + self.C @ z + 0.5 * u * np.sin(self.P @ z)
    def Ju(self, u, z): return self.K + np.diag(0.9 * u ** 2 + 0.5 * np.sin(self.P @ z))
    def Jz(self, u, z): return self.C + (0.5 * u * np.cos(self.P @ z))[:, None] * self.P

    def solve(self, u, z):
        u = np.array(u)
        for _ in range(100):
            d = np.linalg.solve(self.Ju(u, z), self.R(u, z))
            u -= d
            if np.max(np.abs(d)) < 1e-14 * (1 + np.max(np.abs(u))):
                break
        return u

    def out(self, name, size):
        r = np.random.default_rng([self.r, sum(name.encode()), len(name)])
        n, k = self.n, sum(self.sizes.values())
        return r.uniform(-1, 1, (size, n)), r.uniform(-1, 1, (size, n, n)), r.uniform(-1, 1, (size, k)), r.uniform(-1, 1, (size, n)), r.uniform(-1, 1, (size, k))

    def J(self, o, scale, u, z):
        q, Q, p, e, h = o
        return scale * (q @ u + np.einsum("a,kab,b->k", u, Q, u) + np.sin(p @ z) + (e @ u) * (h @ z))

    def dJ(self, o, scale, u, z):
        q, Q, p, e, h = o
        du = q + np.einsum("kab,b->ka", Q, u) + np.einsum("kab,a->kb", Q, u) + (h @ z)[:, None] * e
        dz = np.cos(p @ z)[:, None] * p + (e @ u)[:, None] * h
        return scale * du, scale * dz


class AbstractSolver: pass


class PDESolver(AbstractSolver):
    """fields have sizes, scalars have none"""
    def __init__(self, type, solver_options, comm=None):
        self.opt = copy.deepcopy(solver_options)
        self.opt["solver-type"] = {"type": type} if isinstance(type, str) else type
        s = self.opt["spec"]
        self.m = Maths(s["seed"], s["n"], s["sizes"])
        self.spec, self.outs, self.v, self.lin = s, {}, {}, None
        self.no = set(map(tuple, s.get("no", [])))

    def getOptions(self): return copy.deepcopy(self.opt)
    def getStateSize(self): return self.m.n
    def getNumStates(self): return self.spec["states"]

    def getFieldSize(self, name):
        if name in ("state", "residual", "adjoint"):
            return self.m.n
        s = self.m.sizes.get(name, 0)
        return s if name in self.spec["fields"] else 0

    def getMeshCoordinates(self, mesh_coords): arr(mesh_coords, "mesh_coords")[:] = self.spec["mesh"]

    def set(self, inputs):
        for k, x in read(inputs).items():
            if k in self.m.sizes or k == "state":
                if x.size != (self.m.n if k == "state" else self.m.sizes[k]):
                    raise RuntimeError("size of " + k)
                self.v[k] = x
        return self.v["state"], self.m.z(self.v)

    def allowed(self, *what):
        if what in self.no:
            raise NotImplementedError(str(what))

    def calcResidual(self, inputs, residual):
        u, z = self.set(inputs)
        arr(residual, "residual")[:] = self.m.R(u, z)

    def solveForState(self, inputs, state):
        u, z = self.set(inputs)
        arr(state, "state")[:] = self.m.solve(state, z)

    def linearize(self, inputs): self.lin = self.set(inputs)

    def jac(self, wrt): return self.m.Ju(*self.lin) if wrt == "state" else self.m.Jz(*self.lin)[:, self.m.at[wrt]]

    def jacobianVectorProduct(self, wrt_dot, wrt, res_dot):
        self.allowed("fwd", wrt)
        res_dot = arr(res_dot, "res_dot")
        res_dot += self.jac(wrt) @ arr(wrt_dot, "wrt_dot")

    def vectorJacobianProduct(self, res_bar, wrt, wrt_bar):
        self.allowed("rev", wrt)
        wrt_bar = arr(wrt_bar, "wrt_bar")
        wrt_bar += self.jac(wrt).T @ arr(res_bar, "res_bar")

    def solveForAdjoint(self, inputs, state_bar, adjoint):
        self.lin = self.set(inputs)
        arr(adjoint, "adjoint")[:] = np.linalg.solve(self.m.Ju(*self.lin).T, arr(state_bar, "state_bar"))

    def createOutput(self, output, options=None):
        if output in self.outs:
            raise RuntimeError("Output with name %s already created!" % output)
        size = self.spec["outputs"][output]
        self.outs[output] = (self.m.out(output, size), (options or {}).get("scale", 1.0), {})

    def getOutputSize(self, output): return self.spec["outputs"][output] if output in self.outs else -1

    def oset(self, output, inputs):
        o = self.outs[output]
        for k, x in read(inputs).items():
            o[2][k] = x
        v = {**{k: np.zeros(s) for k, s in self.m.sizes.items()}, "state": np.zeros(self.m.n), **o[2]}
        return o, v["state"], self.m.z(v)

    def calcOutput(self, output, inputs, out_vec):
        o, u, z = self.oset(output, inputs)
        arr(out_vec, "out_vec")[:] = self.m.J(o[0], o[1], u, z)

    def ojac(self, of, inputs, wrt):
        o, u, z = self.oset(of, inputs)
        du, dz = self.m.dJ(o[0], o[1], u, z)
        return du if wrt == "state" else dz[:, self.m.at[wrt]]

    def outputJacobianVectorProduct(self, of, inputs, wrt_dot, wrt, out_dot):
        self.allowed("fwd", of, wrt)
        out_dot = arr(out_dot, "out_dot")
        out_dot += self.ojac(of, inputs, wrt) @ arr(wrt_dot, "wrt_dot")

    def outputVectorJacobianProduct(self, of, inputs, out_bar, wrt, wrt_bar):
        self.allowed("rev", of, wrt)
        wrt_bar = arr(wrt_bar, "wrt_bar")
        wrt_bar += self.ojac(of, inputs, wrt).T @ arr(out_bar, "out_bar")


class MeshWarper(AbstractSolver):
    def __init__(self, warper_options, comm=None):
        s = warper_options["spec"]
        self.vol, self.idx = np.array(s["vol"]), np.array(s["idx"], dtype=np.int32)
        r = np.random.default_rng(s["seed"])
        n = self.vol.size
        A = r.uniform(-1, 1, (n, n))
        self.K = A @ A.T / n + np.eye(n)
        self.inner = np.setdiff1d(np.arange(n), self.idx)
        self.lin = None

    # the same mathematics, for the oracle
    def J(self):
        J = np.array(self.K)
        J[self.idx] = 0
        J[self.idx, self.idx] = 1
        return J

    def Js(self):
        J = np.zeros((self.vol.size, self.idx.size))
        J[self.idx, np.arange(self.idx.size)] = -1
        return J

    def R(self, x, s):
        r = self.K @ (x - self.vol)
        r[self.idx] = x[self.idx] - s
        return r

    def solution(self, s):
        x = np.array(self.vol)
        x[self.idx] = s
        i = self.inner
        x[i] = self.vol[i] - np.linalg.solve(self.K[np.ix_(i, i)], self.K[np.ix_(i, self.idx)] @ (s - self.vol[self.idx])) if i.size else x[i]
        return x

    def getSurfaceCoordsSize(self): return self.idx.size
    def getVolumeCoordsSize(self): return self.vol.size
    def getInitialSurfaceCoords(self, surface_coords): arr(surface_coords, "surface")[:] = self.vol[self.idx]
    def getInitialVolumeCoords(self, volume_coords): arr(volume_coords, "volume")[:] = self.vol

    def getSurfCoordIndices(self, indices):
        if indices.dtype != np.int32 or indices.ndim != 1 or indices.strides[0] != 4:
            raise RuntimeError("Incompatible format!")
        indices[:] = self.idx

    def calcResidual(self, inputs, residual):
        v = read(inputs)
        arr(residual, "residual")[:] = self.R(v["state"], v.get("surf_mesh_coords", np.zeros(self.idx.size)))

    def solveForState(self, a, b=None):
        x = arr(a if b is None else b, "state")
        x[:] = self.solution(x[self.idx])

    def linearize(self, inputs): self.lin = read(inputs)["state"]
    def jac(self, wrt): return {"state": self.J, "surf_mesh_coords": self.Js}[wrt]()

    def jacobianVectorProduct(self, wrt_dot, wrt, res_dot):
        if self.lin is None:
            raise RuntimeError("not linearized")
        d, r = arr(wrt_dot, "wrt_dot"), arr(res_dot, "res_dot")
        J = self.jac(wrt)
        if J.shape != (r.size, d.size):
            raise RuntimeError("sizes of the product with respect to " + wrt)
        r += J @ d

    def vectorJacobianProduct(self, res_bar, wrt, wrt_bar):
        if self.lin is None:
            raise RuntimeError("not linearized")
        b, w = arr(res_bar, "res_bar"), arr(wrt_bar, "wrt_bar")
        J = self.jac(wrt)
        if J.shape != (b.size, w.size):
            raise RuntimeError("sizes of the product with respect to " + wrt)
        w += J.T @ b

    def solveForAdjoint(self, inputs, state_bar, adjoint):
        self.lin = read(inputs)["state"]
        arr(adjoint, "adjoint")[:] = np.linalg.solve(self.J().T, arr(state_bar, "state_bar"))


# -------------------------------------------------- loading the real components
def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


def load(openmdao=True, mphys=True):
    for k in [k for k in sys.modules if k.split(".")[0] in ("miso", "openmdao", "mphys", "mpi4py")]:
        del sys.modules[k]
    MPI = types.SimpleNamespace(COMM_WORLD=Comm())
    module("mpi4py", MPI=MPI)
    if openmdao:
        om = module("openmdao")
        om.api = module("openmdao.api", IndepVarComp=IndepVarComp, ExplicitComponent=ExplicitComponent, ImplicitComponent=ImplicitComponent, Group=Group)
        om.utils = module("openmdao.utils")
        om.utils.mpi = module("openmdao.utils.mpi", MPI=None)
    else:
        sys.modules["openmdao"] = None
    if mphys:
        module("mphys", Builder=object)
    else:
        sys.modules["mphys"] = None
    module("miso.pyMISO", MISOSolver=AbstractSolver, PDESolver=PDESolver, MeshWarper=MeshWarper)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    miso = importlib.import_module("miso")
    assert os.path.realpath(miso.__file__) == os.path.realpath(REPO + "/miso/__init__.py"), miso.__file__
    return miso


PKG = load()


# -------------------------------------------------------------------- generators
class Vars(dict):
    """vectors as the framework hands them over: changed in place, never replaced"""
    def __setitem__(self, k, v):
        if k not in self:
            raise KeyError(k)
        dict.__getitem__(self, k)[:] = v


def given(g, values, strided=False):
    res = Vars()
    for k, x in values.items():
        x = np.array(x, float)
        if strided and x.size > 1 and g.chance(1, 3):
            y = np.full(2 * x.size, np.nan)[::2]
            y[:] = x
            x = y
        dict.__setitem__(res, k, x)
    return res


SCALARS = ["h", "fluid_temp", "current_density:wires", "frequency", "stack_length"]
FIELDS = ["temperature", "peak_flux", "thermal_load"]


def spec(g, mesh=True):
    n = g.irange(1, 5)
    sizes = {}
    if mesh:
        sizes["mesh_coords"] = g.irange(2, 4)
    for s in g.some(SCALARS, 1, 2):
        sizes[s] = 1
    for f in g.some(FIELDS, 1, 2):
        sizes[f] = g.irange(2, 4)
    if not sizes:
        sizes["h"] = 1
    t = g.pick(["thermal", "magnetostatic", "euler", "navierstokes"])
    opt = dict(spec=dict(seed=g.draw(999), n=n, sizes=sizes, fields=[f for f in sizes if f not in SCALARS], states=g.pick([1, n]), outputs={}, mesh=[], no=[]))
    if mesh:
        opt["spec"]["mesh"] = list(g.vec(sizes["mesh_coords"]))
    ext = g.some([f for f in sizes if f in FIELDS])
    if ext:
        opt["external-fields"] = {f: {} for f in ext}
    return t, opt


def inputs_of(g, comp_ins, sizes, old=None):
    return {k: g.vec(sizes[k]) if old is None or g.flip() else old[k] for k in comp_ins}


def same_inputs(g, got, want, key):
    for k in want:
        g.check(np.array_equal(got[k], want[k]), key + " changed what it was given", k)


# ---------------------------------------------------------------------- state
def state(g):
    t, opt = spec(g)
    s = opt["spec"]
    sizes = s["sizes"]
    cp = g.flip()
    if g.chance(1, 3):
        s["no"] = [(m, w) for m in ("fwd", "rev") for w in sizes if g.chance(1, 4)]
    depends = g.shuffled(sizes)
    solver = PDESolver(type=t, solver_options=opt)
    m = solver.m
    kw = dict(check_partials=cp) if cp or g.flip() else {}
    comp = PKG.MISOState(solver=solver, depends=depends, **kw)
    comp.setup()
    g.note(t, opt, "check_partials", cp)
    g.check(set(comp.ins) == set(depends) and set(comp.outs) == {"state"}, "variables of the state", (sorted(comp.ins), sorted(comp.outs)))
    for k in depends:
        i = comp.ins[k]
        g.check(i["size"] == sizes[k], "size of an input", k)
        tag = "mphys_coordinates" if k == "mesh_coords" else "mphys_coupling" if k in opt.get("external-fields", {}) else "mphys_input"
        g.check(i["tags"] == [tag], "tag of an input", (k, i["tags"]))
    g.check(comp.outs["state"]["size"] == m.n and comp.outs["state"]["tags"] == ["mphys_coupling"] and comp.outs["state"]["distributed"], "the output")
    x, u = None, np.zeros(m.n)
    for step in range(g.irange(1, 5)):
        x = inputs_of(g, depends, sizes, x)
        z = m.z(x)
        if g.flip():
            u = g.vec(m.n)
        ins, outs = given(g, x, True), given(g, dict(state=u), True)
        op = g.pick(["residual", "solve", "linear", "linear"])
        if op == "residual":
            res = given(g, dict(state=g.vec(m.n)))
            comp.apply_nonlinear(ins, outs, res)
            g.close(res["state"], m.R(u, z), 1e-12, "residual", step)
            g.check(np.array_equal(outs["state"], u), "the residual changed the state")
        elif op == "solve":
            comp.solve_nonlinear(ins, outs)
            u = np.array(outs["state"])
            g.close(m.R(u, z), np.zeros(m.n), 1e-10, "solved state", step)
        else:
            res = given(g, dict(state=g.vec(m.n)))
            comp.linearize(ins, outs, res)
            for _ in range(g.irange(1, 4)):
                linear(g, comp, "state", lambda w: m.Ju(u, z) if w == "state" else m.Jz(u, z)[:, m.at[w]], depends, sizes, m.n, ins, outs, s["no"], cp)
            if g.flip():
                mag = 1e-25 if g.chance(1, 4) else 1.0
                bar = mag * seed_vec(g, m.n) * (0 if g.chance(1, 4) else 1)
                d_o, d_r = given(g, dict(state=bar)), given(g, dict(state=g.vec(m.n)))
                comp.solve_linear(d_o, d_r, "rev")
                g.close(d_r["state"] / mag, np.linalg.solve(m.Ju(u, z).T, bar) / mag, 1e-9, "adjoint of the state", step)
                g.check(np.array_equal(d_o["state"], bar), "the adjoint changed its right-hand side")
            if g.chance(1, 4):
                d_o, d_r = given(g, dict(state=g.vec(m.n))), given(g, dict(state=g.vec(m.n)))
                expect(g, not cp, lambda: comp.solve_linear(d_o, d_r, "fwd"), "forward solves are not implemented")
            g.check(np.array_equal(outs["state"], u), "derivatives changed the state")
        same_inputs(g, ins, x, "the state component")
        g.label(op)
    g.nontrivial()


def seed_vec(g, n):
    """a direction: any entries, or entries that cancel, or very small ones"""
    v = g.vec(n)
    if n > 1 and g.chance(1, 4):
        v[1::2] = -v[0:n - n % 2:2]
        v[n - n % 2:] = 0.0
        g.label("cancelling entries")
    return v


def expect(g, raises, f, key, msg=""):
    try:
        f()
    except NotImplementedError:
        g.check(raises, key + ": refused", msg)
        return False
    g.check(not raises, key + ": not refused", msg)
    return True


def linear(g, comp, out, J, depends, sizes, n, ins, outs, no, cp):
    """one apply_linear against the dense derivatives J(wrt)"""
    mode = g.pick(["rev", "fwd"])
    wrt = g.some(depends, 2, 3)
    if g.chance(2, 3):
        wrt = wrt + [out]
    size = lambda w: n if w == out else sizes[w]
    has_r = g.chance(7, 8)
    mag = 1e-25 if g.chance(1, 4) else 1.0
    r = mag * seed_vec(g, n) * (0 if mode == "rev" and g.chance(1, 6) else 1)
    d = {w: mag * seed_vec(g, size(w)) * (0 if mode == "fwd" and g.chance(1, 4) else 1) for w in wrt}
    d_i, d_o = given(g, {w: d[w] for w in wrt if w != out}), given(g, {w: d[w] for w in wrt if w == out})
    d_r = given(g, {out: r} if has_r else {})
    bad = [w for w in wrt if (mode, "state" if w == out else w) in no and has_r and np.any(d[w] if mode == "fwd" else r)]
    call = lambda: comp.apply_linear(ins, outs, d_i, d_o, d_r, mode)
    g.label("linear " + mode + (" unimplemented" if bad else ""))
    if not expect(g, bool(bad) and not cp, call, "unimplemented products", (mode, bad)):
        return
    if mode == "fwd":
        want = r + sum((J(w) @ d[w] for w in wrt if w not in bad), np.zeros(n))
        if has_r:
            g.close(d_r[out] / mag, want / mag, 1e-11, "forward products", (wrt, bad))
        for w in wrt:
            g.check(np.array_equal((d_o if w == out else d_i)[w], d[w]), "forward products changed their argument", w)
    else:
        for w in wrt:
            want = d[w] + (J(w).T @ r if has_r and w not in bad else 0)
            g.close((d_o if w == out else d_i)[w] / mag, want / mag, 1e-11, "reverse products", (w, wrt, bad))
        if has_r:
            g.check(np.array_equal(d_r[out], r), "reverse products changed their argument")


# --------------------------------------------------------------------- outputs
def functional(g):
    t, opt = spec(g)
    s = opt["spec"]
    sizes = dict(s["sizes"])
    n = s["n"]
    cp = g.flip()
    name = g.pick(["energy", "flux", "average_state"])
    size = 1 if g.chance(2, 3) else g.irange(2, 4)
    s["outputs"] = {name: size}
    if g.chance(1, 3):
        s["no"] = [(md, name, w) for md in ("fwd", "rev") for w in list(sizes) + ["state"] if g.chance(1, 4)]
    depends = g.shuffled(g.some(list(sizes) + ["state"], 3, 4))
    solver = PDESolver(type=t, solver_options=opt)
    m = solver.m
    kw = {}
    scale = 1.0
    if g.flip():
        scale = g.pick([2.0, 0.5, 3.0])
        kw["func_options"] = dict(scale=scale)
    if cp or g.flip():
        kw["check_partials"] = cp
    if depends or g.flip():
        kw["depends"] = [(d, "other_" + d) if g.chance(1, 4) else d for d in depends]
    comp = PKG.MISOFunctional(solver=solver, func=name, **kw)
    comp.setup()
    g.note(t, opt, "func", name, kw)
    g.check(set(comp.ins) == set(depends) and set(comp.outs) == {name}, "variables of the output", (sorted(comp.ins), sorted(comp.outs)))
    for k in depends:
        i = comp.ins[k]
        g.check(i["size"] == (None if k == "state" else sizes[k]), "size of an input", k)
        tag = {"mesh_coords": "mphys_coordinates", "state": "mphys_coupling"}.get(k, "mphys_coupling" if k in opt.get("external-fields", {}) else "mphys_input")
        g.check(i["tags"] == [tag], "tag of an input", (k, i["tags"]))
    o = comp.outs[name]
    g.check(o["size"] == size and o["tags"] == ["mphys_result" if size == 1 else "mphys_coupling"], "the output", o)
    sizes["state"] = n
    om = m.out(name, size)
    x = None
    for step in range(g.irange(1, 5)):
        x = inputs_of(g, depends, sizes, x)
        full = {**{k: np.zeros(v) for k, v in sizes.items()}, **x}
        u, z = full["state"], m.z(full)
        ins = given(g, x, True)
        if g.flip():
            outs = given(g, {name: g.vec(size)})
            comp.compute(ins, outs)
            g.close(outs[name], m.J(om, scale, u, z), 1e-12, "value", step)
            g.label("value")
        else:
            du, dz = m.dJ(om, scale, u, z)
            J = lambda w: du if w == "state" else dz[:, m.at[w]]
            mode = g.pick(["rev", "fwd"])
            wrt = g.some(depends, 2, 3)
            has = g.chance(7, 8)
            mag = 1e-25 if g.chance(1, 4) else 1.0
            r, d = mag * seed_vec(g, size), {w: mag * seed_vec(g, sizes[w]) for w in wrt}
            d_i, d_o = given(g, d), given(g, {name: r} if has else {})
            bad = [w for w in wrt if (mode, name, w) in s["no"] and has]
            g.label("product " + mode + (" unimplemented" if bad else ""))
            if expect(g, bool(bad) and not cp, lambda: comp.compute_jacvec_product(ins, d_i, d_o, mode), "unimplemented products", (mode, bad)):
                if mode == "fwd":
                    if has:
                        g.close(d_o[name] / mag, (r + sum((J(w) @ d[w] for w in wrt if w not in bad), np.zeros(size))) / mag, 1e-11, "forward products", (wrt, bad))
                    for w in wrt:
                        g.check(np.array_equal(d_i[w], d[w]), "forward products changed their argument", w)
                else:
                    for w in wrt:
                        g.close(d_i[w] / mag, (d[w] + (J(w).T @ r if has and w not in bad else 0)) / mag, 1e-11, "reverse products", (w, wrt, bad))
                    if has:
                        g.check(np.array_equal(d_o[name], r), "reverse products changed their argument")
        same_inputs(g, ins, x, "the output component")
    g.nontrivial()


# ---------------------------------------------------------------------- warper
def warper_spec(g):
    n = g.irange(2, 7)
    idx = g.shuffled(g.some(range(n), 1, 2) or [n - 1])
    return dict(spec=dict(seed=g.draw(999), vol=list(g.vec(n)), idx=idx))


def warper(g):
    w = MeshWarper(warper_options=warper_spec(g))
    comp = PKG.MISOMeshWarper(warper=w)
    comp.setup()
    n, k = w.vol.size, w.idx.size
    g.note("vol", n, "surface", list(w.idx))
    S, V = "surf_mesh_coords", "vol_mesh_coords"
    g.check(set(comp.ins) == {S} and set(comp.outs) == {V}, "variables of the warper")
    g.check(np.array_equal(comp.ins[S]["val"], w.vol[w.idx]) and np.array_equal(comp.outs[V]["val"], w.vol), "initial coordinates")
    g.check(comp.ins[S]["tags"] == ["mphys_coordinates"] and comp.outs[V]["tags"] == ["mphys_coupling"], "tags")
    x, u = w.vol[w.idx], np.array(w.vol)
    for step in range(g.irange(1, 5)):
        if g.flip():
            x = g.vec(k)
        if g.flip():
            u = g.vec(n)
        ins, outs = given(g, {S: x}), given(g, {V: u})
        op = g.pick(["residual", "solve", "linear"])
        if op == "residual":
            res = given(g, {V: g.vec(n)})
            comp.apply_nonlinear(ins, outs, res)
            g.close(res[V], w.R(u, x), 1e-12, "residual of the warper", step)
            g.check(np.array_equal(outs[V], u), "the residual changed the coordinates")
        elif op == "solve":
            comp.solve_nonlinear(ins, outs)
            u = np.array(outs[V])
            g.close(u, w.solution(x), 1e-11, "volume coordinates", step)
        else:
            res = given(g, {V: g.vec(n)})
            comp.linearize(ins, outs, res)
            for _ in range(g.irange(1, 3)):
                linear(g, comp, V, lambda q: w.J() if q == V else w.Js(), [S], {S: k}, n, ins, outs, [], False)
            if g.flip():
                mag = 1e-25 if g.chance(1, 4) else 1.0
                bar = mag * seed_vec(g, n) * (0 if g.chance(1, 6) else 1)
                d_o, d_r = given(g, {V: bar}), given(g, {V: g.vec(n)})
                comp.solve_linear(d_o, d_r, "rev")
                g.close(d_r[V] / mag, np.linalg.solve(w.J().T, bar) / mag, 1e-9, "adjoint of the warper", step)
                g.check(np.array_equal(d_o[V], bar), "the adjoint changed its right-hand side")
            if g.chance(1, 4):
                expect(g, True, lambda: comp.solve_linear(given(g, {V: g.vec(n)}), given(g, {V: g.vec(n)}), "fwd"), "forward solves are not implemented")
        same_inputs(g, ins, {S: x}, "the warper")
        g.label(op)
    g.nontrivial()


# ----------------------------------------------------- the whole model (builder)
def model(g):
    from miso.mphys.miso_builder import MISOBuilder, MISOMeshGroup
    t, opt = spec(g)
    s = opt["spec"]
    sizes = s["sizes"]
    wo = warper_spec(g)
    with_warper = g.chance(3, 4)
    if with_warper:
        sizes["mesh_coords"] = len(wo["spec"]["vol"])
        s["mesh"] = wo["spec"]["vol"]
    cp = g.flip()
    abb = {"thermal": "conduct", "magnetostatic": "em"}.get(t, "aero")
    others = [k for k in sizes if k != "mesh_coords"]
    outputs, scales = {}, {}
    for k, f in enumerate(g.some(["energy", "flux", "force", "loss"], 2, 3) or ["energy"]):
        s["outputs"][f] = 1 if g.chance(2, 3) else 2
        key = (f + "_stator", f) if g.chance(1, 3) else f
        outputs[key] = {}
        if g.chance(3, 4):
            outputs[key]["depends"] = g.shuffled(g.some(list(sizes) + ["state"], 3, 4))
        scales[f] = 1.0
        if g.flip():
            scales[f] = g.pick([2.0, 0.5])
            outputs[key]["options"] = dict(scale=scales[f])
    if cp and g.chance(1, 2):
        s["no"] = [("rev", w) for w in others if g.chance(1, 4)] + [("rev", f, w) for f in s["outputs"] for w in others if g.chance(1, 6)]
    solver_type = {"type": t} if g.flip() else t
    warper_type = "mfem" if with_warper else None
    args = (solver_type, opt, g.shuffled(others), warper_type, wo if with_warper else None, outputs)
    keep = copy.deepcopy(args)
    b = MISOBuilder(*args, check_partials=cp) if cp or g.flip() else MISOBuilder(*args)
    if g.flip():
        # the builder keeps copies
        args[2].append("nonsense")
        args[5]["nonsense"] = {}
        outputs = keep[5]
    b.initialize(Comm())
    g.note(keep, "check_partials", cp)
    g.check(b.get_ndof() == s["states"] and b.get_number_of_nodes() == s["n"] // s["states"], "numbers of states and nodes")
    V, U = "x_%s_vol" % abb, abb + "_state"
    parts = []
    X0 = "x_%s0" % abb
    vals = {}
    if with_warper:
        coords = flat(b.get_mesh_coordinate_subsystem(scenario_name="cruise"))
        g.check(len(coords) == 1 and set(coords[0][2].values()) == {X0}, "mesh coordinate group", coords)
        g.check(np.array_equal(coords[0][0].outs["x_%s0" % abb]["val"], wo["spec"]["vol"] and np.array(wo["spec"]["vol"])[wo["spec"]["idx"]]), "initial surface coordinates")
        g.check(coords[0][0].outs[X0]["tags"] == ["mphys_coordinates"], "tag of the coordinates")
    else:
        try:
            flat(b.get_mesh_coordinate_subsystem())
            g.check(False, "a mesh group without a warper")
        except NotImplementedError:
            pass
    parts += flat(b.get_pre_coupling_subsystem(scenario_name="cruise"))
    g.check(len(parts) == int(with_warper), "pre-coupling group")
    parts += flat(b.get_coupling_group_subsystem(scenario_name="cruise"))
    parts += flat(b.get_post_coupling_subsystem())
    g.check(len(parts) == int(with_warper) + 1 + len(outputs), "components of the model")
    # independent variables
    x = {}
    S = "x_" + abb
    x[S if with_warper else V] = None
    for k in others:
        x[k] = None
    size = {k: sizes[k] for k in others}
    size[S if with_warper else V] = len(wo["spec"]["idx"]) if with_warper else sizes["mesh_coords"]
    produced = set(x)
    for comp, i, o in parts:
        for v, p in i.items():
            g.check(p in produced, "inputs of the model are connected", (type(comp).__name__, v, p, sorted(produced)))
        produced |= set(o.values())
    names = {k if isinstance(k, str) else k[1]: k if isinstance(k, str) else k[0] for k in outputs}
    g.check(set(names.values()) <= produced and U in produced, "outputs of the model", sorted(produced))
    maths = Maths(s["seed"], s["n"], sizes)
    ref_w = MeshWarper(wo) if with_warper else None

    def reference(x):
        v = ref_w.solution(x[S]) if with_warper else x[V]
        full = {**{k: x[k] for k in others}, "mesh_coords": v}
        z = maths.z(full)
        u = maths.solve(np.zeros(s["n"]), z)
        vals = {}
        for f in s["outputs"]:
            key = [k for k in outputs if k == f or (isinstance(k, tuple) and k[1] == f)][0]
            dep = keep[5][key].get("depends", [])
            zz = maths.z({k: full[k] if k in dep else np.zeros(sizes[k]) for k in sizes})
            vals[f] = (u if "state" in dep else np.zeros(s["n"]), zz, dep)
        return v, u, z, vals

    data = {p: g.vec(size[p]) if p in size else None for p in x}
    for step in range(g.irange(1, 3)):
        for p in size:
            if g.flip():
                data[p] = g.vec(size[p])
        v, u, z, ov = reference({**data})
        for comp, i, o in parts:
            ins = given(g, {k: data[p] for k, p in i.items()}, isinstance(comp, (PKG.MISOState, PKG.MISOFunctional)))
            start = {k: data.get(p) if data.get(p) is not None and g.flip() else (comp.outs[k]["val"] if isinstance(comp, ImplicitComponent) else np.zeros(comp.outs[k]["size"])) for k, p in o.items()}
            outs = given(g, start)
            if isinstance(comp, ImplicitComponent):
                comp.solve_nonlinear(ins, outs)
            else:
                comp.compute(ins, outs)
            for k, p in o.items():
                data[p] = np.array(outs[k])
        g.close(data[U], u, 1e-9, "state of the model", step)
        g.close(data[V], v, 1e-9, "coordinates of the model", step)
        for f, q in names.items():
            g.close(data[q], maths.J(maths.out(f, s["outputs"][f]), scales[f], ov[f][0], ov[f][1]), 1e-9, "output of the model", (step, f))
        if not g.flip():
            continue
        # total derivatives in reverse mode
        f = g.pick(sorted(names))
        bar = g.vec(s["outputs"][f])
        bars = {p: np.zeros(d.size) for p, d in data.items()}
        bars[names[f]] = np.array(bar)
        lin = []
        for comp, i, o in parts:
            ins, outs = given(g, {k: data[p] for k, p in i.items()}), given(g, {k: data[p] for k, p in o.items()})
            if isinstance(comp, ImplicitComponent):
                comp.linearize(ins, outs, given(g, {k: np.zeros(data[p].size) for k, p in o.items()}))
            lin.append((ins, outs))
        for (comp, i, o), (ins, outs) in reversed(list(zip(parts, lin))):
            d_i = given(g, {k: np.zeros(data[p].size) for k, p in i.items()})
            if isinstance(comp, ImplicitComponent):
                k, p = list(o.items())[0]
                d_o, d_r = given(g, {k: bars[p]}), given(g, {k: g.vec(data[p].size) if g.flip() else np.zeros(data[p].size)})
                comp.solve_linear(d_o, d_r, "rev")
                psi = given(g, {k: -d_r[k]})
                comp.apply_linear(ins, outs, d_i, given(g, {}), psi, "rev")
            else:
                comp.compute_jacvec_product(ins, d_i, given(g, {k: bars[p] for k, p in o.items()}), "rev")
            for k, p in i.items():
                bars[p] += d_i[k]
        # by the chain rule on the mathematics
        no = set(map(tuple, s["no"]))
        uu, zz, dep = ov[f]
        du, dz = maths.dJ(maths.out(f, s["outputs"][f]), scales[f], uu, zz)
        psi = np.linalg.solve(maths.Ju(u, z).T, du.T @ bar) if "state" in dep else np.zeros(s["n"])
        rz = maths.Jz(u, z)
        tot = {k: (dz[:, maths.at[k]].T @ bar if k in dep and ("rev", f, k) not in no else 0) - (rz[:, maths.at[k]].T @ psi if ("rev", k) not in no else 0) for k in sizes}
        for k in others:
            g.close(bars[k], tot[k] + np.zeros(sizes[k]), 1e-8, "total derivative", (f, k, step))
        if with_warper:
            chi = np.linalg.solve(ref_w.J().T, tot["mesh_coords"])
            g.close(bars[S], -(ref_w.Js().T @ chi), 1e-8, "total derivative by the surface", (f, step))
        else:
            g.close(bars[V], tot["mesh_coords"], 1e-8, "total derivative by the mesh", (f, step))
        g.label("totals")
    g.label(abb + (" warper" if with_warper else ""))
    g.nontrivial()


# ---------------------------------------------------------- package and own mesh
def package(g):
    have = g.pick([(1, 1), (1, 0), (0, 1), (0, 0)])
    g.note("openmdao %d, mphys %d" % have)
    keep = {k: m for k, m in sys.modules.items() if k.split(".")[0] in ("miso", "openmdao", "mphys", "mpi4py")}
    try:
        m = load(*have)
        names = ["MISOSolver", "PDESolver", "MeshWarper"]
        if have[0]:
            names += ["MISOMeshWarper", "MISOMesh", "MISOState", "MISOFunctional"]
            if have[1]:
                names += ["MISOBuilder", "MISOMeshGroup"]
        for n in names:
            g.check(hasattr(m, n), "names of the package", n)
        for n in ("MISOState", "MISOBuilder"):
            if n not in names:
                g.check(not hasattr(m, n), "names of the package without its dependencies", n)
    finally:
        for k in [k for k in sys.modules if k.split(".")[0] in ("miso", "openmdao", "mphys", "mpi4py")]:
            del sys.modules[k]
        sys.modules.update(keep)
    t, opt = spec(g)
    comp = PKG.MISOMesh(solver=PDESolver(type=t, solver_options=opt))
    comp.setup()
    name = "x_%s0" % {"thermal": "conduct", "magnetostatic": "em"}.get(t, "aero")
    g.check(set(comp.outs) == {name} and not comp.ins, "output of the mesh", sorted(comp.outs))
    g.check(np.array_equal(comp.outs[name]["val"], opt["spec"]["mesh"]), "mesh coordinates")
    g.check(comp.outs[name]["tags"] == ["mphys_coordinates"], "tag of the mesh")
    g.nontrivial()


if __name__ == "__main__":
    sys.exit(pbt.main("P30", [("state", state, 4000, 60000), ("functional", functional, 4000, 60000), ("warper", warper, 3000, 40000), ("model", model, 3000, 50000), ("package", package, 100, 400)],
                      "a case counts if the component or model was set up and at least one request compared",
                      ["one MPI rank", "a model solver behind the interface the C++ solvers are checked for in P24 and P29", "a stand-in for OpenMDAO that calls components as OpenMDAO does: vectors changed in place, products accumulate, derivatives after linearize"]))
