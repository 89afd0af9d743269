"""the layout the user described is the layout that is simulated and reported on"""
import os
import warnings
import numpy as np
import fenics as f
import festim as F
from ..oracle import Report
from ..build import cell_values
from .common import result, cover_of


class Probe(F.DerivedQuantity):
    def __init__(self, field):
        super().__init__(field)
        self.title = "probe"

    def compute(self):
        self.got = cell_values(self.function)
        return 0.0


def container(v, how):
    if how == "array":
        return np.array(v)
    if how == "tuple":
        return tuple(v)
    return list(v)


def nested(b):
    return b if isinstance(b[0], list) else [b]


def mesh_1d(case):
    return F.MeshFromVertices(container(case["vertices"], case["container"]), type=case.get("type", "cartesian"))


def grid_id(table, x, l, n):
    """entry of a table indexed by grid box"""
    i = [min(int(max(x[k], 0.0) / l[k] * n[k]), n[k] - 1) for k in range(len(l))]
    t = table
    for k in i:
        t = t[k]
    return t


def side(x, l):
    """which face of the box, and the position in it"""
    for k in range(len(l)):
        if abs(x[k]) < 1e-9 * l[k]:
            return 2 * k
        if abs(x[k] - l[k]) < 1e-9 * l[k]:
            return 2 * k + 1
    return None


def facet_rule(case, x):
    l, n = case["l"], case["n"]
    s = side(x, l)
    if s is None:
        return None
    y = [x[k] for k in range(len(l)) if k != s // 2]
    ll = [l[k] for k in range(len(l)) if k != s // 2]
    return case["surf_table"][s][0 if y[0] < .5 * ll[0] else 1]


def mesh_nd(case, wd):
    l, n = case["l"], case["n"]
    if len(l) == 2:
        mesh = f.RectangleMesh(f.Point(0, 0), f.Point(*l), n[0], n[1], case["diag"])
    else:
        mesh = f.BoxMesh(f.Point(0, 0, 0), f.Point(*l), *n)
    d = len(l)
    mesh.init(d - 1, d)
    vm = f.MeshFunction("size_t", mesh, d, 0)
    for c in f.cells(mesh):
        vm[c] = grid_id(case["vol_table"], c.midpoint()[:][:d], l, n)
    sm = f.MeshFunction("size_t", mesh, d - 1, 0)
    mvc = f.MeshValueCollection("size_t", mesh, d - 1)
    for ft in f.facets(mesh):
        if ft.exterior():
            i = facet_rule(case, ft.midpoint()[:][:d])
            sm[ft] = i
            if i:
                mvc.set_value(ft.index(), i)
    if case["via"] == "memory":
        return F.Mesh(mesh=mesh, volume_markers=vm, surface_markers=sm, type=case.get("type", "cartesian"))
    vm.rename("f", "f")
    sm.rename("f", "f")
    mvc.rename("f", "f")
    vf, sf = os.path.join(wd, "v.xdmf"), os.path.join(wd, "s.xdmf")
    with f.XDMFFile(vf) as fh:
        fh.write(vm)
    with f.XDMFFile(sf) as fh:
        fh.write(sm if case["via"] == "xdmf" else mvc)
    return F.MeshFromXDMF(volume_file=vf, boundary_file=sf, type=case.get("type", "cartesian"))


def run(case, wd):
    rep = Report()
    one = case["kind"] == "1d"
    mesh = mesh_1d(case) if one else mesh_nd(case, wd)
    dim = 1 if one else len(case["l"])
    size = case["size"] if one else max(case["l"])
    g = [100.0 / size, 37.0 / size, -23.0 / size][:dim]
    T = 400.0
    for c, s in zip(g, (F.x, F.y, F.z)):
        T = T + c * s

    def Tof(X):
        return 400.0 + X @ np.array(g)

    mats = []
    for m in case["materials"]:
        kw = dict(id=m["id"], D_0=m["D"], E_D=0)
        if m.get("borders") is not None:
            kw["borders"] = [list(b) for b in m["borders"]] if isinstance(m["borders"][0], list) else list(m["borders"])
        mats.append(F.Material(**kw))
    # ------------------------------------------------ what the user described
    X = mesh.mesh.coordinates()
    cells = mesh.mesh.cells()
    mid = X[cells].mean(axis=1)
    if one:
        v = np.unique(np.array(case["vertices"], float))
        rep.see("vertices", len(v))
        if len(X) != len(v) or np.abs(np.sort(X[:, 0]) - v).max() > 1e-10 * size:
            rep.findings.append(dict(what="the mesh has other vertices (%d) than those given (%d)" % (len(X), len(v)), mech="vertices"))
        want = np.zeros(len(cells), dtype=int)
        for c, x in enumerate(mid[:, 0]):
            for m in case["materials"]:
                if m.get("borders") is None:
                    want[c] = m["id"]
                    continue
                bs = nested(m["borders"])
                ids = m["id"] if isinstance(m["id"], list) else [m["id"]] * len(bs)
                for b, i in zip(bs, ids):
                    if b[0] < x < b[1]:
                        want[c] = i
        facets = {1: [(X[:, 0].argmin(),)], 2: [(X[:, 0].argmax(),)]}
    else:
        want = np.array([grid_id(case["vol_table"], x, case["l"], case["n"]) for x in mid])
        facets = {}
        for c in cells:
            for k in range(dim + 1):
                ft = tuple(sorted(int(v) for j, v in enumerate(c) if j != k))
                x = X[list(ft)]
                for q in range(dim):
                    for v in (0.0, case["l"][q]):
                        if np.all(np.abs(x[:, q] - v) < 1e-9 * case["l"][q]):
                            i = facet_rule(case, x.mean(axis=0))
                            if i:
                                facets.setdefault(i, set()).add(ft)
        facets = {k: sorted(v) for k, v in facets.items()}
    P = X[cells]
    if dim == 1:
        vol = np.abs(P[:, 1, 0] - P[:, 0, 0])
    else:
        vol = np.abs(np.linalg.det(P[:, 1:] - P[:, :1])) / (2 if dim == 2 else 6)

    def area(ft):
        p = X[list(ft)]
        if dim == 1:
            return 1.0
        if dim == 2:
            return np.linalg.norm(p[1] - p[0])
        return .5 * np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0]))

    # ------------------------------------------------ what is reported
    qs = []

    def q(obj, name, val, scale):
        obj.want, obj.name, obj.scale = val, name, scale
        qs.append(obj)
    vids = sorted(set(int(v) for v in want))
    for i in vids:
        k = want == i
        t = Tof(X[cells[k]].reshape(-1, dim))
        q(F.TotalVolume("T", i), "total over volume", float((vol[k] * Tof(mid[k])).sum()), None)
        q(F.AverageVolume("T", i), "average over volume", float((vol[k] * Tof(mid[k])).sum() / vol[k].sum()), None)
        q(F.MaximumVolume("T", i), "maximum over volume", float(t.max()), None)
        q(F.MinimumVolume("T", i), "minimum over volume", float(t.min()), None)
    for i, fs in sorted(facets.items()):
        a = np.array([area(ft) for ft in fs])
        tm = np.array([Tof(X[list(ft)]).mean() for ft in fs])
        tt = np.concatenate([Tof(X[list(ft)]) for ft in fs])
        q(F.TotalSurface("T", i), "total over surface", float((a * tm).sum()), None)
        q(F.AverageSurface("T", i), "average over surface", float((a * tm).sum() / a.sum()), None)
        q(F.MaximumSurface("T", i), "maximum over surface", float(tt.max()), None)
        q(F.MinimumSurface("T", i), "minimum over surface", float(tt.min()), None)
    sids = sorted(facets)
    fixed = case["fixed"]
    probe = Probe("solute")
    dq = F.DerivedQuantities([o for o in qs] + [probe])
    model = F.Simulation(mesh=mesh, materials=mats[0] if case.get("bare") and len(mats) == 1 else mats, log_level=40, temperature=T,
                         settings=F.Settings(1e-12, 1e-12, transient=False),
                         boundary_conditions=[F.DirichletBC(i, v, 0) for i, v in fixed], exports=[dq])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model.initialise()
        model.run()
    # ------------------------------------------------ judgement
    rep.see("models")
    got = model.mesh.volume_markers.array()
    if not np.array_equal(got, want):
        k = int(np.nonzero(got != want)[0][0])
        rep.findings.append(dict(what="cell at %s belongs to volume %s, the description says %s" % (mid[k].tolist(), int(got[k]), int(want[k])),
                                 mech="marker:volume"))
    rep.see("cells", len(want))
    rep.see("volumes", len(vids))
    rep.see("surfaces", len(sids))
    row = dq.data[-1]
    vals = row[1:1 + len(qs)]
    for o, v in zip(qs, vals):
        err = abs(float(v) - o.want) / abs(o.want)
        rep.mx("report", err / 1e-9)
        rep.see("values")
        if not err < 1e-9:
            where = getattr(o, "volume", None) if "volume" in o.name else o.surface
            rep.findings.append(dict(what="%s %s of a known linear temperature is %r, it should be %r" % (o.name, where, v, o.want),
                                     mech="report:" + o.name))
    # imposed values sit on their surface and only there
    c = probe.got
    nodal = np.full(len(X), np.nan)
    nodal[cells.reshape(-1)] = c.reshape(-1)
    owner = {}
    for i, fs in facets.items():
        for ft in fs:
            for v in ft:
                owner.setdefault(v, set()).add(i)
    fx = dict(fixed)
    hi = max(v for _, v in fixed)
    for v, own in owner.items():
        own = [i for i in own if i in fx]
        if len(own) == 1:
            err = abs(nodal[v] - fx[own[0]]) / hi
            rep.mx("imposed", err / 1e-9)
            rep.see("imposed")
            if not err < 1e-9:
                rep.findings.append(dict(what="concentration at %s on surface %d is %r, %r is imposed there" % (
                    X[v].tolist(), own[0], nodal[v], fx[own[0]]), mech="imposed"))
                break
    free = [v for v in range(len(X)) if not (owner.get(v, set()) & set(fx))]
    if free and len(set(fx.values())) > 1:
        lo = min(fx.values())
        w = nodal[free]
        rep.see("free", len(free))
        tol = 1e-7 * hi
        if not (np.all(w > lo - tol) and np.all(w < hi + tol)) and dim == 1:
            rep.findings.append(dict(what="a free node lies outside the imposed values", mech="imposed:range"))
    if one:
        # a constant flux: D times slope is the same in every cell
        D = {}
        for m in case["materials"]:
            for i in (m["id"] if isinstance(m["id"], list) else [m["id"]]):
                D[i] = m["D"]
        Dc = np.array([D[int(i)] for i in want])
        h = X[cells[:, 1], 0] - X[cells[:, 0], 0]
        J = Dc * (nodal[cells[:, 1]] - nodal[cells[:, 0]]) / h
        if case.get("type", "cartesian") == "cartesian":
            ref = np.median(J)
            spread = np.abs(J - ref).max() / abs(ref)
            rep.mx("flux", spread / 1e-7)
            rep.see("flux")
            if not spread < 1e-7:
                k = int(np.abs(J - ref).argmax())
                rep.findings.append(dict(what="the material of the cell at x=%g does not have its own diffusivity (steady flux %g instead of %g)"
                                         % (mid[k, 0], J[k], ref), mech="diffusivity"))
    return result(rep, None, cover_of(case) + ["via=%s" % case.get("via", case.get("container"))])
