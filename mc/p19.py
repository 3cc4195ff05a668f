"""P19: slope limiter."""
import itertools
import numpy as np
from .common import require, require_close, require_equal, Violation, quiet

RULE = ('all fields with nodal values in a small set on small meshes (triangles, quadrilaterals, prisms, hexahedra; distorted, moved, periodic, spherical), all pairs of '
        'perturbed nodes on larger ones, against an independent implementation of the vertex based limiter and the properties themselves')
ASSUMPTIONS = ['boundary facets enter the bounds with the arithmetic mean of their nodes, as documented', 'double precision: 1e-10']
CASE_TIMEOUT = 900
GROUP_TIMEOUT = 3600

MESHES = ['tri', 'tri-distorted', 'quad', 'quad-distorted', 'prism', 'prism2', 'hex', 'hex-distorted', 'tri-periodic', 'quad-periodic', 'sphere']


def groups(tier):
    g = []
    for m in MESHES:
        n = 3 if m in ('tri', 'tri-distorted', 'hex', 'hex-distorted') else 1
        g += [{'kind': 'fields', 'mesh': m, 'part': [i, n]} for i in range(n)]
    g += [{'kind': 'moving'}, {'kind': 'vector'}, {'kind': 'refused'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    globals()['g_' + group['kind']](group, rec, th)


def make_mesh(th, name):
    """(mesh, periods or None, extruded)"""
    per = None
    if name.startswith('tri-periodic'):
        return th.PeriodicRectangleMesh(3, 3, 3., 3.), (3., 3.), False
    if name.startswith('quad-periodic'):
        return th.PeriodicRectangleMesh(3, 3, 3., 3., quadrilateral=True), (3., 3.), False
    if name == 'sphere':
        return th.UnitOctahedralSphereMesh(0), None, False
    if name.startswith('tri'):
        m = th.RectangleMesh(2, 1, 2., 1.)
    elif name.startswith('quad'):
        m = th.RectangleMesh(2, 1, 2., 1., quadrilateral=True)
    elif name == 'prism':
        m = th.ExtrudedMesh(th.RectangleMesh(1, 1, 1., 1.), 1, layer_height=1.)
    elif name == 'prism2':
        m = th.ExtrudedMesh(th.RectangleMesh(1, 1, 1., 1.), 2, layer_height=.5)
    elif name.startswith('hex'):
        m = th.ExtrudedMesh(th.RectangleMesh(1, 1, 1., 1., quadrilateral=True), 2, layer_height=.5)
    return m, per, name.startswith(('prism', 'hex'))


def distort(mesh, amount=1.):
    X = mesh.coordinates.dat.data
    Y = X.copy()
    Y[:, 0] += amount*(.17*X[:, 1]*X[:, 0] + .05*X[:, 1])
    Y[:, 1] += amount*(.11*X[:, 0]*X[:, 1]**2 - .07*X[:, 0])
    if X.shape[1] == 3:
        Y[:, 2] += amount*(.2*X[:, 0]*X[:, 2] + .1*X[:, 1])
    X[:] = Y


def space(th, mesh, **kw):
    return th.get_functionspace(mesh, 'DG', 1, 'DG', 1, **kw)


class Ref:
    """Topology of the mesh from the positions of the nodes before any distortion."""
    def __init__(self, th, mesh, per, extruded):
        self.th, self.mesh, self.extruded = th, mesh, extruded
        cell = mesh.ufl_cell().cellname
        # nodes at the vertices ("equispaced" variant), as in all spaces Thetis makes
        self.V = space(th, mesh)
        self.P0 = th.FunctionSpace(mesh, 'DG', 0)
        pos = th.Function(th.VectorFunctionSpace(mesh, self.V.ufl_element(), dim=mesh.geometric_dimension)).interpolate(th.SpatialCoordinate(mesh)).dat.data_ro.copy()
        if per:
            ident = pos % np.array(per)
            ident[np.abs(ident - np.array(per)) < 1e-9] = 0
        else:
            ident = pos
        ident = [tuple(np.round(p, 6) + 0.) for p in ident]
        # cells
        cm = self.V.cell_node_map()
        cells = []
        if extruded:
            n = mesh.layers - 1
            for c in cm.values:
                for k in range(n):
                    cells.append(list(c + k*cm.offset))
        else:
            cells = [list(c) for c in cm.values]
        self.cells = cells
        self.vert = {}
        for c, nodes in enumerate(cells):
            for d in nodes:
                self.vert.setdefault(ident[d], []).append(c)
        self.ident = ident
        self.pos = pos
        # facets: sets of nodes of a cell
        self.bnd = []
        count = {}
        faces = []
        for c, nodes in enumerate(cells):
            for f in self.faces(nodes, cell):
                key = frozenset(ident[d] for d in f)
                count[key] = count.get(key, 0) + 1
                faces.append((key, f))
        self.bnd = [f for key, f in faces if count[key] == 1]
        self.weights()

    def faces(self, nodes, cell):
        P = self.pos
        if not self.extruded:
            if cell == 'triangle':
                return [list(p) for p in itertools.combinations(nodes, 2)]
            return [list(p) for p in itertools.combinations(nodes, 2) if (np.abs(P[p[0]] - P[p[1]]) > 1e-6).sum() == 1]
        z = np.array([P[d][2] for d in nodes])
        lo = [d for d in nodes if P[d][2] < z.mean()]
        hi = [d for d in nodes if P[d][2] > z.mean()]
        out = [lo, hi]
        tri = len(lo) == 3
        for p in itertools.combinations(lo, 2):
            if not tri and (np.abs(P[p[0]][:2] - P[p[1]][:2]) > 1e-6).sum() != 1:
                continue
            up = [d for d in hi for e in p if np.allclose(P[d][:2], P[e][:2])]
            out.append(list(p) + up)
        return out

    def weights(self):
        """Cell means as a matrix (for the current geometry)."""
        th = self.th
        t, u = th.TestFunction(self.P0), th.TrialFunction(self.V)
        M = th.assemble(t*u*th.dx).petscmat
        M = np.array(M.convert('dense').getDenseArray()) if hasattr(M, 'convert') else M[:, :]
        a = th.assemble(t*th.dx(domain=self.mesh)).dat.data_ro
        self.M = M/a[:, None]
        # P0 dofs in the order of cells
        z = self.P0.cell_node_map()
        if self.extruded:
            n = self.mesh.layers - 1
            self.p0 = [int(c[0] + k*z.offset[0]) for c in z.values for k in range(n)]
        else:
            self.p0 = [int(c[0]) for c in z.values]

    def limit(self, v):
        """Vertex based limiter; v: nodal values.  Returns (limited, lower, upper, means)."""
        means = (self.M @ v)[self.p0]
        lo = np.empty(len(v))
        hi = np.empty(len(v))
        for nodes in self.cells:
            for d in nodes:
                m = means[self.vert[self.ident[d]]]
                lo[d], hi[d] = m.min(), m.max()
        # facets: the nodes of the facet itself and, as the bounds belong to vertices, all nodes there
        ext = {}
        for f in self.bnd:
            m = np.mean(v[f])
            for d in f:
                a, b = ext.get(self.ident[d], (m, m))
                ext[self.ident[d]] = (min(a, m), max(b, m))
        for nodes in self.cells:
            for d in nodes:
                if self.ident[d] in ext:
                    a, b = ext[self.ident[d]]
                    lo[d], hi[d] = min(lo[d], a), max(hi[d], b)
        out = v.copy()
        self.unclear = np.zeros(len(v), dtype=bool)
        for c, nodes in enumerate(self.cells):
            al = 1.
            for d in nodes:
                dv = v[d] - means[c]
                # a difference from the mean that may be all round-off and that the bounds do not allow: the factor can be anything
                if 0 <= abs(dv) < 1e-12 and min(hi[d] - means[c], means[c] - lo[d]) < 1e-9:
                    self.unclear[nodes] |= not np.all(np.abs(v[nodes] - means[c]) < 1e-12)
                if dv > 0:
                    al = min(al, (hi[d] - means[c])/dv) if hi[d] - means[c] < dv else al
                elif dv < 0:
                    al = min(al, (lo[d] - means[c])/dv) if lo[d] - means[c] > dv else al
            for d in nodes:
                out[d] = means[c] + al*(v[d] - means[c])
        return out, lo, hi, means


def judge(ref, lim, f, v, periodic, what=''):
    f.dat.data[:] = v
    lim.apply(f)
    got = f.dat.data_ro.copy()
    want, lo, hi, means = ref.limit(v)
    require_close((ref.M @ got)[ref.p0], means, 'cell means' + what, rtol=0, atol=1e-10)
    require(np.all(got <= hi + 1e-9) and np.all(got >= lo - 1e-9), 'vertex value outside of the bounds{:}: field {:}', what, v.tolist())
    ok = ~ref.unclear
    require_close(got[ok], want[ok], 'limited field' + what, rtol=0, atol=1e-9)
    if periodic and ok.all():
        lim.apply(f)
        ref.limit(got)
        ok = ~ref.unclear
        require_close(f.dat.data_ro[ok], got[ok], 'field limited twice' + what, rtol=0, atol=1e-9)
    return got


def fields_of(n, name, tier, part):
    """All fields to explore: value assignments."""
    vals = (0., 1.)
    if name == 'quad' and tier == 'quick':
        vals = (0., 1., -.5)
    if name.startswith('quad-d') or (name.startswith('quad') and tier != 'quick'):
        vals = (0., 1., -.5)
    k, m = part
    if len(vals)**n <= (5000 if tier == 'quick' else 70000):
        for i, c in enumerate(itertools.product(vals, repeat=n)):
            if i % m == k:
                yield np.array(c)
        return
    base = [np.zeros(n), np.arange(n)/float(n), np.cos(np.arange(n)*1.7)]
    amounts = (1., -.4) if tier == 'quick' else (1., -.4, .05, 30.)
    i = 0
    for b in base:
        for p in itertools.combinations(range(n), 2):
            if 'periodic' in name and tier == 'quick' and p[0] > (5 if name[0] == 't' else 3):
                continue  # by translation the others are the same (for the first base)
            for a in itertools.product(amounts, repeat=2):
                i += 1
                if i % m == k:
                    w = b.copy()
                    w[list(p)] += a
                    yield w


def g_fields(group, rec, th):
    name = group['mesh']

    def run():
        mesh, per, ext = make_mesh(th, name)
        ref = Ref(th, mesh, per, ext)
        if 'distorted' in name:
            distort(mesh)
            ref.weights()
        lim = th.limiter.VertexBasedP1DGLimiter(ref.V)
        f = th.Function(ref.V)
        n = len(f.dat.data_ro)
        changed = 0
        for v in fields_of(n, name, rec.tier, group['part']):
            got = judge(ref, lim, f, v, not ref.bnd, ' ({:})'.format(v.tolist()) if n < 30 else '')
            changed += not np.allclose(got, v)
            rec.step()
            rec.state(name, v.tolist())
        rec.note('fields changed by the limiter', changed)
        # constants, and linear fields away from the boundary, are kept
        for c in (0., 1., -3.7, 1e6):
            f.dat.data[:] = c
            lim.apply(f)
            require_close(f.dat.data_ro, np.full(n, c), 'constant field', rtol=1e-12)
    rec.check({'mesh': name, 'part': group['part']}, run)
    if group['part'][0] == 0 and name in ('tri', 'quad', 'prism', 'hex'):
        def linear(a):
            m2 = th.RectangleMesh(4, 4, 1., 1., quadrilateral=name in ('quad', 'hex'))
            mesh = m2 if name in ('tri', 'quad') else th.ExtrudedMesh(m2, 4, layer_height=.25)
            V = space(th, mesh)
            x = th.SpatialCoordinate(mesh)
            f = th.Function(V).interpolate(1. + sum(c*z for c, z in zip(a, x)))
            w = f.dat.data_ro.copy()
            th.limiter.VertexBasedP1DGLimiter(V).apply(f)
            P = th.Function(th.VectorFunctionSpace(mesh, V.ufl_element(), dim=mesh.geometric_dimension)).interpolate(x).dat.data_ro
            cm = V.cell_node_map()
            nl = (mesh.layers or 2) - 1
            ok = 0
            for c in cm.values:
                for k in range(nl):
                    d = c + (k*cm.offset if cm.offset is not None else 0)
                    if P[d].min() > .01 and P[d].max() < .99:
                        ok += 1
                        require_close(f.dat.data_ro[d], w[d], 'linear field in the interior', rtol=0, atol=1e-11)
            require(ok > 0, 'no interior cells')
            rec.step()
        for a in itertools.product((0., 1., -2.), repeat=2 if name in ('tri', 'quad') else 3):
            rec.check({'mesh': name, 'gradient': a}, linear, a)


def g_moving(group, rec, th):
    """The mesh moves between applications of the same limiter."""
    for name in ('quad', 'tri', 'prism', 'hex'):
        def run(name=name):
            mesh, per, ext = make_mesh(th, name)
            ref = Ref(th, mesh, per, ext)
            lim = th.limiter.VertexBasedP1DGLimiter(ref.V)
            f = th.Function(ref.V)
            n = len(f.dat.data_ro)
            x0 = mesh.coordinates.dat.data_ro.copy()
            for moves in itertools.product((0., 1., -.7), repeat=3):
                for k, a in enumerate(moves):
                    mesh.coordinates.dat.data[:] = x0
                    distort(mesh, a)
                    ref.weights()
                    for i in range(n):
                        v = np.cos(np.arange(n)*1.3 + k)
                        v[i] += 1.
                        judge(ref, lim, f, v, False, ' after moves {:}'.format(moves[:k + 1]))
                        rec.step()
                    rec.state(name, moves[:k + 1])
        rec.check({'moving': name}, run)


def g_vector(group, rec, th):
    """Every component of a vector is limited like a scalar."""
    for name in ('tri', 'prism', 'quad', 'hex'):
        def run(name=name):
            mesh, per, ext = make_mesh(th, name)
            ref = Ref(th, mesh, per, ext)
            dim = mesh.geometric_dimension
            VV = space(th, mesh, vector=True)
            lim = th.limiter.VertexBasedP1DGLimiter(VV)
            f = th.Function(VV)
            n = f.dat.data_ro.shape[0]
            for i, j in itertools.product(range(n), repeat=2):
                v = np.zeros((n, dim))
                v[i, 0] = 1.
                v[j, 1] = -1.
                v[:, -1] += .3*np.arange(n)
                f.dat.data[:] = v
                lim.apply(f)
                for c in range(dim):
                    want = ref.limit(v[:, c].copy())[0]
                    require_close(f.dat.data_ro[:, c], want, 'component {:} of a vector'.format(c), rtol=0, atol=1e-9)
                rec.step()
                rec.state('vector', name, i, j)
        rec.check({'vector': name}, run)


def g_refused(group, rec, th):
    def run(family, degree):
        mesh = th.RectangleMesh(2, 1, 2., 1.)
        try:
            th.limiter.VertexBasedP1DGLimiter(th.FunctionSpace(mesh, family, degree))
        except AssertionError:
            rec.step()
            return
        raise Violation('space {:}{:} accepted'.format(family, degree))
    for fam, deg in (('DG', 0), ('DG', 2), ('CG', 1), ('CG', 2)):
        rec.check({'family': fam, 'degree': deg}, run, fam, deg)
