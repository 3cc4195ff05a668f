"""P25: moving fields between 2D and 3D, vertical integrals, column geometry."""
import itertools
import numpy as np
from .common import require, require_close, require_equal, Violation, quiet

RULE = ('every pair of supported function spaces x layers x boundary x facet x mesh shape; all unit nodal fields (a basis of all states, the operations being linear) and dense '
        'fields, located by position; vertical integrals and averages on basis fields, moved meshes, all sequences of moves and updates up to a depth')
ASSUMPTIONS = ['triangles and quadrilaterals, sigma layers; H(div) spaces on layers of constant height', 'linear operations: a basis of the source space covers all states']
CASE_TIMEOUT = 900
GROUP_TIMEOUT = 3600

HS = [('DG', 0), ('DG', 1), ('DG', 2), ('CG', 1), ('CG', 2)]
VS = [('DG', 0), ('DG', 1), ('DG', 2), ('CG', 1), ('CG', 2)]


def groups(tier):
    g = []
    for cell in ('tri', 'quad'):
        for h in HS:
            g.append({'kind': 'copy', 'cell': cell, 'h': h})
        g += [{'kind': k, 'cell': cell} for k in ('hdiv', 'integral', 'average', 'view', 'geometry')]
    g.append({'kind': 'refused', 'cell': 'tri'})
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    globals()['g_' + group['kind']](group, rec, th)


def mesh2d(th, cell):
    m = th.RectangleMesh(2, 1, 2., 1., quadrilateral=cell == 'quad')
    X = m.coordinates.dat.data
    X[:, 0] += .2*X[:, 1]
    X[:, 1] += .1*X[:, 0]
    return m


def depth(x, y, shape):
    if shape == 'flat':
        return 4. + 0*x
    return 4. + .8*x - .5*y


def elev(x, y, k):
    """Surfaces for the moving mesh: level, tilted, high, low."""
    return (0*x, .3*x - .2*y, .9 + 0*x, -.6 - .1*x + .3*y)[k]


def extrude(th, m2, shape, n):
    b = th.Function(th.get_functionspace(m2, 'CG', 1))
    P = positions(th, b.function_space())
    b.dat.data[:] = depth(P[:, 0], P[:, 1], shape)
    return th.extrude_mesh_sigma(m2, n, b) if hasattr(th, 'extrude_mesh_sigma') else th.utility.extrude_mesh_sigma(m2, n, b)


def positions(th, V):
    """Position of every node of a (nodal) space."""
    e = V.ufl_element()
    while type(e).__name__ in ('VectorElement', 'TensorElement'):
        e = e.sub_elements[0]
    m = V.mesh()
    W = th.VectorFunctionSpace(m, e, dim=m.geometric_dimension)
    return th.Function(W).interpolate(th.SpatialCoordinate(m)).dat.data_ro.copy()


def columns(th, V3, n):
    """Nodes of every prism: [cell][layer] -> node numbers."""
    cm = V3.cell_node_map()
    return [[np.array(c + k*cm.offset) for k in range(n)] for c in cm.values_with_halo]


def key(p):
    return tuple(np.round(p[:2], 6) + 0.)


def vector(th, mesh, h, v=None, **kw):
    return th.get_functionspace(mesh, *(h + (v or ())), vector=True, **kw)


def basis(n, tier, dense=True):
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.
        yield e
    if dense:
        yield np.cos(1.3*np.arange(n)) + 2.


# ---------------------------------------------------------------------------

def g_copy(group, rec, th):
    h = tuple(group['h'])

    def run(v, n, shape):
        m2 = mesh2d(th, group['cell'])
        m3 = extrude(th, m2, shape, n)
        V2, V3 = th.get_functionspace(m2, *h), th.get_functionspace(m3, *(h + v))
        U2, U3 = vector(th, m2, h), vector(th, m3, h, v)
        S3 = vector(th, m3, h, v, dim=2)
        P2, P3 = positions(th, V2), positions(th, V3)
        cells2 = [np.array(c) for c in V2.cell_node_map().values]
        cols = columns(th, V3, n)
        # node above / below: dof of the base cell for each node of each prism
        base = {}
        for c, nodes in enumerate(cells2):
            where = {key(P2[d]): d for d in nodes}
            for k in range(n):
                for d in cols[c][k]:
                    base[d] = where[key(P3[d])]
        base = np.array([base[i] for i in range(len(P3))])

        def faces(boundary, facet):
            """For each 2D dof the list of 3D dofs averaged."""
            out = {}
            for c, nodes in enumerate(cells2):
                prism = cols[c][n - 1 if boundary == 'top' else 0]
                for d in nodes:
                    stack = [e for e in prism if key(P3[e]) == key(P2[d])]
                    stack.sort(key=lambda e: P3[e][2])
                    out[d] = {'top': [stack[-1]], 'bottom': [stack[0]], 'average': [stack[0], stack[-1]]}[facet]
            return out

        # expansion
        f2, f3 = th.Function(V2), th.Function(V3)
        ex = th.ExpandFunctionTo3d(f2, f3)
        for e in basis(len(P2), rec.tier):
            f2.dat.data[:] = e
            f3.dat.data[:] = -7.7
            ex.solve()
            require_close(f3.dat.data_ro, e[base], 'expanded field', rtol=0, atol=0)
            require_close(f2.dat.data_ro, e, 'source of an expansion', rtol=0, atol=0)
            rec.step()
        g2 = th.Function(U2)
        for G3 in (U3, S3):
            g3 = th.Function(G3)
            ex = th.ExpandFunctionTo3d(g2, g3)
            for i, e in enumerate(basis(len(P2), rec.tier)):
                g2.dat.data[:, 0] = e
                g2.dat.data[:, 1] = -2*e + i
                g3.dat.data[:] = 0
                ex.solve()
                require_close(g3.dat.data_ro[:, :2], g2.dat.data_ro[base], 'expanded vector', rtol=0, atol=0)
                require(g3.dat.data_ro.shape[1] == 2 or not g3.dat.data_ro[:, 2].any(), 'vertical component changed')
                rec.step()
        # extraction
        for boundary, facet in itertools.product(('top', 'bottom'), (None, 'top', 'bottom', 'average')):
            if v == ('DG', 0):
                continue
            where = faces(boundary, facet or boundary)
            w = np.array([[where[d][0], where[d][-1]] for d in range(len(P2))])
            sub = th.SubFunctionExtractor(f3, f2, boundary=boundary, elem_facet=facet)
            for e in basis(len(P3), rec.tier):
                f3.dat.data[:] = e
                f2.dat.data[:] = 99.
                sub.solve()
                require_close(f2.dat.data_ro, e[w].mean(axis=1), 'value at the {:} of the {:} element'.format(facet, boundary), rtol=0, atol=1e-14)
                require_close(f3.dat.data_ro, e, 'source of an extraction', rtol=0, atol=0)
                rec.step()
            for G3 in (U3, S3):
                g3 = th.Function(G3)
                sub = th.SubFunctionExtractor(g3, g2, boundary=boundary, elem_facet=facet)
                N = np.cos(np.arange(g3.dat.data_ro.size)*.7).reshape(g3.dat.data_ro.shape)
                for i in range(3):
                    g3.dat.data[:] = np.roll(N, i, axis=0)
                    sub.solve()
                    require_close(g2.dat.data_ro, g3.dat.data_ro[w][:, :, :2].mean(axis=1), 'vector at the {:} of the {:} element'.format(facet, boundary), rtol=0, atol=1e-14)
                    rec.step()
            # there and back
            for e in (np.cos(np.arange(len(P2))), np.eye(len(P2))[0]):
                f2.dat.data[:] = e
                th.ExpandFunctionTo3d(f2, f3).solve()
                f2.dat.data[:] = 0.
                th.SubFunctionExtractor(f3, f2, boundary=boundary, elem_facet=facet).solve()
                require_close(f2.dat.data_ro, e, 'expanded and extracted', rtol=0, atol=1e-14)
                rec.step()
            rec.state(h, v, n, shape, boundary, facet)

    layers = (1, 3) if rec.tier == 'quick' else (1, 2, 3, 5)
    for v, n, shape in itertools.product(VS, layers, ('flat', 'sloped')):
        if shape == 'sloped' and rec.tier == 'quick' and n == 1:
            continue
        rec.check({'cell': group['cell'], 'horizontal': h, 'vertical': v, 'layers': n, 'shape': shape}, run, v, n, shape)


def g_hdiv(group, rec, th):
    """The same horizontal vector at every location."""
    fams = {'tri': ('RT', 'RTF', 'BDM', 'BDMF'), 'quad': ('RTCF',)}[group['cell']]

    def run(fam, deg, vdeg, n, thick):
        m2 = mesh2d(th, group['cell'])
        m3 = extrude(th, m2, 'flat', n)
        # layers of different height
        z = m3.coordinates.dat.data_ro[:, 2].copy()
        levels = np.unique(np.round(z, 9))
        new = np.concatenate([[-sum(thick[:n])], -sum(thick[:n]) + np.cumsum(thick[:n])])
        m3.coordinates.dat.data[:, 2] = new[np.searchsorted(levels, np.round(z, 9) - 1e-6)]
        V2 = th.get_functionspace(m2, fam, deg)
        V3 = th.get_functionspace(m3, fam, deg, 'DG', vdeg, hdiv=True)
        hz3 = th.Function(th.get_functionspace(m3, 'DG', 0, 'DG', 0)).interpolate(th.CellVolume(m3))
        h2 = th.Function(th.get_functionspace(m2, 'DG', 0)).interpolate(th.CellVolume(m2))
        a3 = th.Function(hz3.function_space())
        th.ExpandFunctionTo3d(h2, a3).solve()
        hz3.dat.data[:] = hz3.dat.data_ro/a3.dat.data_ro
        D2, D3 = vector(th, m2, ('DG', 2)), vector(th, m3, ('DG', 2), ('DG', 1))
        P2, P3 = positions(th, D2), positions(th, D3)
        cols = columns(th, D3, n)
        u2, u3 = th.Function(V2), th.Function(V3)
        ex = th.ExpandFunctionTo3d(u2, u3, elem_height=hz3)
        val2, val3 = th.Function(D2), th.Function(D3)
        hb, ht = th.Function(h2.function_space()), th.Function(h2.function_space())
        th.SubFunctionExtractor(hz3, hb, boundary='bottom').solve() if False else None
        out = th.Function(V2)
        N = len(u2.dat.data_ro)
        hh = {'bottom': thick[0], 'top': thick[n - 1]}
        subs = []
        for boundary in ('top', 'bottom'):
            hf = th.Function(h2.function_space()).assign(hh[boundary])
            for facet in (None, 'top', 'bottom', 'average'):
                if vdeg > 0:
                    subs.append((boundary, facet, th.SubFunctionExtractor(u3, out, boundary=boundary, elem_facet=facet, elem_height=hf)))
        for e in basis(N, rec.tier):
            u2.dat.data[:] = e
            ex.solve()
            val2.project(u2)
            val3.project(u3)
            for c, nodes in enumerate(D2.cell_node_map().values):
                where = {key(P2[d]): d for d in nodes}
                for k in range(n):
                    for d in cols[c][k]:
                        w = val2.dat.data_ro[where[key(P3[d])]]
                        require_close(val3.dat.data_ro[d], np.array([w[0], w[1], 0.]), 'expanded H(div) vector (layer {:})'.format(k), rtol=0, atol=1e-8)
            for boundary, facet, sub in subs:
                sub.solve()
                require_close(out.dat.data_ro, e, 'expanded and extracted H(div) vector ({:}, {:})'.format(boundary, facet), rtol=0, atol=1e-8)
                rec.step()
            rec.step()
        # different values at different levels
        if vdeg == 1:
            ez = th.SpatialCoordinate(m3)[2]
            for e in (np.cos(np.arange(N)), np.eye(N)[0], np.eye(N)[N//2]):
                u2.dat.data[:] = e
                ex.solve()
                w3 = th.Function(V3).project((ez + 1.)*u3, solver_parameters={'ksp_rtol': 1e-14})
                u3.assign(w3)
                for boundary, facet, sub in subs:
                    sub.solve()
                    lo, hi = (new[0], new[1]) if boundary == 'bottom' else (new[n - 1], new[n])
                    zz = {'bottom': lo, 'top': hi, 'average': (lo + hi)/2}[facet or boundary]
                    require_close(out.dat.data_ro, (zz + 1.)*e, 'H(div) vector at the {:} of the {:} element'.format(facet, boundary), rtol=0, atol=1e-8)
                    rec.step()
        rec.state(fam, deg, vdeg, n, thick)
    for fam in fams:
        for deg, vdeg, n in itertools.product((1, 2), (0, 1), (1, 3)):
            if n == 1 and rec.tier == 'quick' and deg == 2:
                continue
            if deg == 2 and rec.tier == 'quick' and fam in ('RTF', 'BDM'):
                continue
            rec.check({'family': fam, 'degree': deg, 'vertical': vdeg, 'layers': n}, run, fam, deg, vdeg, n, (.5, 2., 1.))


# ---------------------------------------------------------------------------
# vertical integrals
# ---------------------------------------------------------------------------

class Column:
    """Nodal values per base vertex and layer of a DG1xDG1 field."""
    def __init__(self, th, m2, m3, n):
        self.th, self.m2, self.m3, self.n = th, m2, m3, n
        self.V3 = th.get_functionspace(m3, 'DG', 1, 'DG', 1)
        self.V2 = th.get_functionspace(m2, 'DG', 1)
        self.P2 = positions(th, self.V2)
        self.P3 = positions(th, self.V3)
        self.cells2 = [list(c) for c in self.V2.cell_node_map().values]
        cols = columns(th, self.V3, n)
        # idx[c, k, i, 0/1]
        self.idx = np.zeros((len(self.cells2), n, len(self.cells2[0]), 2), dtype=int)
        for c, nodes in enumerate(self.cells2):
            for k in range(n):
                for i, d in enumerate(nodes):
                    st = sorted([e for e in cols[c][k] if key(self.P3[e]) == key(self.P2[d])], key=lambda e: self.P3[e][2])
                    self.idx[c, k, i] = st
        self.quad()

    def quad(self):
        g, w = np.polynomial.legendre.leggauss(5)
        g, w = (g + 1)/2, w/2
        pts, wts = [], []
        tri = len(self.cells2[0]) == 3
        for a, wa in zip(g, w):
            for b, wb in zip(g, w):
                if tri:
                    pts.append((a, b*(1 - a)))
                    wts.append(wa*wb*(1 - a))
                else:
                    pts.append((a, b))
                    wts.append(wa*wb)
        self.N, self.W = [], []
        for nodes in self.cells2:
            X = self.P2[nodes]
            if tri:
                N = np.array([[1 - p - q, p, q] for p, q in pts])
                dp, dq = np.array([-1, 1, 0]), np.array([-1, 0, 1])
                J = [np.linalg.det(np.array([dp @ X, dq @ X])) for _ in pts]
            else:
                # order the nodes: opposite corner of the first one is the one not sharing an edge
                i0 = 0
                rest = [1, 2, 3]
                # diagonal node: the one for which X0 + Xd = Xa + Xb (parallelogram up to distortion)
                def err(d):
                    a, b = [r for r in rest if r != d]
                    return np.linalg.norm(X[i0] + X[d] - X[a] - X[b])
                d = min(rest, key=err)
                a, b = [r for r in rest if r != d]
                N = np.zeros((len(pts), 4))
                J = []
                for m, (p, q) in enumerate(pts):
                    N[m, i0], N[m, a], N[m, b], N[m, d] = (1 - p)*(1 - q), p*(1 - q), (1 - p)*q, p*q
                    dp, dq = np.zeros(4), np.zeros(4)
                    dp[[i0, a, b, d]] = -(1 - q), 1 - q, -q, q
                    dq[[i0, a, b, d]] = -(1 - p), -p, 1 - p, p
                    J.append(np.linalg.det(np.array([dp @ X, dq @ X])))
            self.N.append(N)
            self.W.append(np.abs(J)*np.array(wts))

    def z(self):
        return positions(self.th, self.V3)[:, 2]

    def integral(self, v, up):
        """L2 projections to the nodes of each base cell of the exact integral from the bottom (surface) to each interface; [c, k, i]: to the far side of layer k."""
        z = self.z()
        out = np.zeros(self.idx.shape[:3])
        for c in range(len(self.cells2)):
            N, W = self.N[c], self.W[c]
            M = N.T @ (W[:, None]*N)
            acc = np.zeros(len(W))
            order = range(self.n) if up else range(self.n - 1, -1, -1)
            for k in order:
                lo, hi = self.idx[c, k, :, 0], self.idx[c, k, :, 1]
                h = N @ (z[hi] - z[lo])
                m = N @ (v[lo] + v[hi])/2
                acc = acc + (h*m if up else -h*m)
                out[c, k] = np.linalg.solve(M, N.T @ (W*acc))
        return out


def move(m3, shape, k, n):
    """Moves the nodes of the mesh with the surface number k."""
    X = m3.coordinates.dat.data
    d = depth(X[:, 0], X[:, 1], shape)
    e = elev(X[:, 0], X[:, 1], k)
    if not hasattr(m3, '_z0'):
        m3._z0 = X[:, 2].copy()
    z0 = m3._z0
    X[:, 2] = e*(z0 + d)/d + z0


def g_integral(group, rec, th):
    def run(shape, n, up, vec, moves, bnd):
        m2 = mesh2d(th, group['cell'])
        m3 = extrude(th, m2, shape, n)
        col = Column(th, m2, m3, n)
        dim = 3 if vec else 0
        V = vector(th, m3, ('DG', 1), ('DG', 1)) if vec else col.V3
        f, out = th.Function(V), th.Function(V)
        bvals = np.array([.7, -1.3, .4]) if bnd else np.zeros(3)
        b = th.Constant(tuple(bvals)) if vec else th.Constant(bvals[0])
        cont = th.Function(th.get_functionspace(m3, 'DG', 1, 'CG', 2))
        solver = th.VerticalIntegrator(f, out, bottom_to_top=up, bnd_value=b, average=False)
        csolver = None if vec else th.VerticalIntegrator(f, cont, bottom_to_top=up, bnd_value=b, average=False)
        cV = cont.function_space()
        far = 1 if up else 0
        for k in moves:
            move(m3, shape, k, n)
            z = col.z()
            cols = columns(th, cV, n)
            Pc = positions(th, cV)
            for e in basis(len(z), rec.tier) if len(moves) == 1 and not vec else list(basis(len(z), rec.tier))[::7]:
                if vec:
                    f.dat.data[:] = np.stack([e, np.roll(e, 3), -e], axis=1)
                else:
                    f.dat.data[:] = e
                solver.solve()
                comps = [(f.dat.data_ro[:, i].copy(), out.dat.data_ro[:, i], bvals[i]) for i in range(3)] if vec else [(e, out.dat.data_ro, bvals[0])]
                for src, got, b0 in comps:
                    want = col.integral(src, up) + b0
                    require_close(got[col.idx[..., far]], want, 'integral to the far side of each layer', rtol=1e-9, atol=1e-10)
                if csolver:
                    csolver.solve()
                    want = col.integral(e, up) + bvals[0]
                    for c, nodes in enumerate(col.cells2):
                        for k2 in range(n):
                            for i, d in enumerate(nodes):
                                st = sorted([q for q in cols[c][k2] if key(Pc[q]) == key(col.P2[d])], key=lambda q: Pc[q][2])
                                require_close(cont.dat.data_ro[st[-1 if up else 0]], want[c, k2, i], 'continuous integral', rtol=1e-9, atol=1e-10)
                rec.step()
            # integrals of constants are exact everywhere
            c0 = 1.7
            f.assign(th.Constant((c0,)*3) if vec else c0)
            solver.solve()
            g = out.dat.data_ro[:, 0] if vec else out.dat.data_ro
            edge = z[col.idx[:, 0, :, 0]] if up else z[col.idx[:, -1, :, 1]]
            for k2 in range(n):
                for s in (0, 1):
                    require_close(g[col.idx[:, k2, :, s]], c0*(z[col.idx[:, k2, :, s]] - edge) + bvals[0], 'integral of a constant', rtol=1e-9, atol=1e-10)
            rec.step()
            rec.state(shape, n, up, vec, moves, bnd)
    for shape, n, up, bnd in itertools.product(('flat', 'sloped'), (1, 3), (True, False), (False, True)):
        for vec in (False, True):
            if vec and n == 1:
                continue
            rec.check({'shape': shape, 'layers': n, 'bottom_to_top': up, 'boundary value': bnd, 'vector': vec}, run, shape, n, up, vec, (0,), bnd)
    for moves in itertools.product(range(4), repeat=2 if rec.tier == 'quick' else 3):
        for up in (True, False):
            rec.check({'moves': moves, 'bottom_to_top': up}, run, 'sloped', 2, up, False, moves, False)


def g_average(group, rec, th):
    def run(shape, n, up, moves):
        m2 = mesh2d(th, group['cell'])
        m3 = extrude(th, m2, shape, n)
        col = Column(th, m2, m3, n)
        P1 = th.get_functionspace(m2, 'CG', 1)
        bath = th.utility.ExtrudedFunction(P1, mesh_3d=m3)
        el = th.utility.ExtrudedFunction(P1, mesh_3d=m3)
        X = positions(th, P1)
        bath.dat.data[:] = depth(X[:, 0], X[:, 1], shape)
        f, out = th.Function(col.V3), th.Function(col.V3)
        U = vector(th, m3, ('DG', 1), ('DG', 1))
        fv, outv = th.Function(U), th.Function(U)
        s1 = th.VerticalIntegrator(f, out, bottom_to_top=up, average=True, bathymetry=bath.view_3d, elevation=el.view_3d)
        s2 = th.VerticalIntegrator(fv, outv, bottom_to_top=up, bnd_value=th.Constant((0., 0., 0.)), average=True, bathymetry=bath.view_3d, elevation=el.view_3d)
        far = 1 if up else 0
        for k in moves:
            move(m3, shape, k, n)
            el.dat.data[:] = elev(X[:, 0], X[:, 1], k)
            z = col.z()
            for e in basis(len(z), rec.tier):
                f.dat.data[:] = e
                s1.solve()
                mean = (e[col.idx].mean(axis=3)/n)
                want = np.cumsum(mean, axis=1) if up else -np.cumsum(mean[:, ::-1], axis=1)[:, ::-1]
                require_close(out.dat.data_ro[col.idx[..., far]], want, 'depth average', rtol=1e-9, atol=1e-11)
                rec.step()
            for i in range(3):
                e = np.cos(np.arange(len(z)) + i)
                fv.dat.data[:] = np.stack([e, 2*e[::-1], e*e], axis=1)
                s2.solve()
                for q in range(3):
                    mean = fv.dat.data_ro[:, q][col.idx].mean(axis=3)/n
                    want = np.cumsum(mean, axis=1) if up else -np.cumsum(mean[:, ::-1], axis=1)[:, ::-1]
                    require_close(outv.dat.data_ro[:, q][col.idx[..., far]], want, 'depth average of a vector', rtol=1e-9, atol=1e-11)
                rec.step()
            rec.state('average', shape, n, up, moves)
    for shape, n, up in itertools.product(('flat', 'sloped'), (1, 2, 3), (True, False)):
        rec.check({'average': shape, 'layers': n, 'bottom_to_top': up}, run, shape, n, up, (0,))
    for moves in itertools.product(range(4), repeat=2 if rec.tier == 'quick' else 3):
        rec.check({'average': 'moved', 'moves': moves}, run, 'sloped', 2, True, moves)


def g_view(group, rec, th):
    """The 3D view of a 2D field follows the field."""
    def run(h, vec, n):
        m2 = mesh2d(th, group['cell'])
        m3 = extrude(th, m2, 'sloped', n)
        V = vector(th, m2, h) if vec else th.get_functionspace(m2, *h)
        f = th.utility.ExtrudedFunction(V, mesh_3d=m3)
        D = vector(th, m3, h, ('DG', 1), dim=2) if vec else th.get_functionspace(m3, *(h + ('DG', 1)))
        want, got = th.Function(D), th.Function(D)
        ex = th.ExpandFunctionTo3d(f, want)
        g = th.Function(V)
        N = len(f.dat.data_ro)
        for e in basis(N, rec.tier):
            v = np.stack([e, 3 - e[::-1]], axis=1) if vec else e
            for how in ('array', 'assign', 'interpolate', 'iadd'):
                g.dat.data[:] = v
                if how == 'array':
                    f.dat.data[:] = v
                elif how == 'assign':
                    f.assign(g)
                elif how == 'interpolate':
                    f.interpolate(g)
                else:
                    f.assign(0.)
                    f += g
                ex.solve()
                got.interpolate(f.view_3d)
                require_close(got.dat.data_ro, want.dat.data_ro, '3D view after {:}'.format(how), rtol=0, atol=1e-12)
                rec.step()
        # writing to the view
        f.view_3d.assign(2.5) if not vec else f.view_3d.assign(th.Constant((2.5, 2.5)))
        require_close(f.dat.data_ro, np.full_like(f.dat.data_ro, 2.5), 'field after assigning to the view', rtol=0, atol=0)
        rec.state('view', h, vec, n)
    for h, vec, n in itertools.product([x for x in HS if rec.tier != 'quick' or x[1] < 2], (False, True), (1, 2)):
        rec.check({'view': h, 'vector': vec, 'layers': n}, run, h, vec, n)


def g_geometry(group, rec, th):
    """Extruded meshes, vertical coordinates and element heights."""
    def run(n, shape, stretch):
        m2 = mesh2d(th, group['cell'])
        P1 = th.get_functionspace(m2, 'CG', 1)
        X = positions(th, P1)
        b = th.Function(P1)
        b.dat.data[:] = depth(X[:, 0], X[:, 1], shape)
        sf = stretch
        if stretch == 'field':
            sf = th.Function(P1)
            sf.dat.data[:] = 1. + .5*X[:, 0]
        m3 = th.utility.extrude_mesh_sigma(m2, n, b, z_stretch_fact=sf)
        col = Column(th, m2, m3, n)
        z = col.z()
        for c, nodes in enumerate(col.cells2):
            for i, d in enumerate(nodes):
                x, y = col.P2[d]
                H = depth(x, y, shape)
                p = 1. + .5*x if stretch == 'field' else stretch
                for k in range(n):
                    for s in (0, 1):
                        require_close(z[col.idx[c, k, i, s]], -H*(1 - (k + s)/n)**p, 'level {:}'.format(k + s), rtol=0, atol=1e-9)
                        rec.step()
        # the 2D mesh and field are untouched
        require_close(b.dat.data_ro, depth(X[:, 0], X[:, 1], shape), 'bathymetry after extrusion')
        zc, hh = th.Function(col.V3), th.Function(col.V3)
        for k in range(4):
            move(m3, shape, k, n)
            z = col.z()
            th.utility.get_zcoord_from_mesh(zc)
            require_close(zc.dat.data_ro, z, 'z coordinate', rtol=0, atol=1e-9)
            th.utility.compute_elem_height(zc, hh)
            dz = z[col.idx[..., 1]] - z[col.idx[..., 0]]
            for s in (0, 1):
                require_close(hh.dat.data_ro[col.idx[..., s]], dz, 'element height', rtol=0, atol=1e-9)
            vol = 0.
            for c in range(len(col.cells2)):
                zz = z[col.idx[c, -1, :, 1]] - z[col.idx[c, 0, :, 0]]
                vol += (col.W[c]*(col.N[c] @ zz)).sum()
            require_close(th.utility.comp_volume_3d(m3), vol, 'volume', rtol=1e-10)
            e2 = th.Function(P1)
            e2.dat.data[:] = elev(X[:, 0], X[:, 1], k)
            require_close(th.utility.comp_volume_2d(e2, b), vol, 'volume of the 2D column', rtol=1e-10)
            for e in (np.cos(np.arange(len(z))), np.eye(len(z))[0]):
                zc.dat.data[:] = e
                mass = sum((col.W[c]*sum((col.N[c] @ (z[col.idx[c, q, :, 1]] - z[col.idx[c, q, :, 0]]))*(col.N[c] @ e[col.idx[c, q]].mean(axis=1)) for q in range(n))).sum()
                           for c in range(len(col.cells2)))
                require_close(th.utility.comp_tracer_mass_3d(zc), mass, 'tracer mass', rtol=1e-9, atol=1e-12)
                rec.step()
            rec.state('geometry', n, shape, stretch, k)
    for n, shape, stretch in itertools.product((1, 2, 3, 5), ('flat', 'sloped'), (1., 1.5, 'field')):
        rec.check({'geometry': shape, 'layers': n, 'stretching': stretch}, run, n, shape, stretch)


def g_refused(group, rec, th):
    def run(what, h2, h3):
        m2 = mesh2d(th, 'tri')
        m3 = extrude(th, m2, 'flat', 2)
        f2 = th.Function(th.get_functionspace(m2, *h2))
        f3 = th.Function(th.get_functionspace(m3, *(h3 + ('DG', 1)), hdiv=h3[0] in ('RT', 'BDM')))
        try:
            if what == 'expand':
                th.ExpandFunctionTo3d(f2, f3)
            else:
                th.SubFunctionExtractor(f3, f2)
        except Exception as e:
            require(not isinstance(e, (TypeError, AttributeError, NameError)), 'refused by accident: {!r}', e)
            rec.step()
            return
        raise Violation('spaces {:} and {:} accepted by {:}'.format(h2, h3, what))
    for what in ('expand', 'extract'):
        for h2, h3 in ((('DG', 1), ('CG', 1)), (('CG', 1), ('DG', 1)), (('RT', 1), ('DG', 1)), (('DG', 1), ('RT', 1)), (('RT', 1), ('BDM', 1)), (('RT', 1), ('RT', 1)), (('BDM', 1), ('BDM', 1))):
            rec.check({'refused': what, 'from': h2, 'to': h3}, run, what, h2, h3)
