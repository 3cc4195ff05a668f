"""Independent evaluation of weak forms on small two dimensional meshes.

Every function is turned into one polynomial per cell; integrals over cells and
facets are evaluated by quadrature rules built here, for all test functions of a
space at once.  Nothing of the form compiler is used to evaluate integrals.
"""
import numpy as np


def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1)/2, w/2


class Weak:
    skin = False        # boundary integrals only

    """Cells, facets and quadrature of a mesh of straight triangles or affine quadrilaterals."""
    def __init__(self, th, mesh, n=6):
        self.th, self.mesh = th, mesh
        cell = mesh.ufl_cell()
        self.quad = getattr(cell, 'cellname', None) == 'quadrilateral' or (callable(getattr(cell, 'cellname', None)) and cell.cellname() == 'quadrilateral')
        P1 = th.FunctionSpace(mesh, 'CG', 1)
        V1 = th.VectorFunctionSpace(mesh, 'CG', 1)
        X = th.Function(V1).interpolate(th.SpatialCoordinate(mesh)).dat.data_ro
        self.vert = np.array(P1.cell_node_map().values)
        self.X = X.copy()
        self.nc = len(self.vert)
        # order the corners of quadrilaterals around the cell
        P = X[self.vert]
        if self.quad:
            c = P.mean(axis=1, keepdims=True)
            a = np.arctan2(*(P - c)[..., ::-1].transpose(2, 0, 1))
            o = np.argsort(a, axis=1)
            self.vert = np.take_along_axis(self.vert, o, axis=1)
            P = X[self.vert]
        self.P = P
        self.o = P[:, 0]
        self.J = np.stack([P[:, 1] - P[:, 0], P[:, -1] - P[:, 0]], axis=2)     # x = o + J xi
        self.det = np.abs(np.linalg.det(self.J))
        self.Ji = np.linalg.inv(self.J)
        self.area = self.det*(1. if self.quad else .5)
        g, w = gauss(n)
        if self.quad:
            xi = np.stack(np.meshgrid(g, g, indexing='ij'), -1).reshape(-1, 2)
            wq = np.outer(w, w).ravel()
        else:
            a, b = np.meshgrid(g, g, indexing='ij')
            xi = np.stack([a, (1 - a)*b], -1).reshape(-1, 2)
            wq = (np.outer(w, w)*(1 - a)).ravel()
        self.xc = self.o[:, None] + np.einsum('cij,qj->cqi', self.J, xi)
        self.wc = self.det[:, None]*wq
        # facets
        nv = self.vert.shape[1]
        seen = {}
        for c in range(self.nc):
            for k in range(nv):
                a, b = self.vert[c, k], self.vert[c, (k + 1) % nv]
                seen.setdefault((min(a, b), max(a, b)), []).append(c)
        it, bd = [], []
        for e, cs in sorted(seen.items()):
            (it if len(cs) == 2 else bd).append((e, cs))
        self.fi = self._facets(it, g, w, 2)
        self.fb = self._facets(bd, g, w, 1)
        # markers of boundary facets, by position
        self.tag = None

    def _facets(self, lst, g, w, sides):
        d = {}
        e = np.array([x[0] for x in lst]).reshape(-1, 2)
        A, B = self.X[e[:, 0]], self.X[e[:, 1]]
        d['c'] = np.array([x[1] for x in lst]).reshape(-1, sides)
        t = B - A
        L = np.hypot(t[:, 0], t[:, 1])
        n = np.stack([t[:, 1], -t[:, 0]], 1)/L[:, None]
        mid = (A + B)/2
        c0 = self.P[d['c'][:, 0]].mean(axis=1)
        s = np.sign(((mid - c0)*n).sum(axis=1))
        d['n'] = (n*s[:, None])[:, None, :]               # (nf, 1, 2) outward of side 0
        d['x'] = A[:, None] + g[None, :, None]*t[:, None]
        d['w'] = L[:, None]*w[None, :]
        d['L'] = L
        d['mid'] = mid
        return d

    def set_tags(self, fn):
        """fn(x, y) -> marker of a boundary facet with that midpoint."""
        self.tag = np.array([fn(*m) for m in self.fb['mid']])

    # ------------------------------------------------------------------
    def _mono(self, deg):
        if self.quad:
            return [(i, j) for i in range(deg + 1) for j in range(deg + 1)]
        return [(i, j) for i in range(deg + 1) for j in range(deg + 1 - i)]

    def poly(self, f, deg=None):
        """One polynomial per cell from a Function of any space."""
        return self.polys([f], deg)

    def polys(self, fs, deg=None):
        """Stack of functions of one space."""
        th = self.th
        V = fs[0].function_space()
        if deg is None:
            deg = max(V.ufl_element().degree() if not isinstance(V.ufl_element().degree(), tuple) else max(V.ufl_element().degree()), 0)
        fam = 'DQ' if self.quad else 'DG'
        shape = fs[0].ufl_shape
        key = (deg, shape)
        cache = self.__dict__.setdefault('_pc', {})
        if key not in cache:
            D = th.FunctionSpace(self.mesh, fam, deg, variant='equispaced') if not shape else th.VectorFunctionSpace(self.mesh, fam, deg, dim=shape[0], variant='equispaced')
            DX = th.VectorFunctionSpace(self.mesh, fam, deg, variant='equispaced')
            pts = th.Function(DX).interpolate(th.SpatialCoordinate(self.mesh)).dat.data_ro.copy()
            nodes = np.array(D.cell_node_map().values)
            xi = np.einsum('cij,cqj->cqi', self.Ji, pts[nodes] - self.o[:, None])
            mono = self._mono(deg)
            Vm = np.stack([xi[..., 0]**i*xi[..., 1]**j for i, j in mono], -1)     # c, node, mono
            cache[key] = (D, nodes, np.linalg.inv(Vm), mono)
        D, nodes, inv, mono = cache[key]
        out = []
        for f in fs:
            g = th.Function(D).interpolate(f)
            v = g.dat.data_ro[nodes]
            if not shape:
                v = v[..., None]
            out.append(np.einsum('cmn,cnk->cmk', inv, v))
        return Poly(self, np.array(out), mono, bool(shape))

    def basis(self, V, deg=None):
        """All basis functions of a space (component by component)."""
        th = self.th
        fs = []
        n = V.dof_dset.size*V.block_size if hasattr(V, 'block_size') else V.dof_dset.layout_vec.getLocalSize()
        for i in range(n):
            f = th.Function(V)
            f.dat.data.reshape(-1)[i] = 1.
            fs.append(f)
        return self.polys(fs, deg)

    # ------------------------------------------------------------------
    def cells(self, fn):
        """Integral over all cells of fn(D) with D(poly) -> (value, gradient)."""
        if self.skin:
            return 0.
        D = At(self, np.arange(self.nc), self.xc)
        return self._sum(fn(D), self.wc)

    def interior(self, fn):
        f = self.fi
        if self.skin or not len(f['c']):
            return 0.
        p, m = At(self, f['c'][:, 0], f['x']), At(self, f['c'][:, 1], f['x'])
        return self._sum(fn(p, m, f['n']), f['w'])

    def boundary(self, fn, marker=None):
        f = self.fb
        sel = np.ones(len(f['c']), bool) if marker is None else self.tag == marker
        if not sel.any():
            return 0.
        D = At(self, f['c'][sel, 0], f['x'][sel])
        D.L = f['L'][sel]
        return self._sum(fn(D, f['n'][sel]), f['w'][sel])

    @staticmethod
    def _sum(v, w):
        if np.isscalar(v) and v == 0:
            return 0.
        v = np.broadcast_to(v, np.broadcast_shapes(np.shape(v), w.shape))
        return (v*w).sum(axis=(-2, -1))


class Poly:
    """coef: (N, nc, nmono, ncomp)."""
    def __init__(self, W, coef, mono, vector):
        self.W, self.coef, self.mono, self.vector = W, coef, mono, vector

    def __getitem__(self, i):
        return Poly(self.W, self.coef[i:i + 1], self.mono, self.vector)


class At:
    """Evaluation at points x (nf, nq, 2) in given cells."""
    def __init__(self, W, c, x):
        self.W, self.c, self.x = W, c, x
        self.xi = np.einsum('cij,cqj->cqi', W.Ji[c], x - W.o[c][:, None])
        self.area = W.area[c][:, None]

    def _v(self, p):
        return np.stack([self.xi[..., 0]**i*self.xi[..., 1]**j for i, j in p.mono], -1)

    def val(self, p):
        """(N, nf, nq) or (N, nf, nq, ncomp)."""
        if hasattr(p, 'val_at'):
            return p.val_at(self)
        v = np.einsum('fqm,nfmk->nfqk', self._v(p), p.coef[:, self.c])
        return v if p.vector else v[..., 0]

    def grad(self, p):
        """(..., [comp], 2)."""
        if hasattr(p, 'grad_at'):
            return p.grad_at(self)
        x, y = self.xi[..., 0], self.xi[..., 1]
        dx = np.stack([i*x**max(i - 1, 0)*y**j for i, j in p.mono], -1)
        dy = np.stack([j*x**i*y**max(j - 1, 0) for i, j in p.mono], -1)
        d = np.stack([dx, dy], -1)                                        # f q m r
        g = np.einsum('fqmr,nfmk->nfqkr', d, p.coef[:, self.c])
        g = np.einsum('nfqkr,frs->nfqks', g, self.W.Ji[self.c])
        return g if p.vector else g[..., 0, :]


def dot(a, b):
    return (a*b).sum(axis=-1)


def ddot(a, b):
    return (a*b).sum(axis=(-2, -1))


def outer(a, b):
    return a[..., :, None]*b[..., None, :]


def sym(a):
    return .5*(a + np.swapaxes(a, -1, -2))
