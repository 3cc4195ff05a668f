"""The documented weak forms of the two dimensional equations, evaluated independently.

All functions return the right hand side (d/dt = ...) tested with every basis
function of the space.
"""
import numpy as np
from .weak import dot, ddot, outer, sym

G = 9.81
RHO0 = 1000.


class K:
    """A constant, or a polynomial, evaluated alike."""
    def __init__(self, v):
        self.v = v

    def at(self, D):
        if hasattr(self.v, 'coef'):
            return D.val(self.v)
        return np.asarray(self.v, dtype=float)

    def grad(self, D):
        if hasattr(self.v, 'coef'):
            return D.grad(self.v)
        return np.zeros(np.shape(self.v) + (2,))


class Depth:
    """Total depth of a model."""
    def __init__(self, bath, nonlinear=True, alpha=None):
        self.b, self.nonlinear, self.alpha = K(bath), nonlinear, None if alpha is None else K(alpha)

    def __call__(self, D, eta):
        b = self.b.at(D)
        if not self.nonlinear:
            return b + 0*eta
        H = b + eta
        if self.alpha is not None:
            a = self.alpha.at(D)
            H = .5*(H + np.sqrt(H**2 + a**2))
        return H

    def shift(self, D, eta):
        if self.alpha is None:
            return 0.
        H = self.b.at(D) + eta
        return .5*(np.sqrt(H**2 + self.alpha.at(D)**2) - H)

    def grad(self, D, eta, geta):
        if not self.nonlinear:
            return self.b.grad(D) + 0*geta
        g = self.b.grad(D) + geta
        if self.alpha is not None:
            H = self.b.at(D) + eta
            a, ga = self.alpha.at(D), self.alpha.grad(D)
            r = np.sqrt(H**2 + a**2)
            g = .5*(g*(1 + H/r)[..., None] + (a/r)[..., None]*ga)
        return g


def external(D, n, eta, uv, funcs, depth, blen):
    """External state at a boundary, following the table of the documentation."""
    at = lambda k: K(funcs[k]).at(D)
    eta_e = at('elev') + 0*eta if 'elev' in funcs else eta
    if 'uv' in funcs:
        uv_e = at('uv') + 0*uv
    elif 'un' in funcs:
        uv_e = at('un')[..., None]*n + 0*uv
    elif 'flux' in funcs:
        uv_e = (at('flux')/(depth(D, eta_e)*blen))[..., None]*n + 0*uv
    else:
        uv_e = uv
    return eta_e, uv_e


OPEN = {'elev', 'uv', 'un', 'flux'}


def is_open(funcs):
    return bool(funcs) and bool(OPEN & set(funcs))


class Shallow:
    """
    W: Weak mesh with boundary markers; BU, BE: basis functions (as Poly) of
    velocity and elevation; family: element family; bnd: {marker: {key: value}};
    blen: {marker: length}; c: dict of coefficients (numbers or Poly).
    """
    def __init__(self, W, BU, BE, family, depth, bnd=None, blen=None, c=None, degree_u=1, nonlinear=True, lf=True, graddiv=False, graddepth=False, sipg=5.):
        self.__dict__.update(locals())
        self.bnd = bnd or {}
        self.c = c or {}
        self.u_dg = True
        self.e_dg = not family.endswith('-cg')
        self.markers = sorted(set(W.tag))

    # every part returns (momentum vector, continuity vector)
    def pressure(self, uv, eta, uvo, etao):
        W, B = self.W, self.BU
        if self.e_dg:
            r = W.cells(lambda D: G*D.val(eta)*np.trace(D.grad(B), axis1=-2, axis2=-1))

            def jump(p, m, n):
                H = .5*(self.depth(p, p.val(etao)) + self.depth(m, m.val(etao)))
                star = .5*(p.val(eta) + m.val(eta)) + np.sqrt(H/G)*dot(p.val(uv) - m.val(uv), n)
                return -G*star*dot(p.val(B) - m.val(B), n)
            r = r + W.interior(jump)
        else:
            r = W.cells(lambda D: -G*dot(D.grad(eta), D.val(B)))
        for k in self.markers:
            f = self.bnd.get(k)

            def edge(D, n):
                e, u = D.val(eta), D.val(uv)
                H = self.depth(D, D.val(etao))
                if is_open(f):
                    ee, ue = external(D, n, e, u, f, self.depth, self.blen[k])
                    star = .5*(e + ee) + np.sqrt(H/G)*dot(u - ue, n)
                else:
                    star = e + np.sqrt(H/G)*dot(u, n)
                if not self.e_dg:
                    if not is_open(f):
                        return 0*dot(D.val(B), n)
                    star = star - e
                return -G*star*dot(D.val(B), n)
            r = r + W.boundary(edge, k)
        return r

    def divergence(self, uv, eta, uvo, etao):
        W, B = self.W, self.BE
        r = W.cells(lambda D: dot(D.grad(B), D.val(uv))*self.depth(D, D.val(etao)))
        if self.e_dg:
            def jump(p, m, n):
                H = .5*(self.depth(p, p.val(etao)) + self.depth(m, m.val(etao)))
                un = .5*dot(p.val(uv) + m.val(uv), n) + np.sqrt(G/H)*(p.val(eta) - m.val(eta))
                return -H*un*(p.val(B) - m.val(B))
            r = r + W.interior(jump)
        for k in self.markers:
            f = self.bnd.get(k)
            if is_open(f):
                r = r + W.boundary(lambda D, n: -self.through(D, n, f, k, uv, eta, uvo, etao)*D.val(B), k)
        return r

    def through(self, D, n, f, k, uv, eta, uvo, etao):
        """Volume flux per unit length through an open boundary, positive out of the domain."""
        e, u, eo, uo = D.val(eta), D.val(uv), D.val(etao), D.val(uvo)
        ee, ue = external(D, n, e, u, f, self.depth, self.blen[k])
        eeo, ueo = external(D, n, eo, uo, f, self.depth, self.blen[k])
        hav = .5*(self.depth(D, eo) + self.depth(D, eeo))
        un = .5*dot(u + ue, n) + np.sqrt(G/hav)*(e - ee)
        star = .5*(eo + eeo) + np.sqrt(hav/G)*dot(uo - ueo, n)
        return self.depth(D, star)*un

    def advection(self, uv, eta, uvo, etao):
        if not self.nonlinear:
            return 0.
        W, B = self.W, self.BU
        lf = self.c.get('lax_friedrichs_velocity_scaling_factor', 1.)

        def cell(D):
            u, uo, b = D.val(uv), D.val(uvo), D.val(B)
            div = np.trace(D.grad(uvo), axis1=-2, axis2=-1)
            return div*dot(b, u) + dot((D.grad(B)*uo[..., None, :]).sum(-1), u)
        r = W.cells(cell)

        def jump(p, m, n):
            avg = .5*(p.val(uv) + m.val(uv))
            v = -(dot(p.val(B), avg)*dot(p.val(uvo), n) - dot(m.val(B), avg)*dot(m.val(uvo), n))
            if self.lf:
                g = .5*np.abs(.5*dot(p.val(uvo) + m.val(uvo), n))*lf
                v = v - g*dot(p.val(B) - m.val(B), p.val(uv) - m.val(uv))
            return v
        r = r + W.interior(jump)
        for k in self.markers:
            f = self.bnd.get(k)

            def edge(D, n):
                u, uo, b = D.val(uv), D.val(uvo), D.val(B)
                if not is_open(f):
                    if not self.lf:
                        return 0*dot(b, n)
                    # mirror velocity outside
                    return -.5*np.abs(dot(uo, n))*lf*dot(b, 2*dot(u, n)[..., None]*n)
                e, eo = D.val(eta), D.val(etao)
                ee, ue = external(D, n, e, u, f, self.depth, self.blen[k])
                eeo, ueo = external(D, n, eo, uo, f, self.depth, self.blen[k])
                un = .5*dot(uo + ueo, n) + np.sqrt(G/self.depth(D, eo))*(eo - eeo)
                return -un*dot(.5*(u + ue), b)
            r = r + W.boundary(edge, k)
        return r

    def penalty(self, D, L):
        p = self.degree_u
        cp = (p + 1)**2 if self.W.quad else (p + 1)*(p + 2)/2
        return self.sipg*cp*L/D.area

    def viscosity(self, uv, eta, uvo, etao):
        nu = self.c.get('viscosity_h')
        if nu is None:
            return 0.
        W, B, nu = self.W, self.BU, K(nu)

        def stress(D):
            g = D.grad(uv)
            return nu.at(D)[..., None, None]*(2*sym(g) if self.graddiv else g)

        def cell(D):
            t = stress(D)
            v = -ddot(D.grad(B), t)
            if self.graddepth:
                H = self.depth(D, D.val(etao))
                gH = self.depth.grad(D, D.val(etao), D.grad(etao))
                v = v + dot(D.val(B), ((gH/H[..., None])[..., :, None]*t).sum(-2))
            return v
        r = W.cells(cell)

        def jump(p, m, n):
            L = W.fi['L'][:, None]
            s = np.maximum(self.penalty(p, L), self.penalty(m, L))
            tj = lambda q: outer(p.val(q), n) - outer(m.val(q), n)
            J = tj(uv)
            J = (.5*(nu.at(p) + nu.at(m)))[..., None, None]*(2*sym(J) if self.graddiv else J)
            return -(s*ddot(tj(B), J) - ddot(.5*(p.grad(B) + m.grad(B)), J) - ddot(tj(B), .5*(stress(p) + stress(m))))
        r = r + W.interior(jump)
        for k in self.markers:
            f = self.bnd.get(k)
            if not is_open(f) or not ({'uv', 'un', 'flux'} & set(f)):
                continue

            def edge(D, n):
                u = D.val(uv)
                if 'un' in f and 'uv' not in f:
                    d = (dot(u, n) - K(f['un']).at(D))[..., None]*n
                else:
                    ee, ue = external(D, n, D.val(eta), u, f, self.depth, self.blen[k])
                    d = u - ue
                J = outer(d, n)
                J = nu.at(D)[..., None, None]*(2*sym(J) if self.graddiv else J)
                s = self.penalty(D, D.L[:, None])
                bn = outer(D.val(B), n)
                return -(s*ddot(bn, J) - ddot(D.grad(B), J) - ddot(bn, stress(D)))
            r = r + W.boundary(edge, k)
        return r

    def body(self, uv, eta, uvo, etao, smoother=0.):
        """Coriolis, drag laws, wind, pressure, sources."""
        W, B, c = self.W, self.BU, self.c
        has = lambda k: c.get(k) is not None

        def cell(D):
            u, uo = D.val(uv), D.val(uvo)
            H = self.depth(D, D.val(etao))
            F = 0*u
            sp = np.sqrt(dot(uo, uo) + smoother**2)
            v = lambda k: K(c[k]).at(D)
            if has('coriolis'):
                F = F + v('coriolis')[..., None]*np.stack([u[..., 1], -u[..., 0]], -1)
            if has('wind_stress'):
                F = F + v('wind_stress')/(H*RHO0)[..., None]
            if has('atmospheric_pressure'):
                F = F - K(c['atmospheric_pressure']).grad(D)/RHO0
            cd = None
            if has('quadratic_drag_coefficient'):
                cd = v('quadratic_drag_coefficient')
            if has('manning_drag_coefficient'):
                cd = G*v('manning_drag_coefficient')**2/H**(1/3)
            if has('nikuradse_bed_roughness'):
                ks = v('nikuradse_bed_roughness')
                cd = np.where(H > ks, 2*.4**2/np.log(11.036*H/ks)**2, 0.)
            if cd is not None:
                F = F - (cd*sp/H)[..., None]*u
            if has('linear_drag_coefficient'):
                F = F - v('linear_drag_coefficient')[..., None]*u
            if has('bottom_drag') and has('uv_bottom'):
                ub = v('uv_bottom')
                F = F - (v('bottom_drag')*np.sqrt(dot(ub, ub))/H)[..., None]*ub
            if has('momentum_source'):
                F = F + v('momentum_source')
            return dot(F, D.val(B))
        r = W.cells(cell)
        for k in self.markers:
            f = self.bnd.get(k) or {}
            if 'drag' in f:
                def edge(D, n):
                    t = lambda q: q - dot(q, n)[..., None]*n
                    ut, uto = t(D.val(uv)), t(D.val(uvo))
                    return -K(f['drag']).at(D)*np.sqrt(dot(uto, uto))*dot(ut, D.val(B))
                r = r + W.boundary(edge, k)
        return r

    def volume(self):
        if self.c.get('volume_source') is None:
            return 0.
        return self.W.cells(lambda D: K(self.c['volume_source']).at(D)*D.val(self.BE))

    def mass(self, uv, eta):
        W = self.W
        return (W.cells(lambda D: dot(D.val(uv), D.val(self.BU))),
                W.cells(lambda D: (D.val(eta) + self.depth.shift(D, D.val(eta)))*D.val(self.BE)))

    def total(self, uv, eta, uvo, etao, smoother=0.):
        a = (uv, eta, uvo, etao)
        mom = self.pressure(*a) + self.advection(*a) + self.viscosity(*a) + self.body(*a, smoother=smoother)
        con = self.divergence(*a) + self.volume()
        return np.concatenate([np.broadcast_to(mom, self.BU.coef.shape[:1]), np.broadcast_to(con, self.BE.coef.shape[:1])])


class Tracer:
    """2D tracer equations."""
    mixed = False       # both in- and outflow on one edge

    def __init__(self, W, B, depth, conservative=False, bnd=None, blen=None, c=None, cg=False, lf=True, degree=1, sipg=5.):
        self.__dict__.update(locals())
        self.bnd = bnd or {}
        self.c = c or {}
        self.markers = sorted(set(W.tag))

    def outside(self, D, n, q, u, e, f, k):
        at = lambda key: K(f[key]).at(D)
        ee = at('elev') + 0*e if 'elev' in f else e
        qe = at('value') + 0*q if 'value' in f else q
        corr = K(self.c.get('tracer_advective_velocity_factor', 1.)).at(D)
        if 'uv' in f:
            ue = (corr[..., None] if corr.ndim else corr)*at('uv') + 0*u
        elif 'flux' in f:
            ue = (corr*at('flux')/(self.depth(D, ee)*self.blen[k]))[..., None]*n + 0*u
        elif 'un' in f:
            ue = (corr*at('un'))[..., None]*n + 0*u
        else:
            ue = u
        return qe, ue

    def vel(self, D, uv):
        corr = K(self.c.get('tracer_advective_velocity_factor', 1.)).at(D)
        return (corr[..., None] if corr.ndim else corr)*D.val(uv)

    def vgrad(self, D, uv):
        """Divergence of the advecting velocity."""
        corr = K(self.c.get('tracer_advective_velocity_factor', 1.))
        a = corr.at(D)
        return a*np.trace(D.grad(uv), axis1=-2, axis2=-1) + dot(corr.grad(D), D.val(uv))

    def advection(self, q, uv, eta):
        W, B = self.W, self.B
        if uv is None:
            return 0.
        if self.conservative:
            r = W.cells(lambda D: dot(D.grad(B), self.vel(D, uv))*D.val(q))
        else:
            r = W.cells(lambda D: (dot(D.grad(B), self.vel(D, uv)) + D.val(B)*self.vgrad(D, uv))*D.val(q))
        if not (self.cg and self.conservative):
            # for continuous tracers, the normal velocity or the test function may still jump
            lf = self.c.get('lax_friedrichs_tracer_scaling_factor', 1.)

            def jump(p, m, n):
                up, um = self.vel(p, uv), self.vel(m, uv)
                un = .5*dot(up + um, n)
                s = .5*(np.sign(un) + 1)             # 1: leaving side 0
                if self.conservative:
                    fl = (p.val(q)*s)[..., None]*up + (m.val(q)*(1 - s))[..., None]*um
                    v = -dot(fl, n)*(p.val(B) - m.val(B))
                else:
                    v = -(p.val(q)*s + m.val(q)*(1 - s))*(p.val(B)*dot(up, n) - m.val(B)*dot(um, n))
                if self.lf and not self.cg:
                    v = v - .5*np.abs(un)*lf*(p.val(B) - m.val(B))*(p.val(q) - m.val(q))
                return v
            r = r + W.interior(jump)
        for k in self.markers:
            f = self.bnd.get(k)

            def edge(D, n):
                u, qi = self.vel(D, uv), D.val(q)
                if f is None:
                    return -qi*dot(u, n)*D.val(B)
                qe, ue = self.outside(D, n, qi, u, D.val(eta), f, k)
                un = .5*dot(u + ue, n)
                self.mixed = self.mixed or bool((np.ptp(np.sign(un), axis=-1) > 0).any())
                s = .5*(np.sign(un) + 1)
                if self.conservative:
                    return -(qi*dot(u, n)*s + qe*dot(ue, n)*(1 - s))*D.val(B)
                return -(qi*s + qe*(1 - s))*un*D.val(B)
            r = r + W.boundary(edge, k)
        return r

    def diffusion(self, q, uv, eta):
        mu = self.c.get('diffusivity')
        if mu is None:
            return 0.
        W, B, mu = self.W, self.B, K(mu)
        r = W.cells(lambda D: -mu.at(D)*dot(D.grad(B), D.grad(q)))

        def pen(D, L):
            p = self.degree
            return self.sipg*((p + 1)**2 if W.quad else (p + 1)*(p + 2)/2)*L/D.area
        if not self.cg:
            def jump(p, m, n):
                L = W.fi['L'][:, None]
                s = np.maximum(pen(p, L), pen(m, L))
                jb, jq = p.val(B) - m.val(B), p.val(q) - m.val(q)
                am = .5*(mu.at(p) + mu.at(m))
                gb = .5*(mu.at(p)[..., None]*p.grad(B) + mu.at(m)[..., None]*m.grad(B))
                gq = .5*(mu.at(p)[..., None]*p.grad(q) + mu.at(m)[..., None]*m.grad(q))
                return -(s*am*jb*jq - dot(gb, n)*jq - jb*dot(gq, n))
            r = r + W.interior(jump)
        for k in self.markers:
            f = self.bnd.get(k)
            if f is None:
                continue

            def edge(D, n):
                if 'diff_flux' in f:
                    return K(f['diff_flux']).at(D)*D.val(B)
                u = self.vel(D, uv)
                qe, ue = self.outside(D, n, D.val(q), u, D.val(eta), f, k)
                s = .5*(np.sign(.5*dot(u + ue, n)) + 1)
                g = D.grad(q)
                ge = K(f['value']).grad(D) if 'value' in f else g
                return mu.at(D)*dot(s[..., None]*g + (1 - s)[..., None]*ge, n)*D.val(B)
            r = r + W.boundary(edge, k)
        return r

    def source(self, eta):
        if self.c.get('source') is None:
            return 0.

        def cell(D):
            v = K(self.c['source']).at(D)*D.val(self.B)
            return v*self.depth(D, D.val(eta)) if self.conservative else v
        return self.W.cells(cell)

    def total(self, q, uv, eta):
        r = self.advection(q, uv, eta) + self.diffusion(q, uv, eta) + self.source(eta)
        return np.broadcast_to(r, self.B.coef.shape[:1])
