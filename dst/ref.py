"""
Reference model: dense PEEC solution of a problem (independent of the code under test).

The voxel geometry, the faces, and the materials are handled with plain loops, the Green functions are
evaluated with the Hoer/Love/Ruehli formula (the magnetic-electric coupling is its derivative, computed with a
complex step), the equation system is assembled as a dense matrix, and it is solved directly.
"""

import functools

import numpy as np

MU0 = __import__("scipy.constants").constants.mu_0


def _hoer(x, y, z):
    """Sixfold antiderivative of 1/r (any dtype)."""
    with np.errstate(all="ignore"):
        r = np.sqrt(x*x+y*y+z*z)

        def asinh_term(u, v, w):
            # u * log((u+r)/sqrt(v^2+w^2)) * (v^2 w^2/4 - v^4/24 - w^4/24)
            q = np.sqrt(v*v+w*w)
            val = np.arcsinh(u/q)
            fact = v*v*w*w/4-v**4/24-w**4/24
            out = u*fact*val
            return np.where(np.abs(q) < 1e-25*(1e-300+np.abs(r)), 0.0, out)

        def atan_term(u, v, w):
            # u v w^3 / 6 * atan(u v / (w r))
            val = np.arctan((u*v)/(w*r))
            out = u*v*w**3/6*val
            return np.where(np.abs(w) < 1e-25*(1e-300+np.abs(r)), 0.0, out)

        out = (
            asinh_term(x, y, z)+asinh_term(y, x, z)+asinh_term(z, x, y)
            + (x**4+y**4+z**4-3*x*x*y*y-3*y*y*z*z-3*z*z*x*x)*r/60
            - atan_term(x, y, z)-atan_term(x, z, y)-atan_term(y, z, x)
        )
    out = np.where(np.isfinite(out), out, 0.0)
    return out


_W = np.array([1.0, -2.0, 1.0])
_O = np.array([-1.0, 0.0, 1.0])


def _second_diff(fct, d, idx):
    """Second differences in the three directions."""
    tot = 0.0
    for i in range(3):
        for j in range(3):
            for k in range(3):
                w = _W[i]*_W[j]*_W[k]
                tot = tot+w*fct(d[0]*(idx[0]+_O[i]), d[1]*(idx[1]+_O[j]), d[2]*(idx[2]+_O[k]))
    return tot


@functools.lru_cache(maxsize=200000)
def green(d, idx, ana):
    """Integral of 1/(4 pi r) between two voxels."""
    if not ana:
        vol = d[0]*d[1]*d[2]
        return vol*vol/(4*np.pi*np.sqrt(sum((a*b)**2 for a, b in zip(d, idx))))
    s = max(d)
    dn = tuple(x/s for x in d)

    def fct(x, y, z):
        return _hoer(np.float64(x), np.float64(y), np.float64(z))
    return s**5*float(_second_diff(fct, dn, idx))/(4*np.pi)


@functools.lru_cache(maxsize=200000)
def green_der(d, idx, axis, ana):
    """Derivative of the integral with respect to the distance along an axis."""
    if not ana:
        # finite difference of the point approximation over one voxel
        vol = d[0]*d[1]*d[2]

        def num(off):
            v = list(idx)
            v[axis] = v[axis]+off
            dis = np.sqrt(sum((a*b)**2 for a, b in zip(d, v)))
            return (vol/d[axis])*vol/(4*np.pi*dis)
        return num(+0.5)-num(-0.5)
    s = max(d)
    dn = tuple(x/s for x in d)
    h = 1e-40

    def fct(x, y, z):
        v = [np.complex128(x), np.complex128(y), np.complex128(z)]
        v[axis] = v[axis]+1j*h
        return np.imag(_hoer(*v))/h
    return s**4*float(_second_diff(fct, dn, idx))/(4*np.pi)


class Geometry:
    """Voxel geometry of a problem."""

    def __init__(self, geom, problem, tol):
        self.n = tuple(int(x) for x in geom["n"])
        self.d = tuple(float(x) for x in geom["d"])
        self.c = tuple(float(x) for x in geom["c"])
        self.domain = {k: [int(i) for i in v] for k, v in geom["domain_def"].items()}
        self.pts = np.array(geom["pts_cloud"], dtype=float).reshape(-1, 3)
        self.simplify = float(tol["integral_simplify"])
        self.biot = tol["biot_savart"]
        self.problem = problem
        self._mats = None

        # ordered lists of voxels
        self.vc = []
        self.vm = []
        self.mat_vox = {}
        for tag, mat in problem["material_def"].items():
            vox = [i for dom in mat["domain_list"] for i in self.domain[dom]]
            self.mat_vox[tag] = vox
            if mat["material_type"] in ("electric", "electromagnetic"):
                self.vc += vox
            if mat["material_type"] in ("magnetic", "electromagnetic"):
                self.vm += vox
        self.src = []       # (tag, voxel) for every source equation (current sources first)
        self.src_vox = {}
        for kind in ("current", "voltage"):
            for tag, src in problem["source_def"].items():
                if src["source_type"] == kind:
                    vox = [i for dom in src["domain_list"] for i in self.domain[dom]]
                    self.src_vox[tag] = vox
                    self.src += [(tag, k, v) for k, v in enumerate(vox)]
        self.n_src_c = sum(1 for (tag, _, _) in self.src if problem["source_def"][tag]["source_type"] == "current")
        self.n_src_v = len(self.src)-self.n_src_c
        self.pos_c = {v: k for k, v in enumerate(self.vc)}
        self.pos_m = {v: k for k, v in enumerate(self.vm)}
        self.fc = self._faces(self.pos_c)
        self.fm = self._faces(self.pos_m)

    def ijk(self, v):
        (nx, ny, nz) = self.n
        return (v % nx, (v//nx) % ny, v//(nx*ny))

    def _faces(self, pos):
        """Internal faces (axis, lower voxel, upper voxel), sorted by axis and voxel."""
        out = []
        (nx, ny, nz) = self.n
        step = (1, nx, nx*ny)
        for axis in range(3):
            for v in sorted(pos):
                if self.ijk(v)[axis] == self.n[axis]-1:
                    continue
                w = v+step[axis]
                if w in pos:
                    out.append((axis, v, w))
        return out

    def face_id(self, faces):
        nv = self.n[0]*self.n[1]*self.n[2]
        return [axis*nv+v for (axis, v, w) in faces]

    def center(self, v):
        return np.array([c-n*d/2+d/2+d*i for (c, n, d, i) in zip(self.c, self.n, self.d, self.ijk(v))])

    def area(self, axis):
        (dx, dy, dz) = self.d
        return (dy*dz, dx*dz, dx*dy)[axis]

    def _rel(self, v, w):
        """Relative position and method."""
        (a, b) = (self.ijk(v), self.ijk(w))
        rel = tuple(x-y for x, y in zip(a, b))
        dis = np.sqrt(sum((x*y)**2 for x, y in zip(rel, self.d)))/max(self.d)
        return rel, bool(dis <= self.simplify)

    def matrices(self):
        """Frequency-independent dense matrices."""
        if self._mats is not None:
            return self._mats
        (fc, fm) = (self.fc, self.fm)
        L = np.zeros((len(fc), len(fc)))
        for i, (ax, v, _) in enumerate(fc):
            for j, (bx, w, _) in enumerate(fc):
                if ax == bx:
                    (rel, ana) = self._rel(v, w)
                    rel = tuple(abs(x) for x in rel)
                    L[i, j] = MU0/self.area(ax)**2*green(self.d, rel, ana)
        P = np.zeros((len(self.vm), len(self.vm)))
        vol = self.d[0]*self.d[1]*self.d[2]
        for i, v in enumerate(self.vm):
            for j, w in enumerate(self.vm):
                (rel, ana) = self._rel(v, w)
                rel = tuple(abs(x) for x in rel)
                P[i, j] = green(self.d, rel, ana)/(MU0*vol*vol)
        Ac = np.zeros((len(self.vc), len(fc)))
        for j, (_, v, w) in enumerate(fc):
            Ac[self.pos_c[v], j] = +1
            Ac[self.pos_c[w], j] = -1
        Am = np.zeros((len(self.vm), len(fm)))
        for j, (_, v, w) in enumerate(fm):
            Am[self.pos_m[v], j] = +1
            Am[self.pos_m[w], j] = -1

        # coupling: cross product of the gradient of the Green function with the flux direction
        K = np.zeros((len(fc), len(fm)))
        levi = {(0, 1): (2, +1), (1, 0): (2, -1), (0, 2): (1, -1), (2, 0): (1, +1), (1, 2): (0, +1), (2, 1): (0, -1)}
        for i, (ax, v1, v2) in enumerate(fc):
            for j, (bx, w1, w2) in enumerate(fm):
                if ax == bx:
                    continue
                (gx, sign) = levi[(ax, bx)]
                tot = 0.0
                for v in (v1, v2):
                    for w in (w1, w2):
                        (rel, ana) = self._rel(v, w)
                        arel = tuple(abs(x) for x in rel)
                        val = green_der(self.d, arel, gx, ana)
                        if rel[gx] < 0:
                            val = -val
                        tot += 0.25*val
                K[i, j] = -sign*tot/(self.area(ax)*self.area(bx))
        self._mats = dict(L=L, P=P, Ac=Ac, Am=Am, K=K)
        return self._mats

    def _mat_value(self, tag, val, key):
        """Value of a material property for every voxel and direction."""
        mat = self.problem["material_def"][tag]
        nv = len(self.mat_vox[tag])
        out = np.zeros((nv, 3))
        for i in range(nv):
            for k in range(3):
                if mat["var_type"] == "lumped":
                    x = val[key] if mat["orientation_type"] == "isotropic" else val[key][k]
                else:
                    x = val[key][i] if mat["orientation_type"] == "isotropic" else val[key][i][k]
                out[i, k] = x
        return out

    def system(self, param):
        """Dense equation system of a sweep."""
        m = self.matrices()
        freq = param["freq"]
        s = 2j*np.pi*freq
        rho_c = np.zeros((len(self.vc), 3), dtype=complex)
        rho_m = np.zeros((len(self.vm), 3), dtype=complex)
        for tag, mat in self.problem["material_def"].items():
            val = param["material_val"][tag]
            if mat["material_type"] in ("electric", "electromagnetic"):
                rho = self._mat_value(tag, val, "rho_re")+1j*self._mat_value(tag, val, "rho_im")
                for v, x in zip(self.mat_vox[tag], rho):
                    rho_c[self.pos_c[v]] = x
            if mat["material_type"] in ("magnetic", "electromagnetic"):
                chi = self._mat_value(tag, val, "chi_re")-1j*self._mat_value(tag, val, "chi_im")
                for v, x in zip(self.mat_vox[tag], chi):
                    rho_m[self.pos_m[v]] = 1/(MU0*x)

        def resist(faces, rho, pos):
            out = np.zeros(len(faces), dtype=complex)
            for j, (ax, v, w) in enumerate(faces):
                out[j] = 0.5*(rho[pos[v]][ax]+rho[pos[w]][ax])*self.d[ax]/self.area(ax)
            return out
        Rc = resist(self.fc, rho_c, self.pos_c)
        Rm = resist(self.fm, rho_m, self.pos_m)

        (nfc, nvc, ns, nfm, nvm) = (len(self.fc), len(self.vc), len(self.src), len(self.fm), len(self.vm))
        off = np.cumsum([0, nfc, nvc, ns, nfm, nvm])
        (o_fc, o_vc, o_s, o_fm, o_vm, nt) = [int(x) for x in off]
        A = np.zeros((nt, nt), dtype=complex)
        b = np.zeros(nt, dtype=complex)
        sl_fc = slice(o_fc, o_vc)
        sl_vc = slice(o_vc, o_s)
        sl_s = slice(o_s, o_fm)
        sl_fm = slice(o_fm, o_vm)
        sl_vm = slice(o_vm, nt)
        A[sl_fc, sl_fc] = np.diag(Rc)+s*m["L"]
        A[sl_fc, sl_vc] = -m["Ac"].T
        A[sl_fc, sl_fm] = s*m["K"]
        A[sl_vc, sl_fc] = m["Ac"]
        for k, (tag, i, v) in enumerate(self.src):
            src = self.problem["source_def"][tag]
            val = param["source_val"][tag]
            nvs = len(self.src_vox[tag])
            pick = (lambda key: val[key]) if src["var_type"] == "lumped" else (lambda key: val[key][i])
            A[o_vc+self.pos_c[v], o_s+k] = -1
            if src["source_type"] == "current":
                fact = 1/nvs if src["var_type"] == "lumped" else 1.0
                A[o_s+k, o_s+k] = 1
                A[o_s+k, o_vc+self.pos_c[v]] = fact*(pick("Y_re")+1j*pick("Y_im"))
                b[o_s+k] = fact*(pick("I_re")+1j*pick("I_im"))
            else:
                fact = nvs if src["var_type"] == "lumped" else 1.0
                A[o_s+k, o_s+k] = fact*(pick("Z_re")+1j*pick("Z_im"))
                A[o_s+k, o_vc+self.pos_c[v]] = 1
                b[o_s+k] = pick("V_re")+1j*pick("V_im")
        A[sl_fm, sl_fc] = -m["K"].T
        A[sl_fm, sl_fm] = np.diag(Rm)
        A[sl_fm, sl_vm] = -m["Am"].T
        A[sl_vm, sl_fm] = m["P"]@m["Am"]
        A[sl_vm, sl_vm] = np.eye(nvm)
        return dict(A=A, b=b, Rc=Rc, Rm=Rm, freq=freq, s=s, rho_c=rho_c,
                    sl=dict(I_fc=sl_fc, V_vc=sl_vc, I_src=sl_s, I_fm=sl_fm, V_vm=sl_vm))

    def solve(self, sys_):
        """Direct solution (equilibrated) and the inverse."""
        A = sys_["A"]
        r = 1/np.max(np.abs(A), axis=1)
        B = r[:, None]*A
        c = 1/np.max(np.abs(B), axis=0)
        B = B*c[None, :]
        Bi = np.linalg.inv(B)
        Ai = c[:, None]*Bi*r[None, :]
        x = c*np.linalg.solve(B, r*sys_["b"])
        # one step of iterative refinement
        x = x+Ai@(sys_["b"]-A@x)
        return x, Ai, np.linalg.cond(B)

    def power(self, sys_, x):
        """Terminal power of a vector."""
        sl = sys_["sl"]
        V = x[sl["V_vc"]]
        I = x[sl["I_src"]]
        fact = 1.0 if sys_["freq"] == 0 else 0.5
        return sum(fact*V[self.pos_c[v]]*np.conj(I[k]) for k, (tag, i, v) in enumerate(self.src))

    def extract(self, sys_, x):
        """All the quantities of a solution vector."""
        m = self.matrices()
        sl = sys_["sl"]
        (freq, s) = (sys_["freq"], sys_["s"])
        (I_fc, V_vc, I_src, I_fm, V_vm) = [x[sl[k]] for k in ("I_fc", "V_vc", "I_src", "I_fm", "V_vm")]
        dc = freq == 0
        P_fc = (1.0 if dc else 0.5)*np.real(np.conj(I_fc)*sys_["Rc"]*I_fc)
        P_fm = (1.0 if dc else 0.5)*np.real(np.conj(s*I_fm)*sys_["Rm"]*I_fm)
        W_c = (0.5 if dc else 0.25)*np.real(np.conj(I_fc)@(m["L"]@I_fc)) if len(I_fc) else 0.0
        W_m = (0.5 if dc else 0.25)*np.real(np.conj(I_fc)@(m["K"]@I_fm)) if len(I_fm) else 0.0
        vol = self.d[0]*self.d[1]*self.d[2]

        def project(faces, pos, val, Pf):
            J = np.zeros((len(pos), 3), dtype=complex)
            P = np.zeros(len(pos))
            D = np.zeros(len(pos), dtype=complex)
            for (ax, v, w), y, p in zip(faces, val, Pf):
                for u in (v, w):
                    J[pos[u], ax] += 0.5*y/self.area(ax)
                    P[pos[u]] += 0.5*p
                D[pos[v]] += y
                D[pos[w]] -= y
            return J, P, D
        (J, Pc, Dc) = project(self.fc, self.pos_c, I_fc, P_fc)
        (B, Pm, Dm) = project(self.fm, self.pos_m, I_fm, P_fm)

        # sources
        fact = 1.0 if dc else 0.5
        source = {}
        S_total = 0.0
        for tag in self.problem["source_def"]:
            rows = [(k, v) for k, (t, i, v) in enumerate(self.src) if t == tag]
            V = np.array([V_vc[self.pos_c[v]] for k, v in rows])
            I = np.array([I_src[k] for k, v in rows])
            S = fact*np.sum(V*np.conj(I))
            source[tag] = {"V": np.mean(V) if len(V) else 0.0, "I": np.sum(I), "S": S}
            S_total += S
        material = {}
        for tag in self.problem["material_def"]:
            kind = self.problem["material_def"][tag]["material_type"]
            pe = sum(Pc[self.pos_c[v]] for v in self.mat_vox[tag]) if kind != "magnetic" else 0.0
            pm = sum(Pm[self.pos_m[v]] for v in self.mat_vox[tag]) if kind != "electric" else 0.0
            material[tag] = {"P_electric": pe, "P_magnetic": pm, "P_total": pe+pm}

        # magnetic field
        H = np.zeros((len(self.pts), 3), dtype=complex)
        for i, pt in enumerate(self.pts):
            if self.biot == "face":
                for (ax, v, w), y in zip(self.fc, I_fc):
                    r = pt-0.5*(self.center(v)+self.center(w))
                    e = np.zeros(3, dtype=complex)
                    e[ax] = y*self.d[ax]
                    H[i] += np.cross(e, r)/(4*np.pi*np.linalg.norm(r)**3)
            else:
                for v, k in self.pos_c.items():
                    r = pt-self.center(v)
                    H[i] += np.cross(J[k]*vol, r)/(4*np.pi*np.linalg.norm(r)**3)
            for v, k in self.pos_m.items():
                r = self.center(v)-pt
                H[i] += Dm[k]*r/(4*np.pi*MU0*np.linalg.norm(r)**3)
        P_e = float(np.sum(P_fc))
        P_m = float(np.sum(P_fm))
        return {
            "material": material, "source": source,
            "integral": {"P_electric": P_e, "P_magnetic": P_m, "W_electric": W_c, "W_magnetic": W_m,
                         "P_total": P_e+P_m, "W_total": W_c+W_m, "S_total": S_total},
            "var": {"V_c": V_vc, "P_c": Pc/vol, "S_c": Dc/vol, "J_c": J,
                    "V_m": V_vm, "P_m": Pm/vol, "Q_m": Dm/vol, "B_m": B, "H_p": H},
        }

    def scales(self, sys_, x, Ai, out, r):
        """Absolute tolerances of all the quantities for a residuum norm r (same structure as "extract")."""
        m = self.matrices()
        sl = sys_["sl"]
        dc = sys_["freq"] == 0
        s = abs(sys_["s"])
        row = np.sqrt(np.sum(np.abs(Ai)**2, axis=1))

        def err(k):
            v = row[sl[k]]
            return float(np.max(v)*r) if v.size else 0.0

        def big(k):
            v = np.abs(x[sl[k]])
            return float(np.max(v)) if v.size else 0.0
        (eI, eV, eS, eF, eM) = [err(k) for k in ("I_fc", "V_vc", "I_src", "I_fm", "V_vm")]
        (I, V, S, F) = [big(k) for k in ("I_fc", "V_vc", "I_src", "I_fm")]
        vol = self.d[0]*self.d[1]*self.d[2]
        area = min(self.area(k) for k in range(3))
        k = 1.0 if dc else 0.5
        tP = k*float(np.sum(np.abs(sys_["Rc"])))*(2*I*eI+eI*eI)
        tM = k*s*float(np.sum(np.abs(sys_["Rm"])))*(2*F*eF+eF*eF)
        tW = 0.5*float(np.sum(np.abs(m["L"])))*(2*I*eI+eI*eI)
        tX = 0.5*float(np.sum(np.abs(m["K"])))*(I*eF+F*eI+eI*eF)+1e-11*m["K"].size*(I+eI)*(F+eF)
        tS = k*(V*eS+S*eV+eS*eV)
        n_s = max(1, len(self.src))
        var = {"V_c": eV, "P_c": tP/vol, "S_c": 6*eI/vol, "J_c": eI/area,
               "V_m": eM, "P_m": tM/vol, "Q_m": 6*eF/vol, "B_m": eF/area}
        dis = 1e30
        for pt in self.pts:
            for v in list(self.pos_c)+list(self.pos_m):
                dis = min(dis, float(np.linalg.norm(pt-self.center(v))))
        var["H_p"] = (len(self.pos_c)*vol*eI/area+len(self.pos_m)*6*eF/MU0)/(4*np.pi*dis**2)
        return {
            "material": {t: {"P_electric": tP, "P_magnetic": tM, "P_total": tP+tM} for t in self.problem["material_def"]},
            "source": {t: {"V": eV, "I": n_s*eS, "S": n_s*tS} for t in self.problem["source_def"]},
            "integral": {"P_electric": tP, "P_magnetic": tM, "W_electric": tW, "W_magnetic": tX,
                         "P_total": tP+tM, "W_total": tW+tX, "S_total": n_s*tS},
            "var": var,
        }


def quantities(res):
    """Physical quantities of a sweep (as returned by the solver)."""
    return {
        "material": {k: {q: v[q] for q in ("P_electric", "P_magnetic", "P_total")} for k, v in res["material"].items()},
        "source": {k: {q: v[q] for q in "VIS"} for k, v in res["source"].items()},
        "integral": {q: res["integral"][q] for q in ("P_electric", "P_magnetic", "W_electric", "W_magnetic", "P_total", "W_total", "S_total")},
        "var": {k: v["var"] for k, v in res["var"].items()},
    }


def compare(got, want, tol, rel=2e-6, path=""):
    """First difference between the quantities (None if they agree)."""
    if isinstance(want, dict):
        if set(got) != set(want):
            return "%s: items %s != %s" % (path, sorted(got), sorted(want))
        for k in want:
            d = compare(got[k], want[k], tol[k], rel, path+"/"+k)
            if d:
                return d
        return None
    a = np.asarray(got)
    b = np.asarray(want)
    if a.shape != b.shape:
        if a.size == 0 and b.size == 0:
            return None
        return "%s: shape %s != %s" % (path, a.shape, b.shape)
    if a.size == 0:
        return None
    if not np.all(np.isfinite(a)):
        return "%s: not finite: %s" % (path, a.ravel()[:6])
    e = float(np.max(np.abs(a-b)))
    t = rel*float(np.max(np.abs(b)))+tol
    if e > t:
        return "%s: error %.3e (tolerance %.3e): got %s, expected %s" % (path, e, t, a.ravel()[:4], b.ravel()[:4])
    return None


class Reference:
    """Reference results of a complete problem (computed on demand)."""

    def __init__(self, geom, problem, tol):
        self.g = Geometry(geom, problem, tol)
        self.problem = problem
        self.cache = {}

    def get(self, tag):
        if tag not in self.cache:
            sys_ = self.g.system(self.problem["sweep_solver"][tag]["param"])
            (x, Ai, cond) = self.g.solve(sys_)
            self.cache[tag] = (sys_, x, Ai, cond, self.g.extract(sys_, x))
        return self.cache[tag]

    def check(self, tag, res, r_rel=None, rel=2e-6):
        """Compare a sweep with the reference (residuum norm up to the solver threshold)."""
        (sys_, x, Ai, cond, out) = self.get(tag)
        nb = float(np.linalg.norm(sys_["b"]))
        r = (float(res["solver_status"]["res_thr"]) if r_rel is None else r_rel*nb)+1e-10*nb
        tol = self.g.scales(sys_, x, Ai, out, 2*r)
        return compare(quantities(res), out, tol, rel)

    def tolerances(self, tag, r_rel=1e-9):
        (sys_, x, Ai, cond, out) = self.get(tag)
        return self.g.scales(sys_, x, Ai, out, r_rel*float(np.linalg.norm(sys_["b"])))
