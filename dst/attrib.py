"""Attribution of the recorded linear-solver calls to the sweeps, and executable model of the solver loops."""

import collections

import numpy as np

from . import ref
from .core import Violation


def rhs(geom, prob, param):
    """Excitation of the source equations."""
    out = []
    for k, (tag, i, v) in enumerate(geom.src):
        src = prob["source_def"][tag]
        val = param["source_val"][tag]
        lump = src["var_type"] == "lumped"
        if src["source_type"] == "current":
            x = complex(val["I_re"], val["I_im"])/len(geom.src_vox[tag]) if lump else complex(val["I_re"][i], val["I_im"][i])
        else:
            x = complex(val["V_re"], val["V_im"]) if lump else complex(val["V_re"][i], val["V_im"][i])
        out.append(x)
    return np.array(out)


class Track:
    """What a sweep did, as seen at the linear-solver seam."""

    def __init__(self, tag, calls):
        self.tag = tag
        self.calls = calls
        self.x0 = None          # initial vector (complete)
        self.iterates = []      # vector after every iteration (complete)
        self.final = None       # final vector
        self.flags = []         # flags of the iterative solver
        self.raw = None         # success of the iterative solver


class Attribution:
    def __init__(self, env, ls, vox, prob, tol):
        self.env = env
        self.prob = prob
        self.tol = tol
        self.seg = tol["solver_options"]["coupling"] == "segregated"
        self.geom = ref.Geometry(vox["data_geom"], prob, tol)
        g = self.geom
        self.nc = len(g.fc)+len(g.vc)+len(g.src)
        self.nm = len(g.fm)+len(g.vm)
        self.src = slice(len(g.fc)+len(g.vc), self.nc)
        self.groups = self._groups(ls)

    def _groups(self, ls):
        (nc, nm, seg) = (self.nc, self.nm, self.seg)
        sweeps = self.prob["sweep_solver"]
        tags = list(sweeps)
        table = np.array([rhs(self.geom, self.prob, sweeps[k]["param"]) for k in tags])
        groups = []
        for call in ls.calls:
            n = len(call.b)
            if n == 0:
                continue
            tag = None
            if n == nc+nm or n == nc:
                part = call.b[self.src]
                if np.all(np.isfinite(part)):
                    err = np.max(np.abs(table-part[None, :])-1e-9*np.abs(table), axis=1)
                    k = int(np.argmin(err))
                    if err[k] <= 0:
                        tag = tags[k]
                elif groups:
                    tag = groups[-1][0]
            if tag is None and not (seg and n == nm and groups):
                raise Violation("unknown-system", "solver call of size %d with an excitation of no sweep" % n)
            if tag is None:
                groups[-1][1].append(call)
            elif groups and groups[-1][0] == tag:
                groups[-1][1].append(call)
            else:
                groups.append([tag, [call]])
        return groups

    def exactly_once(self):
        order = [g[0] for g in self.groups]
        count = collections.Counter(order)
        for tag in self.prob["sweep_solver"]:
            if count[tag] != 1:
                raise Violation("not-exactly-once", "sweep %s was computed %d times (order: %s)" % (tag, count[tag], order[:40]))

    def tracks(self):
        """Follow the vectors of all the sweeps (in the order of the computation)."""
        out = {}
        for tag, calls in self.groups:
            t = Track(tag, calls)
            init = self.prob["sweep_solver"][tag]["init"]
            if init is None:
                t.x0 = np.zeros(self.nc+self.nm, dtype=complex)
            elif init in out:
                t.x0 = out[init].final
            else:
                raise Violation("started-too-early", "sweep %s started before its initial sweep %s was finished" % (tag, init))
            if not self.seg:
                if len(calls) != 1:
                    raise Violation("not-exactly-once", "sweep %s: %d linear solves" % (tag, len(calls)))
                (call,) = calls
                t.iterates = list(call.callbacks)
                t.flags = [call.flag]
                if call.exc is None:
                    t.final = call.x
                    t.raw = call.flag == 0
                else:
                    t.final = call.callbacks[-1] if call.callbacks else None
                    t.raw = None
            else:
                so = self.tol["solver_options"]["segregated_options"]
                (we, wm) = (so["relax_electric"], so["relax_magnetic"])
                (xe, xm) = (t.x0[:self.nc], t.x0[self.nc:])
                step = 2 if self.nm > 0 else 1
                for i in range(0, len(calls), step):
                    part = calls[i:i+step]
                    if len(part) != step or part[0].x is None or part[-1].x is None:
                        break
                    xe = (1-we)*xe+we*part[0].x
                    if step == 2:
                        xm = (1-wm)*xm+wm*part[1].x
                    t.iterates.append(np.concatenate((xe, xm)))
                    t.flags.append(tuple(c.flag for c in part))
                t.final = t.iterates[-1] if t.iterates else t.x0
            out[tag] = t
        return out

    def system(self, tag):
        return self.geom.system(self.prob["sweep_solver"][tag]["param"])


def power_stop(power, opts):
    """First iteration at which the power criterion holds (1-based), with the ambiguous iterations."""
    first = None
    unsure = []
    n_min = max(2, opts["n_cmp"]+1, opts["n_min"])
    for i in range(n_min, len(power)+1):
        ref_ = power[i-1]
        prev = np.asarray(power[i-1-opts["n_cmp"]:i-1])
        if not np.all(np.isfinite(prev)) or not np.isfinite(ref_):
            continue
        err = float(np.max(np.abs(ref_-prev)))
        thr = max(opts["rel_tol"]*abs(ref_), opts["abs_tol"])
        scale = max(abs(ref_), float(np.max(np.abs(prev))))
        if abs(err-thr) <= 1e-11*scale+1e-30:
            if not (err == 0.0 and thr > 0):
                unsure.append(i)
        if err <= thr and first is None:
            first = i
    return first, unsure
