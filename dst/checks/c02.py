"""C02: every sweep is computed exactly once, after and from the sweep it starts from."""

import collections
import copy

import numpy as np

from .. import gen, lin, pool, ref, sim, work
from ..core import Violation

ID = "C02"
LEVEL = "exploration"
RUNS = (640, 24000)
RULE = ("A case is a random dependency forest (1-14 sweeps in random declaration order, chains up to 1120 sweeps, or a forest damaged by a "
        "self-dependency, a cycle or an undeclared sweep) solved under a random schedule. The linear-solver calls are recorded, attributed to the "
        "sweeps by their unique excitation, and compared with the dependency forest. Nontrivial: at least one dependency or a damaged forest.")
REAL = ["pypeec mesher and solver (complete)", "joblib.Parallel (dispatch, batching, retrieval)", "cloudpickle", "SciPy GMRES/GCROT"]
STUB = ["joblib process pool (simulated workers)", "clock"]
ASSUMPTIONS = ["The initial vector of a sweep is the initial vector given to the iterative linear solver (gmres or gcrotmk)."]
PROBES = ["long chain", "cycle", "self dependency", "undeclared dependency", "warm start", "parallel schedule", "segregated", "cycle beside valid sweeps",
          "parent not converged"]


def forest(ch, n):
    """Random parents (index or None)."""
    mode = ch.pick(["tree", "chain", "star", "deep"], "forest")
    par = []
    for i in range(n):
        if i == 0:
            par.append(None)
        elif mode == "chain":
            par.append(i-1)
        elif mode == "star":
            par.append(0)
        elif mode == "deep":
            par.append(max(0, i-1-ch.draw(2, "par")))
        else:
            k = ch.draw(i+1, "par")
            par.append(None if k == i else k)
    return par


def run(env):
    ch = env.ch
    with sim.simulation(env):
        long = ch.flag(0.008, "long")
        (geo, prob, meta) = gen.random_case(ch, max_voxel=6 if long else 12, max_elec=2 if long else 6, magnetic=0.0 if long else 0.4, n_sweep=1, points=False)
        tol = gen.random_tolerance(ch)
        if long:
            tol["solver_options"]["coupling"] = "direct"
        seg = tol["solver_options"]["coupling"] == "segregated"
        mode = "tight" if long else work.loose(ch, tol)
        n_jobs = ch.pick([0, 2, 3, 1, 4, -1], "n_jobs")
        tol["parallel_sweep"] = {"n_jobs": n_jobs, "n_threads": ch.pick([None, 1, 2, 3], "n_threads")}

        # declare the sweeps
        n = ch.int(1020, 1120, "n") if long else ch.int(1, 14, "n")
        par = forest(ch, n) if not long else [None if i == 0 else i-1 for i in range(n)]
        names = ["s%d" % i for i in range(n)]
        names = ch.perm(names, "names") if n <= 14 else names
        (p0,) = prob["sweep_solver"].values()
        sweeps = {}
        for i in range(n):
            param = copy.deepcopy(p0["param"])
            param["freq"] = ch.pick([1e3, 0.0, 1e5], "freq") if n <= 14 else param["freq"]
            for val in param["source_val"].values():
                for k in ("V_re", "I_re"):
                    if k in val:
                        fact = 1.0+0.01*(i+1)
                        val[k] = [fact*x for x in val[k]] if isinstance(val[k], list) else fact*val[k]
            sweeps[names[i]] = {"init": None if par[i] is None else names[par[i]], "param": param}
        order = ch.perm(names, "order") if n <= 14 else (list(reversed(names)) if ch.flag(0.5, "rev") else names)
        sweeps = {k: sweeps[k] for k in order}
        prob["sweep_solver"] = sweeps

        # damage the dependencies
        bad = ch.weighted([(None, 7), ("self", 1), ("cycle", 2), ("undeclared", 1)], "damage") if not long else None
        if bad == "self":
            sweeps[ch.pick(names, "who")]["init"] = None if False else None
            who = ch.pick(names, "who")
            sweeps[who]["init"] = who
            env.probe("self dependency")
        elif bad == "cycle" and n >= 2:
            k = ch.int(2, n, "cycle-size")
            cyc = ch.perm(names, "cycle")[:k]
            for a, b in zip(cyc, cyc[1:]+cyc[:1]):
                sweeps[a]["init"] = b
            env.probe("cycle")
            if any(v["init"] is None for v in sweeps.values()):
                env.probe("cycle beside valid sweeps")
        elif bad == "undeclared":
            sweeps[ch.pick(names, "who")]["init"] = ch.pick(["unknown", names[0]+"_x", "None"], "what")
            env.probe("undeclared dependency")
        else:
            bad = None
        if long:
            env.probe("long chain")
        if seg:
            env.probe("segregated")

        img = sim.new_image("parent")
        out = work.mesh(env, img, geo)
        if not out.ok:
            raise Violation("mesher-failed", out)
        vox = out.value
        ls = lin.LinSim(env)
        with pool.simulated(env, img) as pl, lin.handler(ls):
            out = work.solve(env, img, vox, copy.deepcopy(prob), tol)
        env.event("solve", n, bad, n_jobs, mode, out.kind())
        env.sample = "%d sweeps, init=%s, damage=%s, n_jobs=%d, %s" % (
            n, {k: v["init"] for k, v in list(sweeps.items())[:8]}, bad, n_jobs, tol["solver_options"]["coupling"])
        if pl.max_run > 1:
            env.probe("parallel schedule")

        # resources: number of workers and of threads
        allowed = pl.cores+1+n_jobs if n_jobs < 0 else n_jobs
        n_threads = tol["parallel_sweep"]["n_threads"]
        if n_jobs == 0:
            env.check(not pl.configs, "workers-not-requested", lambda: "n_jobs=0: %s" % pl.configs)
        env.check(pl.max_run <= max(allowed, 1), "too-many-workers", lambda: "n_jobs=%d: %d" % (n_jobs, pl.max_run))
        for (n_cfg, thr) in pl.configs:
            env.check(n_cfg <= max(allowed, 1), "too-many-workers", lambda: "n_jobs=%d (%d): %d" % (n_jobs, allowed, n_cfg))
            if n_cfg > 1:
                env.check(thr == n_threads, "thread-limit", lambda: "n_threads=%s: %s" % (n_threads, thr))
        siblings = collections.Counter(v["init"] for v in sweeps.values())
        if bad is None and out.ok and allowed > 1 and max(siblings.values()) > 1:
            env.check(any(x > 1 for (x, _t) in pl.configs), "workers-missing", lambda: "n_jobs=%d: %s" % (n_jobs, pl.configs))

        if bad is not None:
            env.nontrivial = True
            env.check(not out.ok, "bad-dependency-accepted", lambda: "%s: %s" % (bad, {k: v["init"] for k, v in sweeps.items()}))
            env.check(isinstance(out.exc, Exception), "bad-dependency-exception", lambda: repr(out))
            env.check(not ls.calls and pl.n_tasks == 0, "computed-before-rejection", lambda: "%s: %d solver calls before the rejection" % (bad, len(ls.calls)))
            return
        if not out.ok:
            if work.is_numeric(out.exc):
                env.event("numeric")
                return
            raise Violation("unexpected-exception", out)
        sol = out.value
        d = work.complete(sol, prob)
        env.check(d is None, "incomplete-solution", d)
        if any(v["init"] is not None for v in sweeps.values()):
            env.nontrivial = True
            env.probe("warm start")

        # API level: initial power
        for tag, val in sweeps.items():
            res = sol["data_sweep"][tag]
            got = res["conv"]["power_init"]
            if val["init"] is None:
                want = 0.0
                scale = abs(res["integral"]["S_total"])
            else:
                pres = sol["data_sweep"][val["init"]]
                if not pres["has_converged"]:
                    env.probe("parent not converged")
                fact = (1.0 if res["freq"] == 0 else 0.5)/(1.0 if pres["freq"] == 0 else 0.5)
                want = fact*pres["integral"]["S_total"]
                scale = abs(pres["integral"]["S_total"])
            env.check(abs(got-want) <= 1e-7*scale+1e-14*abs(res["integral"]["S_total"])+1e-25, "initial-power",
                      lambda: "sweep %s (init %s): initial power %s, expected %s" % (tag, val["init"], got, want))

        check_calls(env, ls, vox, prob, tol, sol, seg)


def check_calls(env, ls, vox, prob, tol, sol, seg):
    """Attribute the recorded solver calls to the sweeps and compare them with the dependencies."""
    sweeps = prob["sweep_solver"]
    geom = ref.Geometry(vox["data_geom"], prob, tol)
    (nc, nm) = (len(geom.fc)+len(geom.vc)+len(geom.src), len(geom.fm)+len(geom.vm))
    src = slice(len(geom.fc)+len(geom.vc), nc)
    want = {}
    for tag, val in sweeps.items():
        want[tag] = rhs(geom, prob, val["param"])

    tags = list(want)
    table = np.array([want[k] for k in tags])

    # attribute
    groups = []         # [tag, list of calls]
    for call in ls.calls:
        tag = None
        n = len(call.b)
        if n == nc+nm or n == nc:
            err = np.max(np.abs(table-call.b[src][None, :])-1e-9*np.abs(table), axis=1)
            k = int(np.argmin(err))
            if err[k] <= 0:
                tag = tags[k]
        if n == 0:
            continue
        if tag is None and not (seg and n == nm and groups):
            raise Violation("unknown-system", "solver call of size %d with an excitation of no sweep" % n)
        if tag is None:
            groups[-1][1].append(call)
        elif groups and groups[-1][0] == tag:
            groups[-1][1].append(call)
        else:
            groups.append([tag, [call]])

    order = [g[0] for g in groups]
    count = collections.Counter(order)
    for tag in sweeps:
        if count[tag] != 1:
            raise Violation("not-exactly-once", "sweep %s was computed %d times (order: %s)" % (tag, count[tag], order[:40]))
    final = {}
    for tag, calls in groups:
        init = sweeps[tag]["init"]
        first = calls[0]
        full = not seg
        if full and len(calls) != 1:
            raise Violation("not-exactly-once", "sweep %s: %d linear solves" % (tag, len(calls)))
        # expected initial vector
        if init is None:
            x0 = np.zeros(nc+nm, dtype=complex)
        else:
            if init not in final:
                raise Violation("started-too-early", "sweep %s started before its initial sweep %s was finished" % (tag, init))
            x0 = final[init]
        if full:
            got = first.x0 if first.x0 is not None else np.zeros(nc+nm)
            cmp_x0(tag, init, got, x0)
            x = first.x if first.exc is None else first.callbacks[-1]
        else:
            # segregated solver: follow the blocks
            so = tol["solver_options"]["segregated_options"]
            (we, wm) = (so["relax_electric"], so["relax_magnetic"])
            xe = x0[:nc]
            xm = x0[nc:]
            n_e = 0
            for i, call in enumerate(calls):
                is_m = nm > 0 and i % 2 == 1
                cur = xm if is_m else xe
                got = call.x0 if call.x0 is not None else np.zeros(len(cur))
                if len(got) != len(cur):
                    raise Violation("initial-vector", "sweep %s: size %d, expected %d" % (tag, len(got), len(cur)))
                cmp_x0(tag, init, got, cur)
                if is_m:
                    xm = (1-wm)*xm+wm*call.x
                else:
                    n_e += 1
                    xe = (1-we)*xe+we*call.x
            n_it = sol["data_sweep"][tag]["solver_status"]["n_iter"]
            env.check(n_e == n_it, "not-exactly-once", lambda: "sweep %s: %d electric solves for %d iterations" % (tag, n_e, n_it))
            x = np.concatenate((xe, xm))
        final[tag] = x
        # the returned sweep is the one that was computed
        V = np.asarray(sol["data_sweep"][tag]["var"]["V_c"]["var"]).ravel()
        W = x[len(geom.fc):len(geom.fc)+len(geom.vc)]
        env.check(np.allclose(V, W, rtol=1e-9, atol=1e-12*np.max(np.abs(W))), "wrong-sweep-data",
                  lambda: "sweep %s: the returned potentials are not the ones of its final vector" % tag)


def cmp_x0(tag, init, got, want):
    if not np.allclose(got, want, rtol=1e-9, atol=1e-13*(np.max(np.abs(want)) if len(want) else 0.0)):
        raise Violation("initial-vector", "sweep %s does not start from the final vector of %s (error %.2e, size %.2e)" % (
            tag, init, np.max(np.abs(got-want)), np.max(np.abs(want))))


def rhs(geom, prob, param):
    """Excitation of the source equations."""
    out = []
    for k, (tag, i, v) in enumerate(geom.src):
        src = prob["source_def"][tag]
        val = param["source_val"][tag]
        lump = src["var_type"] == "lumped"
        if src["source_type"] == "current":
            x = complex(val["I_re"], val["I_im"])/len(geom.src_vox[tag]) if lump else complex(val["I_re"][i], val["I_im"][i])
        else:
            x = complex(val["V_re"], val["V_im"]) if lump else complex(val["V_re"][i], val["V_im"][i])
        out.append(x)
    return np.array(out)
