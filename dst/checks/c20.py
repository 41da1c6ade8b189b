"""C20: time-domain responses are the ones of the component."""

import copy
import importlib
import os

import numpy as np

from .. import cmp, gen, pool, ref, sim, work
from ..core import Violation
from . import c18

ID = "C20"
LEVEL = "exploration"
RUNS = (480, 12000)
RULE = ("A case is a random component (1-4 windings, random terminals, materials, optional magnetic core) whose voxels are given by tensor indices (converted by utils.voxel), excited by random "
        "periodic sampled signals (random, pulses, a single harmonic including the one at half of the sampling rate), decomposed by utils.fourier, solved harmonic by harmonic under a random "
        "schedule of the simulated process pool (order of the sweeps, workers, warm starts, killed workers followed by a repeated call), passed on in memory or through a file to another process "
        "image, and transformed back with a random number of samples. The coefficients and the waveforms are compared with direct sums, the responses with the superposition of an independent dense PEEC "
        "model, and the mean power of the waveforms with the losses. Nontrivial: a response was compared.")
REAL = ["pypeec mesher, solver, utils.fourier and utils.voxel (complete)", "scisave (file transfer)", "joblib.Parallel", "SciPy/NumPy"]
STUB = ["joblib process pool", "clock", "FFTW/MKL/CuPy/PARDISO/PyAMG stand-ins computing with SciPy"]
ASSUMPTIONS = ["The reference model is a correct implementation of the documented PEEC equations.",
               "The signals contain no harmonic above the number of sweeps (the highest frequency is limited by the number of simulated sweeps), except for the explicit truncation of the coefficients."]
PROBES = ["compared", "half of the sampling rate", "padded", "truncated", "oversampled", "undersampled", "odd number of samples", "even number of samples", "through a file", "worker killed",
          "power balance", "magnetic", "voltage source", "several signals", "rejected index", "zero harmonic", "not converged"]


def series(c, n_time):
    """Samples of a Fourier series (without the harmonics above half of the sampling rate)."""
    m = np.arange(n_time)
    out = np.zeros(n_time)
    for k, x in enumerate(c):
        if 2*k <= n_time:
            out += np.real(x*np.exp(2j*np.pi*k*m/n_time))
    return out


def coefficients(v, n_freq):
    """Peak values of the harmonics of a sampled signal."""
    n = len(v)
    out = np.zeros(n_freq, dtype=complex)
    for k in range(n_freq):
        if 2*k > n:
            continue
        scale = 1.0/n if (k == 0 or 2*k == n) else 2.0/n
        out[k] = scale*sum(v[m]*np.exp(-2j*np.pi*k*m/n) for m in range(n))
    return out


def same(a, b, tol=1e-12):
    (a, b) = (np.asarray(a), np.asarray(b))
    return a.shape == b.shape and (a.size == 0 or float(np.max(np.abs(a-b))) <= tol*max(float(np.max(np.abs(b))), 1e-300))


def convert(env, img, geo):
    """The voxels of the geometry are converted by the helper."""
    ch = env.ch
    with img.active():
        mod = importlib.import_module("pypeec.utils.voxel")
    n = geo["data_voxelize"]["param"]["n"]
    (nx, ny, nz) = n

    def call(fct, *args):
        with img.active():
            return work.call(env, fct, *args)
    for name, idx in geo["data_voxelize"]["domain_index"].items():
        tensor = [[v % nx, (v//nx) % ny, v//(nx*ny)] for v in idx]
        arg = np.array(tensor) if ch.flag(0.5, "array") else copy.deepcopy(tensor)
        saved = cmp.digest(arg)
        out = call(mod.get_idx_linear, list(n), arg)
        env.check(out.ok, "valid-index", lambda: repr(out))
        env.check(np.asarray(out.value).tolist() == list(idx) and cmp.digest(arg) == saved, "wrong-index", lambda: "%s: %s, expected %s" % (name, out.value, idx))
        back = call(mod.get_idx_tensor, list(n), out.value)
        env.check(back.ok and np.asarray(back.value).tolist() == tensor, "wrong-index", lambda: "%s: %r, expected %s" % (name, back, tensor))
        geo["data_voxelize"]["domain_index"][name] = np.asarray(out.value).tolist()
        if ch.flag(0.1, "outside"):
            # an index out of the structure is never another voxel
            bad = copy.deepcopy(tensor)
            k = ch.draw(3, "axis")
            bad[ch.draw(len(bad), "pos")][k] = n[k]+ch.pick([0, 1, 7], "off") if ch.flag(0.5, "high") else -ch.pick([1, 2, n[k]], "low")
            out = call(mod.get_idx_linear, list(n), bad)
            env.check(not out.ok, "accepted", lambda: "index out of range: %s in %s" % (bad, n))
            lin = list(idx)
            lin[ch.draw(len(lin), "pos")] = nx*ny*nz+ch.pick([0, 1, 7], "off") if ch.flag(0.5, "high") else -ch.pick([1, 2, nx*ny*nz], "low")
            out = call(mod.get_idx_tensor, list(n), lin)
            env.check(not out.ok, "accepted", lambda: "index out of range: %s in %s" % (lin, n))
            env.probe("rejected index")


def signal(ch, n_time):
    """Random samples of a periodic signal."""
    kind = ch.pick(["random", "random", "pulse", "half", "harmonic", "constant"], "signal")
    if kind == "pulse":
        return [ch.pick([0.0, 0.0, 1.0, -1.0], "pulse") for _ in range(n_time)]
    if kind == "half":
        return [(-1.0)**m for m in range(n_time)]
    if kind == "harmonic":
        k = ch.int(0, n_time//2, "k")
        phase = ch.pick([0.0, 0.7, -1.1], "phase")
        return [float(np.cos(2*np.pi*k*m/n_time+phase)) for m in range(n_time)]
    if kind == "constant":
        return [ch.pick([1.0, -0.5], "const")]*n_time
    return [ch.int(-20, 20, "sample")/10.0 for _ in range(n_time)]


def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, material, source, n_w, _) = c18.component(ch)
        counts = {t: sum(len(geo["data_voxelize"]["domain_index"][x]) for x in m["domain_list"]) for t, m in material.items()}
        tol = gen.random_tolerance(ch)
        tol["parallel_sweep"]["n_jobs"] = ch.pick([0, 2, 3], "n_jobs")
        tol["condition_options"]["check"] = False
        exact = not ch.flag(0.1, "loose")
        if not exact:
            work.loose(ch, tol)
        else:
            tol["solver_options"]["tolerance_options"]["rel_tol"] = 1e-9
        img = sim.new_image("main")
        convert(env, img, geo)
        with img.active():
            fourier = importlib.import_module("pypeec.utils.fourier")

        def call(fct, *args, **kwargs):
            saved = cmp.digest((args, kwargs))
            with img.active():
                out = work.call(env, fct, *args, **kwargs)
            env.check(cmp.digest((args, kwargs)) == saved, "modified", "argument of a transformation")
            if not out.ok:
                raise Violation("transformation-failed", out)
            return out.value

        # signals and harmonics
        freq = ch.pick([1e3, 1e5, 2.5e4], "freq")
        n_time = ch.int(1, 9, "n_time") if not ch.flag(0.03, "long") else ch.int(10, 40, "n_time")
        env.probe("odd number of samples" if n_time % 2 else "even number of samples")
        n_full = n_time//2+1
        n_freq = ch.pick([None, n_full, n_full, n_full+ch.int(1, 2, "pad"), max(1, n_full-1)], "n_freq")
        n_sweep = n_full if n_freq is None else n_freq
        env.event("signal", n_time, n_freq)
        if n_sweep > n_full:
            env.probe("padded")
        if n_sweep < n_full:
            env.probe("truncated")
        active = {t: (t.startswith("src") and ch.flag(0.8, "active")) or t == "src0" for t in source}
        wave = {}
        coef = {}
        for tag in source:
            v = signal(ch, n_time) if active[tag] else [0.0]*n_time
            arg = np.array(v) if ch.flag(0.5, "array") else v
            got = call(fourier.get_fft, arg) if n_freq is None else call(fourier.get_fft, arg, n_freq=n_freq)
            want = coefficients(v, n_sweep)
            env.check(np.asarray(got).shape == (n_sweep,) and float(np.max(np.abs(np.asarray(got)-want))) <= 1e-12*max(1.0, float(np.max(np.abs(v)))), "wrong-coefficients",
                      lambda: "%s (%s): %s, expected %s" % (v, n_freq, got, want))
            (wave[tag], coef[tag]) = (v, np.asarray(got))
            if n_time % 2 == 0 and n_sweep >= n_full and abs(want[n_full-1]) > 1e-9:
                env.probe("half of the sampling rate")
        if sum(active.values()) > 1:
            env.probe("several signals")
        f_vec = call(fourier.get_freq, freq, n_sweep)
        env.check(same(f_vec, [k*freq for k in range(n_sweep)]), "wrong-frequencies", lambda: str(f_vec))

        # sweeps
        elem = {}
        for tag, src in source.items():
            ideal = src["source_type"] == "voltage" and ch.flag(0.2, "ideal") and tag.startswith("sink")
            elem[tag] = (0.0, 0.0) if ideal else (ch.pick([0.05, 0.1], "elem"), 0.0)
        sweep = {}
        num = ch.perm(list(range(20)), "names")
        # the materials depend on the frequency (without phase shift at DC)
        val_dc = gen.random_param(ch, material, {}, counts, {}, {}, 0.0)["material_val"]
        for x in val_dc.values():
            for k in ("rho_im", "chi_im"):
                if k in x:
                    x[k] = (0.0*np.array(x[k])).tolist()
        val_ac = gen.random_param(ch, material, {}, counts, {}, {}, freq)["material_val"]
        tags = []
        zero = False
        for k in range(n_sweep):
            tag = "sim_%d" % num.pop()
            sval = {}
            for t, src in source.items():
                (a, b) = ("I", "Y") if src["source_type"] == "current" else ("V", "Z")
                sval[t] = {a+"_re": float(np.real(coef[t][k])), a+"_im": float(np.imag(coef[t][k])), b+"_re": elem[t][0], b+"_im": elem[t][1]}
            if all(x == 0 for s in sval.values() for a, x in s.items() if a[0] in "IV"):
                env.probe("zero harmonic")
                zero = True
            sweep[tag] = {"init": ch.pick([None]+tags, "init"), "param": {"freq": float(f_vec[k]), "material_val": val_ac if k else val_dc, "source_val": sval}}
            tags.append(tag)
        sweep = {t: sweep[t] for t in ch.perm(list(sweep), "sweeporder")}
        prob = {"material_def": material, "source_def": source, "sweep_solver": sweep}

        with pool.simulated(env, img) as pl:
            out = work.mesh(env, img, geo)
            if not out.ok:
                raise Violation("mesher-failed", out)
            vox = out.value
            if tol["parallel_sweep"]["n_jobs"] > 1 and ch.flag(0.25, "kill"):
                c18.killed(env, pl, img, vox, prob, tol)
            out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        env.event("solve", out.kind())
        if not out.ok:
            if work.is_numeric(out.exc) or (zero and "finite numbers" in str(out.exc)):
                # also the underflow of the iterations without any excitation
                return
            raise Violation("unexpected-exception", out)
        d = work.complete(out.value, prob)
        env.check(d is None, "incomplete-solution", d)

        # transfer of the solution to another process
        data = out.value
        if ch.flag(0.4, "file"):
            import scisave
            name = os.path.join(env.scratch, "sol"+ch.pick([".json", ".json.gz", ".pkl"], "format"))
            scisave.write_data(name, data)
            data = scisave.load_data(name)
            env.probe("through a file")
        if ch.flag(0.5, "other"):
            img = sim.new_image("user")
            with img.active():
                fourier = importlib.import_module("pypeec.utils.fourier")
        if not all(data["data_sweep"][t]["has_converged"] for t in tags):
            env.probe("not converged")
            return
        if not exact:
            return

        # responses
        reference = ref.Reference(vox["data_geom"], prob, tol)
        expect = {t: {"V": [], "I": []} for t in source}
        error = {t: {"V": 0.0, "I": 0.0} for t in source}
        for tag in tags:
            res = reference.get(tag)[4]["source"]
            t = reference.tolerances(tag, 3e-9)
            for s in source:
                for q in ("V", "I"):
                    expect[s][q].append(res[s][q])
                    error[s][q] += 2*t["source"][s][q]+4e-6*abs(res[s][q])
        single = all(sum(len(geo["data_voxelize"]["domain_index"][x]) for x in s["domain_list"]) == 1 for s in source.values())
        for _ in range(ch.int(1, 2, "responses")):
            n_out = ch.pick([None, max(2*(n_sweep-1), 1), 2*n_sweep+ch.int(0, 5, "more"), max(1, n_sweep-1)], "n_out")
            if n_out is None and n_sweep == 1:
                # the default number of samples is zero
                n_out = 1
            n_eff = 2*(n_sweep-1) if n_out is None else n_out
            if n_eff != 2*(n_sweep-1):
                env.probe("oversampled" if n_eff > 2*(n_sweep-1) else "undersampled")
            env.event("response", n_out)
            t_vec = call(fourier.get_time, freq, n_eff)
            env.check(same(t_vec, [m/(freq*n_eff) for m in range(n_eff)]), "wrong-times", lambda: str(t_vec))
            mean = 0.0
            for s in source:
                got = {}
                for q in ("V", "I"):
                    c = np.array([data["data_sweep"][t]["source"][s][q] for t in tags])
                    arg = c if ch.flag(0.5, "array") else [complex(x) for x in c]
                    got[q] = np.asarray(call(fourier.get_ifft, arg) if n_out is None else call(fourier.get_ifft, arg, n_time=n_out))
                    direct = series(c, n_eff)
                    scale = max(float(np.max(np.abs(c))), 1e-300)
                    env.check(got[q].shape == (n_eff,) and float(np.max(np.abs(got[q]-direct))) <= 1e-11*scale, "wrong-waveform",
                              lambda: "%s of %s: %s, expected %s (coefficients %s)" % (q, s, got[q], direct, c))
                    want = series(expect[s][q], n_eff)
                    err = float(np.max(np.abs(got[q]-want)))
                    env.check(err <= error[s][q]+1e-9*scale, "wrong-response", lambda: "%s of %s: error %.2e (tolerance %.2e)" % (q, s, err, error[s][q]))
                    if s == "src0" and error[s][q] < 1e-2*float(np.max(np.abs(expect[s][q]))):
                        env.nontrivial = True
                        env.probe("compared")
                mean += float(np.mean(got["V"]*got["I"]))
            if n_eff > 2*(n_sweep-1) and single:
                # mean power of the waveforms (the terminals are single voxels)
                P = sum(float(np.real(data["data_sweep"][t]["integral"]["P_total"])) for t in tags)
                S = sum(float(np.sum([abs(data["data_sweep"][t]["source"][s]["V"]*data["data_sweep"][t]["source"][s]["I"]) for s in source])) for t in tags)
                bound = sum(error[s]["V"]*np.sum(np.abs(expect[s]["I"]))+error[s]["I"]*np.sum(np.abs(expect[s]["V"])) for s in source)
                env.check(abs(mean-P) <= 1e-6*S+4*bound, "power-balance", lambda: "mean power %.9e, losses %.9e (tolerance %.2e)" % (mean, P, 1e-6*S+4*bound))
                env.probe("power balance")
        if "mat_m" in material:
            env.probe("magnetic")
        if any(s["source_type"] == "voltage" for t, s in source.items() if t.startswith("src")):
            env.probe("voltage source")
        env.sample = "%d windings, %s, %d samples, %d harmonics of %g Hz" % (n_w, list(material), n_time, n_sweep, freq)
