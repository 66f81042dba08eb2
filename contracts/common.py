"""Whole runs of the real optimizer with monitored criteria (run-time contract checks)."""
import warnings

import numpy as np

warnings.filterwarnings("ignore")


class Recorder:
    """the user's criterion, recording every call"""

    def __init__(self, fn):
        self.fn, self.calls, self.results = fn, [], []
        self.__name__ = "criterion"

    def __call__(self, x):
        self.calls.append(np.array(x, copy=True))
        try:
            r = self.fn(x)
        except Exception:
            self.results.append("raised")
            raise
        self.results.append(np.array(r, copy=True))
        return r


def serial_batch(func, arguments, *, n_cores=1, error_handling="continue", unpack_symbol=None):
    out = []
    for a in arguments:
        try:
            out.append(func(a))
        except Exception as e:
            if error_handling == "raise":
                raise
            out.append(f"failed: {e!r}")
    return out


class Case:
    """one random configuration, derived from a single integer"""

    def __init__(self, seed, noisy=None, faults=None, functype=None, bounds=None, max_iter=None, batch=None):
        r = self.r = np.random.default_rng([7919, seed])
        self.seed = seed
        self.functype = functype or str(r.choice(["scalar", "least_squares", "likelihood"], p=[0.45, 0.35, 0.2]))
        self.n = n = int(r.choice([1, 2, 2, 3, 4]))
        self.noisy = bool(r.random() < 0.3) if noisy is None else noisy
        self.m = int(r.choice([1, n, n + 1, 2 * n])) if self.functype != "scalar" else 1
        self.m = max(self.m, 1)
        # start point and bounds
        s = r.choice([1.0, 1.0, 1.0, 10.0, 0.1, 0.01])
        x = r.normal(size=n) * s
        u = r.random()
        if u < 0.1:
            x = np.zeros(n)
        elif u < 0.3:
            x = np.round(x * 2) / 2
        self.x = x
        kinds = ["none", "both", "lower", "upper", "mixed", "tight", "wide"]
        self.bkind = bounds if bounds is not None else str(r.choice(kinds, p=[0.2, 0.2, 0.12, 0.12, 0.16, 0.12, 0.08]))
        self.lower, self.upper = self._bounds()
        # criterion
        c = x + r.normal(size=n) * s * r.choice([0.5, 1.0, 3.0])
        A = r.normal(size=(self.m, n))
        B = r.normal(size=(n, n))
        H = B @ B.T + 0.1 * np.eye(n)
        k = int(r.integers(0, 5))
        self.kind = k
        noise = np.random.default_rng([seed, 5])
        sd = float(r.choice([0.01, 0.3])) if self.noisy else 0.0
        self.faults = (str(r.choice(["none", "none", "none", "inf", "nan", "raise", "mix", "ninf"])) if faults is None else faults)
        frate = float(r.choice([0.05, 0.2, 0.5]))
        fdir = r.normal(size=n)
        fcount = [0]
        fr = np.random.default_rng([seed, 6])
        start = x.copy()

        def base(z):
            d = (z - c) / s
            if self.functype == "scalar":
                if k == 0:
                    return float(d @ H @ d)
                if k == 1:
                    return float(np.sum(np.abs(d)) + 0.1 * d @ d)
                if k == 2:
                    return float(np.sum(np.sin(3 * d) + 0.1 * d**2))
                if k == 3:
                    return float(fdir @ d)  # unbounded: runs into the bounds
                return float(np.sum(d**4) + d[0])
            v = A @ d
            if k == 0:
                v = v + 0.1 * np.sin(v)
            elif k == 1:
                v = v**3 + v
            elif k == 2:
                v = np.arctan(v) + 0.3
            elif k == 3:
                v = A @ d + fdir[0]
            return v**2 / 2 if self.functype == "likelihood" else v

        def crit(z):
            fcount[0] += 1
            out = base(np.asarray(z, dtype=float))
            if sd:
                out = out + sd * noise.normal(size=np.shape(out))
            f = self.faults
            if f != "none" and not np.array_equal(z, start):
                bad = fr.random() < frate * 0.5 or (fdir @ (z - start) / s > 0.3 and frate > 0.1)
                if bad:
                    if f == "mix":
                        f = str(fr.choice(["inf", "nan", "raise"]))
                    if f == "raise":
                        raise ValueError("failing evaluation")
                    val = {"inf": np.inf, "nan": np.nan, "ninf": -np.inf}[f]
                    if np.ndim(out) == 0:
                        return val
                    out = np.array(out, dtype=float)
                    out[fr.integers(len(out))] = val
            return out

        self.crit = crit
        self.options = self._options(max_iter, batch)

    def _bounds(self):
        r, x, n = self.r, self.x, self.n
        if self.bkind == "none":
            return None, None
        w = r.choice([0.0, 0.05, 0.3, 1.0, 5.0], size=(2, n)) * r.uniform(0.5, 1.5, size=(2, n))
        if self.bkind == "tight":
            w = w * 0.02
        w[0] = np.where(w[0] + w[1] < 1e-3, 0.01, w[0])
        lo, up = x - w[0], x + w[1]
        if self.bkind == "wide":
            return x - 100 * np.abs(x) - 100, x + 100 * np.abs(x) + 100
        if self.bkind == "lower":
            return lo, None
        if self.bkind == "upper":
            return None, up
        if self.bkind == "mixed":
            lo = np.where(r.random(n) < 0.5, lo, -np.inf)
            up = np.where(r.random(n) < 0.5, up, np.inf)
        return lo, up

    def _options(self, max_iter, batch):
        r = self.r
        o = {}
        o["stopping_max_iterations"] = int(r.integers(1, 13)) if max_iter is None else max_iter
        o["stopping_max_criterion_evaluations"] = int(r.choice([10, 30, 2000]))
        o["seed"] = int(r.integers(0, 1000))
        o["noisy"] = self.noisy
        o["batch_evaluator"] = serial_batch
        o["batch_size"] = int(r.choice([1, 1, 2, 4, 5])) if batch is None else batch
        if r.random() < 0.5:
            o["sampler"] = str(r.choice(["random_interior", "random_hull", "optimal_hull"]))
        if r.random() < 0.3:
            o["sample_filter"] = str(r.choice(["keep_all", "discard_all", "drop_excess", "clustering"]))
        if self.noisy:
            if r.random() < 0.2:
                o["acceptance_decider"] = "naive_noisy"
            nn = {"rho_noise_n_draws": int(r.choice([3, 8])), "max_n_evals": int(r.choice([2, 5])), "min_n_evals": 1}
            o["noise_adaptation_options"] = nn
            o["acceptance_decider_options"] = {"n_max": int(r.choice([4, 10])), "n_min": int(r.choice([2, 4]))}
        elif o["batch_size"] > 1 and r.random() < 0.6:
            o["acceptance_decider"] = "classic_line_search"
        if r.random() < 0.3:
            ro = {"initial_radius": float(r.choice([0.01, 0.1, 1.0, 3.0]))}
            if r.random() < 0.5:
                ro["max_radius"] = 4.0
                ro["min_radius"] = 0.005
            if r.random() < 0.3:
                ro["max_radius_to_step_ratio"] = float(r.choice([1.0, 2.0, 10.0]))
            o["radius_options"] = ro
        if r.random() < 0.2:
            o["disable_convergence"] = True
        if r.random() < 0.25:
            o["convergence_absolute_criterion_tolerance"] = 0.01
        if r.random() < 0.15:
            o["convergence_absolute_params_tolerance"] = 0.01
        if r.random() < 0.25:
            o["n_evals_at_start"] = int(r.integers(1, 6))
        if r.random() < 0.2 and self.functype == "scalar":
            o["sample_size"] = int(r.choice([self.n + 1, 2 * self.n + 1, (self.n + 1) * (self.n + 2) // 2]))
        if r.random() < 0.25:
            o["cube_subsolver"] = str(r.choice(["bntr", "bntr_fast"]))
            o["sphere_subsolver"] = str(r.choice(["gqtpar", "gqtpar_fast", "fallback_inscribed_cube"]))
        if r.random() < 0.15 and self.functype == "scalar":
            o["model_fitter"] = str(r.choice(["ols", "ridge", "powell", "tranquilo"]))
        if r.random() < 0.2:
            o["stagnation_options"] = {"min_relative_step": float(r.choice([0.05, 0.3])), "max_trials": int(r.choice([1, 2]))}
        return o

    def describe(self):
        o = {k: v for k, v in self.options.items() if k != "batch_evaluator"}
        return (f"case {self.seed}: functype={self.functype} kind={self.kind} x={self.x.tolist()} lower={None if self.lower is None else self.lower.tolist()} "
                f"upper={None if self.upper is None else self.upper.tolist()} faults={self.faults} options={o}")

    def run(self, wrap=None, **extra):
        """run the real optimizer; returns a Run

        wrap: {component name: fn(original, internal arguments, run) -> monitored component}
        """
        from tranquilo import tranquilo as T
        from tranquilo import process_arguments as P
        from pyvc.contract import Discard, Failed

        rec = Recorder(self.crit)
        out = Run(self, rec)
        kw = dict(functype=self.functype, criterion=rec, x=self.x.copy(),
                  lower_bounds=None if self.lower is None else self.lower.copy(),
                  upper_bounds=None if self.upper is None else self.upper.copy(), **self.options)
        kw.update(extra)
        try:
            if wrap:
                args = P.process_arguments(**kw)
                out.args = args
                for name, w in wrap.items():
                    if name not in args:
                        raise Discard()
                    args[name] = w(args[name], args, out)
                out.res = T._internal_tranquilo(**args)
            else:
                out.res = T._tranquilo(**kw)
        except (Failed, Discard):
            raise
        except Exception as e:
            out.error = e
        return out


class Run:
    def __init__(self, case, rec):
        self.case, self.rec, self.res, self.error = case, rec, None, None

    @property
    def calls(self):
        return self.rec.calls


def draw_case(k, **kw):
    return Case(k.int("case", 0, 10**6), **kw)
