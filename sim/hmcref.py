"""Reference model of HMC (float64) and the judge of one observed iteration."""
import numpy as np

from .core import Violation
from .sgref import Pool

EPS = float(np.finfo(np.float32).eps)


class DualAveraging(object):
    def __init__(self, step0, delta, gamma, t0, kappa):
        self.mu = float(np.float32(10 * step0))
        self.delta, self.gamma = float(np.float32(delta)), float(np.float32(gamma))
        self.t0, self.kappa = float(t0), float(np.float32(kappa))
        self.step, self.h, self.leb = 0.0, 0.0, float(np.log(step0))

    def tune(self, acc, fresh, on):
        """-> log of the step size left for the next iteration"""
        if not on:
            return self.leb
        f = 1.0 if fresh else 0.0
        self.step = (1 - f) * self.step + 1
        r1 = 1.0 / (self.step + self.t0)
        self.h = (1 - f) * (1 - r1) * self.h + r1 * (self.delta - acc)
        le = self.mu - np.sqrt(self.step) / self.gamma * self.h
        rate = self.step ** -self.kappa
        self.leb = rate * le + (1 - f) * (1 - rate) * self.leb
        return le


class MovingVar(object):
    def __init__(self, m, decay):
        self.m, self.d, self.t = m, float(np.float32(decay)), 0
        self.axes = tuple(range(len(m.chain)))
        self.mean = {n: 0.0 for n in m.names}
        self.var = {n: np.zeros((1,) * len(m.chain) + tuple(m.lat[n]["data"]))
                    for n in m.names}
        self.err = {n: np.zeros_like(self.var[n]) for n in m.names}

    def update(self, q):
        self.t += 1
        w = (1 - self.d) / (1 - self.d ** self.t)
        for n in self.m.names:
            x = q[n]
            inc = w * (x - self.mean[n])
            self.mean[n] = self.mean[n] + inc.mean(self.axes, keepdims=True)
            self.var[n] = (1 - w) * self.var[n] + \
                (inc * (x - self.mean[n])).mean(self.axes, keepdims=True)
            # absolute float32 error of the lib's variance
            wrel = 8 * EPS / (1 - self.d ** self.t) + 8 * EPS
            self.err[n] = (1 - w) * self.err[n] + \
                16 * EPS * (np.abs(inc) * (np.abs(x) + np.abs(self.mean[n]))
                            ).mean(self.axes, keepdims=True) + \
                wrel * (self.var[n] + np.abs(inc * (x - self.mean[n])).mean(
                    self.axes, keepdims=True)) + 64 * (
                        EPS * np.abs(x).max(self.axes, keepdims=True)) ** 2

    def mass(self):
        """-> {name: (mass, relative tolerance)}; identity where the variance
        is still zero."""
        out = {}
        for n in self.m.names:
            v, e = self.var[n], self.err[n]
            with np.errstate(all="ignore"):
                rel = np.where(v > 0, e / np.maximum(v, 1e-300), 0.0)
                out[n] = (np.where(v > 0, 1.0 / np.where(v > 0, v, 1.0), 1.0),
                          rel)
        return out


class HMCRef(object):
    def __init__(self, model, cfg, strict):
        self.m, self.cfg = model, cfg
        self.strict = strict           # kinds of violation this check reports
        self.t = 0
        self.step = float(np.float32(cfg["step"]))
        self.da = DualAveraging(cfg["step"], cfg["target"], cfg["gamma"],
                                cfg["t0"], cfg["kappa"]) \
            if cfg["adapt_step"] != "none" else None
        self.mv = MovingVar(model, cfg["decay"]) \
            if cfg["adapt_mass"] != "none" else None
        self.orient = {"u", "1-u"}
        self.nch = int(np.prod(model.chain)) if model.chain else 1
        self.r = np.random.default_rng(12345)
        self.lost = False

    # ---- float64 dynamics
    def red(self, v, n):
        return v.reshape(self.m.chain + (-1,)).sum(-1)

    def kinetic(self, p, mass):
        with np.errstate(all="ignore"):
            return sum(0.5 * self.red(p[n] ** 2 / mass[n], n)
                       for n in self.m.names)

    def leap(self, q, p, mass, x, step, n, noise=0.0):
        m = self.m
        q, p = dict(q), dict(p)

        def nz(v, a):
            if not noise:
                return v
            return v + noise * EPS * a * self.r.uniform(-1, 1, v.shape)

        def kick(e):
            g = m.grad(q, x)
            ga = m.grad_abs(q, x) if noise else None
            for k in m.names:
                gk = nz(g[k], ga[k]) if noise else g[k]
                p[k] = nz(p[k] + e * gk, np.abs(p[k]) + np.abs(e * gk))
        with np.errstate(all="ignore"):
            kick(step / 2)
            for i in range(1, n + 1):
                for k in m.names:
                    v = step * p[k] / mass[k]
                    q[k] = nz(q[k] + v, np.abs(q[k]) + np.abs(v))
                kick(step if i < n else step / 2)
        return q, p

    def energy(self, q, p, mass, x):
        with np.errstate(all="ignore"):
            lp = self.m.logp(q, x)
            return -lp + self.kinetic(p, mass), lp

    def propose(self, q, p, mass, x, step, n, bad):
        """Reference proposal with error bounds, per chain."""
        with np.errstate(all="ignore"):
            qe, pe = self.leap(q, p, mass, x, step, n)
            H0, lp0 = self.energy(q, p, mass, x)
            H1, lp1 = self.energy(qe, pe, mass, x)
            dev = {k: np.zeros(self.m.shape[k]) for k in self.m.names}
            dH, dl = np.zeros(self.m.chain), np.zeros(self.m.chain)
            worst = H1.copy() if np.ndim(H1) else np.array(H1)
            for _ in range(3):
                qr, pr = self.leap(q, p, mass, x, step, n, noise=2.0)
                Hr, lr = self.energy(qr, pr, mass, x)
                for k in self.m.names:
                    dev[k] = np.maximum(dev[k], np.abs(qr[k] - qe[k]))
                dH = np.maximum(dH, np.abs(Hr - H1))
                dl = np.maximum(dl, np.abs(lr - lp1))
                worst = np.minimum(worst, Hr)
            qtol = {k: 8 * dev[k] + 32 * EPS * (np.abs(q[k]) + np.abs(qe[k]))
                    for k in self.m.names}
            base0 = self.m.logp_abs(q, x) + self.kinetic(p, mass)
            base1 = self.m.logp_abs(qe, x) + self.kinetic(pe, mass)
            h0tol = 24 * EPS * base0
            h1tol = 8 * dH + 24 * EPS * base1
            l1tol = 8 * dl + 24 * EPS * base1
            d = H0 - H1
            dt = h0tol + h1tol
            lo = np.exp(np.minimum(d - dt, 0.0))
            hi = np.exp(np.minimum(d + dt, 0.0))
            # relative error of exp and of the float32 subtraction
            lo, hi = lo * (1 - 1e-5) - 1e-6, np.minimum(hi * (1 + 1e-5) + 1e-6,
                                                        1.0)
            hopeless = (H0 - worst < -130) & np.isfinite(H0)
            ok = np.isfinite(d) & np.isfinite(dt) & (dt < 0.2)
            for k in self.m.names:
                r = (qtol[k] < 1e-2 * (1 + np.abs(qe[k]))) & np.isfinite(qe[k])
                ok &= r.reshape(self.m.chain + (-1,)).all(-1)
            lo = np.where(ok, lo, -1.0)
            hi = np.where(ok, hi, np.where(hopeless, 1e-6, 2.0))
            lo = np.where(bad, 0.0, lo)
            hi = np.where(bad, 0.0, hi)
            blow = ~np.isfinite(H1)
            lo = np.where(blow, 0.0, lo)
            hi = np.where(blow & ~bad, 0.0, hi)
        return {"q": qe, "p": pe, "H0": H0, "H1": H1, "lp0": lp0, "lp1": lp1,
                "qtol": qtol, "h0tol": h0tol, "h1tol": h1tol,
                "l0tol": 24 * EPS * self.m.logp_abs(q, x), "l1tol": l1tol,
                "lo": lo, "hi": hi, "ok": ok | bad, "valid": ok & ~bad}

    # ---- pieces of one iteration
    def expected_mass(self, q, adapt_mass):
        m = self.m
        if self.mv is None:
            return {n: (np.ones((1,) * len(m.chain) + tuple(m.lat[n]["data"])),
                        0.0) for n in m.names}
        if adapt_mass:
            self.mv.update(q)
        if self.t < self.cfg["collect"]:
            return {n: (np.ones_like(self.mv.var[n]), 0.0) for n in m.names}
        return self.mv.mass()

    def momentum(self, p, emass, draws):
        """Checks p = sqrt(mass) * fresh standard normals; returns the mass
        actually used (inferred from p where the draws identify it)."""
        m = self.m
        pool = Pool(draws)
        used_t = set()
        used = pool.fresh()
        mass = {}
        for n in m.names:
            em, rel = emass[n]
            tol = 1e-4 + 8 * np.asarray(rel)
            em_b = np.broadcast_to(em, m.shape[n])
            tol_b = np.broadcast_to(tol, m.shape[n])
            size = int(np.prod(m.shape[n])) if m.shape[n] else 1
            found = None
            for i in pool.tensors(size):
                if i in used_t:
                    continue
                z = pool.t[i].reshape(m.shape[n])
                with np.errstate(all="ignore"):
                    s = (p[n] / z) ** 2
                    good = np.abs(s - em_b) <= tol_b * em_b * 2
                    good |= (np.abs(z) < 1e-6)
                if good.all():
                    found = (i, s)
                    break
            if found is not None:
                used_t.add(found[0])
                used[pool.off[found[0]]:pool.off[found[0] + 1]] = True
            else:
                # element by element (draws may be laid out differently)
                zz = np.abs(p[n] / np.sqrt(em_b)).ravel()
                ap = np.abs(pool.flat)
                for e, tt in zip(zz, tol_b.ravel()):
                    d = np.abs(ap - e)
                    d[used] = np.inf
                    j = int(np.argmin(d)) if len(d) else -1
                    if j < 0 or not d[j] <= tt * (1e-6 + e):
                        return None, n
                    used[j] = True
            mass[n] = em
            if found is not None and np.max(rel) > 1e-6:
                w = np.abs(pool.t[found[0]].reshape(m.shape[n])) + 1e-9
                ax = tuple(range(len(m.chain)))
                mass[n] = np.sum(w * found[1], ax, keepdims=True) / \
                    np.sum(w, ax, keepdims=True)
        return mass, None

    def search(self, q, p, mass, x, bad):
        """Candidate step sizes of the initial factor-1.5 search."""
        t = float(np.float32(self.cfg["target"]))
        out = []
        todo = [(self.step, 0)]
        while todo:
            s, k = todo.pop()
            if k > 400 or len(out) > 12 or not 0 < s < 1e30:
                out.append(None)      # undecided
                continue
            pr = self.propose(q, p, mass, x, s, 1, bad)
            lo = np.mean(np.clip(pr["lo"], 0, 1))
            hi = np.mean(np.clip(pr["hi"], 0, 1))
            if lo - 1e-6 < t:
                out.append(s / 1.5)
            if hi + 1e-6 >= t:
                todo.append((s * 1.5, k + 1))
        return out

    def fail(self, kind, msg, **d):
        if kind in self.strict:
            raise Violation(kind, msg, **d)
        self.lost = True
        self.lost_kind = kind

    # ---- the judge
    def judge(self, q, qn, x, it, draws, w, bad):
        """q, qn: latents before and after; w: watched values of this run
        ({'p': {..}, 'acc': .., 'step': ..}); bad: chains with injected model
        faults.  Returns the accepted proposal record or None."""
        m, cfg = self.m, self.cfg
        self.t += 1
        t = self.t
        emass = self.expected_mass(q, it["adapt_mass"])
        self.emass = emass
        p = w["p"]
        # moving variances that are mostly float32 rounding error determine
        # nothing: such an iteration is only adopted, not judged
        self.weak = any(np.max(e[1]) > 0.02 for e in emass.values())
        mass, who = self.momentum(p, emass, draws)
        if mass is None:
            self.fail("momentum", "iteration %d: the momentum of %r is not "
                      "sqrt(mass) times fresh standard normal draws of this "
                      "iteration with the mass this history defines"
                      % (t, who), iteration=t, latent=who)
            return None
        fresh = self.da is not None and (t == 1 or t == (
            cfg["collect"] if self.mv is not None else 0))
        if fresh:
            steps = self.search(q, p, mass, x, bad)
        else:
            steps = [self.step]
        if self.weak:
            if self.da is not None and w.get("acc") is not None:
                self.tune(w, fresh, it)
            return None
        n = it["n_leap"]
        us = [np.asarray(d.value, np.float64).reshape(m.chain) for d in draws
              if d.type == "RandomUniform" and d.value.size == self.nch]
        if not us and any(d.type == "RandomUniform" for d in draws):
            self.fail("accept", "iteration %d: no uniform draw per chain for "
                      "the accept/reject decision" % t)
            return None
        why = None
        best = None
        undecided = None in steps
        for s in steps:
            if s is None:
                continue
            pr = self.propose(q, p, mass, x, s, n, bad)
            pr["step"] = s
            r, why_s = self.explain(q, qn, pr, us)
            if r is not None and w.get("acc") is not None and \
                    self.acc_matches(w["acc"], pr) is not None and \
                    len(steps) > 1:
                why_s = why_s or self.acc_matches(w["acc"], pr)
                r = None
            if r is not None:
                best = pr
                self.orient = r
                break
            why = why or why_s
        if best is None:
            if undecided:
                self.lost = True
                self.lost_kind = "undecided"
                return None
            kind = "transition" if not fresh else "transition-init"
            if why is not None and why[0] == "invalid":
                kind = "invalid-chain"
            self.fail(kind, "iteration %d (step %s, %d leapfrogs): %s"
                      % (t, ["%.4g" % s for s in steps if s is not None], n,
                         why[1]), iteration=t)
            return None
        best["mass"] = mass
        # acceptance rates and adaptation
        if w.get("acc") is not None:
            bad_acc = self.acc_matches(w["acc"], best)
            if bad_acc is not None:
                self.fail("info-acceptance" if bad_acc[0] != "invalid" else
                          "invalid-chain", "iteration %d: %s"
                          % (t, bad_acc[1]), iteration=t)
                if self.lost:
                    return None
        if self.da is not None and w.get("acc") is not None:
            self.tune(w, fresh, it)
            if self.lost:
                return None
        return best

    def tune(self, w, fresh, it):
        t = self.t
        le = self.da.tune(float(np.mean(w["acc"])), fresh, it["adapt_step"])
        got = float(w["step"])
        with np.errstate(all="ignore"):
            want = float(np.exp(le))
            tol = 3e-4 + 1e-5 * (np.sqrt(self.da.step) + 1) + 4e-7 * abs(le)
            if want < 1e-37 or want > 1e38:
                good = got < 2e-37 or not np.isfinite(got) or got > 1e37
            else:
                good = got > 0 and np.isfinite(got) and \
                    abs(np.log(got) - le) <= tol
        self.step = got
        if not good:
            self.fail("step-size", "iteration %d (adaptation %s%s): step "
                      "size left is %.6g, the recurrence gives %.6g"
                      % (t, "on" if it["adapt_step"] else "off",
                         ", restart" if fresh else "", got, want),
                      iteration=t)

    def acc_matches(self, acc, pr):
        acc = np.asarray(acc, np.float64)
        if acc.shape != self.m.chain:
            return ("acc", "acceptance_rate has shape %s, chains are %s"
                    % (acc.shape, self.m.chain))
        if not np.all(np.isfinite(acc)) or np.any(acc < 0) or \
                np.any(acc > 1 + 1e-6):
            return ("acc", "acceptance_rate %s is not a probability" % acc)
        oob = (acc < pr["lo"]) | (acc > pr["hi"])
        if oob.any():
            i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(oob)))
            a = np.atleast_1d(acc)[i]
            h = np.atleast_1d(pr["hi"])[i]
            return ("invalid" if h == 0 else "acc",
                    "acceptance rate of chain %s is %.6g, should be in "
                    "[%.6g, %.6g]" % (i, a, np.atleast_1d(pr["lo"])[i], h))
        return None

    def explain(self, q, qn, pr, us):
        """Do the chains move/stay as the decision demands?"""
        m = self.m
        ch = m.chain
        same = np.ones(ch, bool)
        moved = np.ones(ch, bool)
        for k in m.names:
            same &= (qn[k] == q[k]).reshape(ch + (-1,)).all(-1)
            with np.errstate(all="ignore"):
                moved &= (np.abs(qn[k] - pr["q"][k]) <= pr["qtol"][k]).reshape(
                    ch + (-1,)).all(-1)
        sure_reject = pr["hi"] <= 1e-6
        wrong = sure_reject & ~same & ~(pr["hi"] > 0)
        if wrong.any():
            return None, ("invalid", "a chain whose proposal is invalid did "
                          "not keep its stored value")
        neither = pr["ok"] & ~sure_reject & ~same & ~moved
        if neither.any():
            return None, ("move", "a chain is neither at its stored value nor "
                          "at the end of its leapfrog trajectory")
        acc = moved & ~same & ~sure_reject
        rej = same & ~moved
        o = set()
        for u in us:
            for name, v in (("u", u), ("1-u", 1 - u)):
                if name not in self.orient:
                    continue
                if (acc & (v > pr["hi"])).any():
                    continue
                if (rej & (v < pr["lo"])).any():
                    continue
                o.add(name)
        if us and not o:
            return None, ("accept", "the accept/reject decision is not "
                          "'uniform draw < acceptance rate'")
        return (o or set(self.orient)), None
