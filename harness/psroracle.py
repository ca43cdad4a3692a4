"""An independent solver of the steady stirred reactor.

Away from the fold the residence time is given and the temperature solved for; from
there on the temperature is given and the residence time solved for, which is regular at
the turning point.  Neither uses arc lengths, so this shares nothing with the code but
the reactor equations.
"""
import numpy as np
import cantera as ct


class Reactor:
    def __init__(self, gas):
        self.gas = gas
        self.P = gas.P
        self.Yin = gas.Y.copy()
        self.hin = gas.enthalpy_mass
        self.W = gas.molecular_weights
        self.cp = gas.cp_mass
        self.n = gas.n_species

    def f(self, Y, T, tau):
        g = self.gas
        g.set_unnormalized_mass_fractions(Y)
        g.TP = T, self.P
        r = np.empty(self.n + 1)
        r[:-1] = (Y - self.Yin) - tau * g.net_production_rates * self.W / g.density
        r[-1] = (g.enthalpy_mass - self.hin) / (self.cp * 1000)
        return r

    def newton(self, fun, x, tol=1e-11, maxit=40):
        """scaled Newton with finite differences and damping; None if it fails"""
        for _ in range(maxit):
            r = fun(x)
            nr = np.linalg.norm(r)
            if nr < tol:
                return x
            J = np.empty((x.size, x.size))
            for k in range(x.size):
                h = 1e-7 * max(1e-3, abs(x[k]))
                y = x.copy()
                y[k] += h
                J[:, k] = (fun(y) - r) / h
            try:
                s = np.linalg.solve(J, -r)
            except np.linalg.LinAlgError:
                return None
            lam = min(1.0, 0.2 / max(1e-300, np.max(np.abs(s))))
            ok = False
            for _ in range(12):
                try:
                    if np.linalg.norm(fun(x + lam * s)) < nr * (1 - 1e-3 * lam):
                        ok = True
                        break
                except ct.CanteraError:
                    pass
                lam /= 2
            if not ok:
                return x if nr < 1e-8 else None
            x = x + lam * s
        return None

    def at_tau(self, tau, Y, T):
        def fun(x):
            return self.f(x[:-1], x[-1] * 1000, tau)

        x = self.newton(fun, np.append(Y, T / 1000))
        return None if x is None else (x[:-1], x[-1] * 1000)

    def at_T(self, T, Y, tau):
        def fun(x):
            return self.f(x[:-1], T, np.exp(x[-1]))

        x = self.newton(fun, np.append(Y, np.log(tau)))
        return None if x is None else (x[:-1], float(np.exp(x[-1])))

    def down_to(self, T, st):
        """continue the solution st = (T, Y, tau) to temperature T by adaptive steps"""
        T0, Y, tau = st
        step = T - T0
        prev = None
        for _ in range(4000):
            if abs(T - T0) < 1e-9:
                return T0, Y, tau
            T1 = T0 + (step if abs(step) < abs(T - T0) else T - T0)
            if prev is not None:
                w = (T1 - T0) / (T0 - prev[0])
                gY, gt = Y + w * (Y - prev[1]), np.exp(
                    np.log(tau) + w * (np.log(tau) - np.log(prev[2])))
            else:
                gY, gt = Y, tau
            s = self.at_T(T1, gY, gt)
            if s is None or abs(np.log(s[1] / tau)) > 0.5 or s[0].min() < -1e-6:
                step = (T1 - T0) / 2
                if abs(step) < 1e-4:
                    return None
                continue
            prev = (T0, Y, tau)
            T0, Y, tau = T1, s[0], s[1]
            step *= 1.5
        return None

    def fold(self, st, dT=2.0, floor=None):
        """(tau, T, state) at the first minimum of tau for falling temperature"""
        floor = floor if floor is not None else 250.0
        pts = [st]
        T = st[0]
        while T - dT > floor:
            nx = self.down_to(T - dT, pts[-1])
            if nx is None:
                return None
            pts.append(nx)
            T -= dT
            if len(pts) >= 3 and pts[-1][2] > pts[-2][2]:
                a, b, c = (p[2] for p in pts[-3:])
                d = (a - c) / (2 * (a - 2 * b + c))
                return b - (a - c) ** 2 / (8 * (a - 2 * b + c)), pts[-2][0] - d * dT, pts[-2]
        return None
