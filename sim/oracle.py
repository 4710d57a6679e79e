"""Independent dense reference computations, in double precision, from the truth behind the files."""

import numpy as np

from . import data


class Layout(object):
    """Where things are in the solver's vector, from the data structure's documented index lists."""

    def __init__(self, idx, unc):
        self.idx = idx
        self.blocks = {}
        for b, key in enumerate(zip(idx["n_sensor"], idx["n_mu"], idx["n_cov"])):
            self.blocks[tuple(int(k) for k in key)] = (int(idx["idx"][b]), int(idx["N_var"][b]))
        self.sys = {}
        for b, u in enumerate(unc):
            if u["type"] in (2, 4):
                self.sys[(int(idx["n_sensor"][b]), int(idx["n_cov"][b]))] = int(u["uS_i"])
        self.n_sys = len(set(self.sys.values()))
        self.n_var = int(idx["idx"][-1])


def unc_info(unc):
    return [dict(type=int(u.typeID), uS_i=getattr(u, "uS_i", None)) for u in unc]


class Problem(object):
    """The errors-in-variables least-squares problem of a dataset: normalised independent variables z, parameters a.

    minimise |z - z0|^2 + |(k(z, a) - K) / uK|^2, X = W (u z [+ Us s]) or X = u z [+ Us s]."""

    def __init__(self, spec, tr, idx, unc):
        self.spec, self.tr = spec, tr
        self.lay = Layout(idx, unc)
        self.sensors = [str(s) for s in idx["sensors"]]
        self.params = [str(s) for s in idx["parameter_sensor"]]
        self.N = self.lay.n_var
        self.Na = len(self.params)
        self.cN = [int(c) for c in idx["cNm"]]
        # series in the order the system put them in, matched by sensor pair and size
        self.order = self._series_order(idx)
        self.parts = []
        for i, q in enumerate(self.order):
            ser = tr["series"][q]
            uK = np.sqrt(ser["Kr"] ** 2 + ser["Ks"] ** 2)
            sides = []
            for side in (0, 1):
                name = ser["sensors"][side]
                n = self.sensors.index(name)
                k = spec["sensors"].index(name)
                maps = []
                for c in range(ser["X"][side].shape[1]):
                    ib, nb = self.lay.blocks[(n, i + 1, c + 1)]
                    t = ser["type"][side][c]
                    if t in (1, 2):
                        D, u = None, ser["Ur"][side][:, c]
                    else:
                        D, u = data.dense_w(ser["w"][ser["w_use"][side][c] - 1]), ser["u"][ser["u_use"][side][c] - 1]
                    isys = us = None
                    if t in (2, 4):
                        isys = self.N - self.lay.n_sys - 1 + self.lay.sys[(n, c + 1)]
                        us = ser["Us"][side][:, c] if t == 2 else np.full(len(u), ser["Us"][side][0, c])
                    maps.append((ib, nb, D, u, isys, us))
                n1 = str(side + 1)
                ac = (ser["track"].get("across_track_index" + n1), ser["track"].get("along_track_index" + n1), ser["time" + n1])
                ip = [j for j, s in enumerate(self.params) if s == name]
                sides.append((k, maps, ac, ip))
            self.parts.append((ser, uK, sides))

    def _series_order(self, idx):
        return list(range(len(self.tr["series"])))

    def X(self, v, maps, M):
        X = np.zeros((M, len(maps)))
        for c, (ib, nb, D, u, isys, us) in enumerate(maps):
            q = u * v[ib:ib + nb]
            if isys is not None:
                q = q + us * v[isys]
            X[:, c] = D.dot(q) if D is not None else q
        return X

    def B(self, R):
        return self.tr["adj"](R) if self.tr["adj"] else (R, np.ones(len(R)))

    def evaluate(self, v, want_jacobian=True):
        """Model adjustment factors over their uncertainty (k/uK), their Jacobian, and the data K/uK."""
        a = v[self.N:]
        n_mu = self.cN[-1]
        k, K = np.zeros(n_mu), np.zeros(n_mu)
        J = np.zeros((n_mu, self.N + self.Na)) if want_jacobian else None
        for i, (ser, uK, sides) in enumerate(self.parts):
            r = slice(self.cN[i], self.cN[i + 1])
            M = ser["M"]
            K[r] = ser["K"] / uK
            for side, (n, maps, ac, ip) in enumerate(sides):
                s = 1.0 if side else -1.0
                X = self.X(v, maps, M)
                if n == 0:
                    R, JR = X[:, 0], np.ones((M, 1))
                else:
                    R, JR = self.tr["models"][n].value(X, a[ip], self.tr["const"][n], *ac)
                b, db = self.B(R)
                k[r] += s * b / uK
                if not want_jacobian:
                    continue
                rows = np.arange(self.cN[i], self.cN[i + 1])
                for c, (ib, nb, D, u, isys, us) in enumerate(maps):
                    g = s * db * JR[:, c] / uK
                    if D is None:
                        J[rows, ib + np.arange(M)] += g * u
                        if isys is not None:
                            J[rows, isys] += g * us
                    else:
                        J[np.ix_(rows, ib + np.arange(nb))] += g[:, None] * D * u[None, :]
                        if isys is not None:
                            J[rows, isys] += g * D.dot(us)
                if n:
                    m = len(maps)
                    for q, j in enumerate(ip):
                        J[rows, self.N + j] += s * db * JR[:, m + q] / uK
        return k, J, K

    def covariance(self, v):
        """Parameter block of the inverse normal matrix at v = [z, a], and the normal matrix."""
        _, J, _ = self.evaluate(np.asarray(v, dtype=np.float64))
        H = J.T.dot(J)
        H[np.arange(self.N), np.arange(self.N)] += 1.0
        d = np.sqrt(np.diag(H))
        Hi = np.linalg.inv(H / np.outer(d, d)) / np.outer(d, d)
        return Hi[self.N:, self.N:], H

    def preconditioned_condition(self, H, S):
        P = np.eye(len(H))
        P[self.N:, self.N:] = S
        return np.linalg.cond(P.T.dot(H).dot(P))

    def cost(self, v, z0):
        k, _, K = self.evaluate(v, False)
        return float(np.sum((v[:self.N] - z0) ** 2) + np.sum((k - K) ** 2))

    def residuals(self, v, z0):
        k, J, K = self.evaluate(v)
        return np.concatenate([v[:self.N] - z0, k - K]), J

    def solve(self, z0, a0, iterations=60):
        """Gauss-Newton in double precision to the optimum; the variables are eliminated in each step, so that the
        systems solved are of the number of match-ups only. Returns v = [z, a], the cost, and the covariance there."""
        z0 = np.asarray(z0, dtype=np.float64)
        v = np.concatenate([z0, np.asarray(a0, dtype=np.float64)])
        c = self.cost(v, z0)
        for it in range(iterations):
            k, J, K = self.evaluate(v)
            Jz, Ja = J[:, :self.N], J[:, self.N:]
            S = np.eye(len(k)) + Jz.dot(Jz.T)
            y = z0 - v[:self.N]
            r = k - K + Jz.dot(y)
            SiJa, Sir = np.linalg.solve(S, Ja), np.linalg.solve(S, r)
            da = -np.linalg.solve(Ja.T.dot(SiJa), Ja.T.dot(Sir))
            dz = y - Jz.T.dot(Sir + SiJa.dot(da))
            d = np.concatenate([dz, da])
            t = 1.0
            while True:
                cn = self.cost(v + t * d, z0)
                if cn <= c * (1 + 1e-14) or t < 1e-9:
                    break
                t /= 2
            if t < 1e-9:
                break
            v, gain, c = v + t * d, c - cn, cn
            if gain < 1e-13 * (1 + c) and it > 4:
                break
        k, J, K = self.evaluate(v)
        Jz, Ja = J[:, :self.N], J[:, self.N:]
        V = np.linalg.inv(Ja.T.dot(np.linalg.solve(np.eye(len(k)) + Jz.dot(Jz.T), Ja)))
        return v, c, V
