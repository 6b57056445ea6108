"""A smooth many-atom test potential with exact forces and strain derivative.

Loaded by the code under test through <pes> custom </pes>, and used directly by the
oracles.  U(q,h) = sum 0.5 k_ia x^2 + 0.25 c x^4 + g xyz + pair gaussians + cell term."""
import json
import numpy as np
from ipi.pes.dummy import Dummy_driver

__DRIVER_NAME__ = "vpes"
__DRIVER_CLASS__ = "VPES"


def evaluate(par, cell, pos):
    """-> U, forces (n,3), virial (3,3) = -dU/d(strain), for positions strained along with the cell."""
    k, c, g = par.get("k", 0.0), par.get("c", 0.0), par.get("g", 0.0)
    A, s = par.get("A", 0.0), par.get("s", 1.0)
    bc, v0, gc = par.get("bc", 0.0), par.get("v0", 1.0), par.get("gc", 0.0)
    pos = np.asarray(pos, float).reshape(-1, 3)
    n = len(pos)
    kk = k * (1.0 + 0.3 * np.arange(n)[:, None] * par.get("var", 1.0) + 0.2 * np.arange(3)[None, :] * par.get("var", 1.0))
    u = 0.5 * (kk * pos**2).sum() + 0.25 * c * (pos**4).sum() + g * pos.prod(axis=1).sum()
    f = -kk * pos - c * pos**3
    f[:, 0] -= g * pos[:, 1] * pos[:, 2]
    f[:, 1] -= g * pos[:, 0] * pos[:, 2]
    f[:, 2] -= g * pos[:, 0] * pos[:, 1]
    if A != 0.0 and n > 1:
        d = pos[:, None, :] - pos[None, :, :]
        e = A * np.exp(-(d**2).sum(-1) / (2 * s * s))
        np.fill_diagonal(e, 0.0)
        u += 0.5 * e.sum()
        f += (e[:, :, None] * d).sum(1) / (s * s)
    vir = np.einsum("ia,ib->ab", f, pos)
    if bc != 0.0 or gc != 0.0:
        h = np.asarray(cell, float).reshape(3, 3)
        lv = np.log(np.abs(np.linalg.det(h)) / v0)
        off = np.triu(h, 1)
        u += 0.5 * bc * lv**2 + 0.5 * gc * (off**2).sum()
        vir = vir - bc * lv * np.eye(3) - gc * off @ h.T
    u += par.get("e0", 0.0)
    return float(u), f, vir


def extras(par, cell, pos):
    pos = np.asarray(pos).reshape(-1, 3)
    return {"dipole": [float(x) for x in pos.sum(0) * 0.7], "scalar": float((pos**2).sum()), "polar": [[float(x) for x in r] for r in np.outer(pos[0], pos[-1])]}


def born(par, pos):
    """charges that depend on the positions and add up to zero, (3n,3)"""
    pos = np.asarray(pos, float).reshape(-1, 3)
    w = np.array([np.cos(0.5 * x.sum()) * np.eye(3) + 0.3 * np.outer(np.sin(x), [0.2, -0.5, 1.0]) for x in pos])
    return (par["bec"] * (w - w.mean(0))).reshape(-1, 3)


def member(par, i):
    """parameters of the i-th member of a model with com > 0"""
    return dict(par, k=par.get("k", 0.0) * (1.0 + 0.2 * i), g=par.get("g", 0.0) - 0.003 * i, e0=par.get("e0", 0.0) + 0.01 * i)


class VPES(Dummy_driver):
    def __init__(self, *args, **kwargs):
        self.par = {a: b for a, b in kwargs.items() if a != "verbosity"}
        self.calls = 0
        super().__init__(*args, **kwargs)

    def compute_structure(self, cell, pos):
        self.calls += 1
        u, f, v = evaluate(self.par, cell, pos)
        x = extras(self.par, cell, pos) if self.par.get("ext", 0) else {}
        if self.par.get("bec", 0):
            x["BEC"] = born(self.par, pos).tolist()
        if self.par.get("rawdip", 0):
            d = extras(self.par, cell, pos)["dipole"]
            return u, f, v, "Total dipole moment [eAng]: %.10f %.10e %.10f" % tuple(y / 1.8897261 for y in d)
        n = int(self.par.get("com", 0))
        if n:  # a model that is itself a committee
            r = [evaluate(member(self.par, i), cell, pos) for i in range(n)]
            u, f, v = [np.mean([y[j] for y in r], axis=0) for j in range(3)]
            x["committee_pot"] = [y[0] for y in r]
            x["committee_force"] = [y[1].flatten().tolist() for y in r]
            x["committee_virial"] = [y[2].flatten().tolist() for y in r]
            for k in ("committee_force", "committee_virial")[:2 - int(self.par.get("comfv", 2))]:
                x.pop(k)
        return u, f, v, json.dumps(x) if x else ""
