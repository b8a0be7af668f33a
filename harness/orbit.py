"""Independent orbital mechanics used as oracle (vectors, no code of AMAT)."""
import numpy as np


def state_vectors(r, theta, phi, v, psi, gamma, omega=0.0):
    """position and velocity in axes fixed at the given longitude origin; omega adds the frame's rotation"""
    er = np.array([np.cos(phi) * np.cos(theta), np.cos(phi) * np.sin(theta), np.sin(phi)])
    ee = np.array([-np.sin(theta), np.cos(theta), 0.0])
    en = np.cross(er, ee)
    R = r * er
    V = v * (np.sin(gamma) * er + np.cos(gamma) * (np.cos(psi) * ee + np.sin(psi) * en))
    V = V + np.cross(np.array([0.0, 0.0, omega]), R)
    return R, V


def elements(R, V, mu):
    """energy, specific angular momentum vector, a, e, ra, rp"""
    r, v = np.linalg.norm(R), np.linalg.norm(V)
    E = 0.5 * v * v - mu / r
    h = np.cross(R, V)
    ev = np.cross(V, h) / mu - R / r
    e = np.linalg.norm(ev)
    a = -mu / (2 * E)
    return dict(E=E, h=h, a=a, e=e, evec=ev, ra=a * (1 + e), rp=a * (1 - e))
