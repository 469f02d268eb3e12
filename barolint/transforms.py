"""Meaning of transforms and filters along an axis in the models.

All of them are linear in the transformed array: a weight for each pair of an output index
and an element of the array.
"""

import numpy as np


class EvalError(Exception):
    pass


def spectrum(n):
    h = np.zeros(n)
    h[0] = 1
    h[1:(n + 1) // 2] = 2
    if n % 2 == 0 and n > 0:
        h[n // 2] = 1
    return np.fft.ifft(h)


def dft(n, v, o, sign):
    return np.exp(sign * 2j * np.pi * np.mod(v * o, n) / n)


def irfft(n, v, o):
    """Weights for the complex conjugate symmetric transform of output length n: real part of the sum."""
    w = np.where((v == 0) | (2 * v == n), 1.0, np.where(2 * v < n, 2.0, 0.0))
    return w * np.exp(2j * np.pi * np.mod(v * o, n) / n) / n


def extended(p, n, mode):
    """Elements that indices outside of the array refer to, and where there is one."""
    inside = (p >= 0) & (p < n)
    if mode in ("wrap", "grid-wrap"):
        return np.mod(p, n), np.ones(np.shape(p), bool)
    if mode in ("reflect", "symm", "grid-mirror"):
        q = np.mod(p, 2 * n)
        return np.where(q < n, q, 2 * n - 1 - q), np.ones(np.shape(p), bool)
    if mode == "nearest":
        return np.clip(p, 0, n - 1), np.ones(np.shape(p), bool)
    if mode == "mirror" and n > 1:
        q = np.mod(p, 2 * n - 2)
        return np.where(q < n, q, 2 * n - 2 - q), np.ones(np.shape(p), bool)
    if mode in ("constant", "fill", "grid-constant"):
        return p, inside
    raise EvalError(mode)


def convolution(w, n, shift, mode):
    """Matrix of a convolution along one axis: (output, element); and the weight that falls outside."""
    L = len(w)
    o = np.arange(n)
    p = o[:, None] - np.arange(L)[None, :] + shift
    j, ok = extended(p, n, mode)
    K = np.zeros((n, n), np.result_type(w.dtype, float))
    rows = np.broadcast_to(o[:, None], p.shape)
    ww = np.broadcast_to(w[None, :], p.shape)
    np.add.at(K, (rows[ok], j[ok]), ww[ok])
    out = np.where(ok, 0, ww).sum(axis=1)
    return K, out


def interpolation(x, q, left, right):
    """Weights (of an element) for piecewise linear interpolation in increasing coordinates: function of the element."""
    n = len(x)
    k = np.clip(np.searchsorted(x, q, side="right") - 1, 0, max(n - 2, 0))
    if n == 1:
        return lambda v: np.ones(np.broadcast_shapes(v.shape, q.shape))
    t = np.clip((q - x[k]) / (x[k + 1] - x[k]), 0.0, 1.0)
    return lambda v: np.where(v == k, 1 - t, 0.0) + np.where(v == k + 1, t, 0.0)
