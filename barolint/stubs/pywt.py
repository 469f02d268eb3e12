# Interface of PyWavelets: continuous wavelet transforms along one axis are unknown linear operators.
import numpy as np


class ContinuousWavelet:

    def __init__(self, name, dtype=None):
        self.name = name


def _name(w):
    return w.name if isinstance(w, ContinuousWavelet) else w


def cwt(data, scales, wavelet, sampling_period=1., method="conv", axis=-1, **kwargs):
    data = np.asarray(data)
    scales = np.asarray(scales)
    if axis not in (data.ndim - 1, -1):
        raise NotImplementedError
    coef = _linop("cwt", data, (scales.size, *data.shape), "c16", _name(wavelet), scales)
    return coef, scale2frequency(wavelet, scales) / sampling_period


def scale2frequency(wavelet, scale, precision=8):
    return _unknown("frequency of " + _name(wavelet)) / scale
