"""What the detector models compute (see tools/measurements)."""
import torch as t
import numpy as np
from torch.nn.functional import avg_pool2d, pad


def blur(field, axis_sum):
    """Intensity after a perfect square pixel: the field is interpolated to
    twice the number of points (its Fourier transform padded, each axis by
    its own size), and the intensity multiplied, in Fourier space, by the
    transfer function of the pixel."""
    h, w = field.shape[-2], field.shape[-1]
    small = t.fft.fftshift(t.fft.ifft2(field), dim=(-2, -1))
    big = pad(small, (w // 2, w - w // 2, h // 2, h - h // 2))
    up = t.abs(t.fft.fft2(t.fft.ifftshift(big, dim=(-2, -1)))) ** 2
    if axis_sum:
        up = t.sum(up, dim=-3)
    f = t.fft.fftshift(t.fft.ifft2(up), dim=(-2, -1))
    xs = t.arange(f.shape[-2])
    xs = (xs / t.max(xs)) * 2 - 1
    ys = t.arange(f.shape[-1])
    ys = (ys / t.max(ys)) * 2 - 1
    Xs, Ys = t.meshgrid(xs, ys, indexing='ij')
    transfer = t.special.sinc(Xs) * t.special.sinc(Ys)
    out = t.fft.fft2(t.fft.ifftshift(transfer * f, dim=(-2, -1)))
    return t.abs(out[..., ::2, ::2])


def finish(out, stacked, detector_slice, epsilon, saturation, oversampling):
    if oversampling != 1:
        if stacked:
            out = avg_pool2d(out, oversampling)
        else:
            out = avg_pool2d(out.unsqueeze(0), oversampling)[0]
    if detector_slice is not None:
        if stacked:
            out = out[(np.s_[:],) + detector_slice]
        else:
            out = out[detector_slice]
    out = out + epsilon
    if saturation is not None:
        out = t.clamp(out, 0, saturation)
    return out


def intensity(wavefield, detector_slice=None, epsilon=1e-7, saturation=None,
              oversampling=1, simulate_finite_pixels=False):
    if simulate_finite_pixels:
        out = blur(wavefield, False)
    else:
        out = t.abs(wavefield) ** 2
    return finish(out, wavefield.dim() > 2, detector_slice, epsilon,
                  saturation, oversampling)


def incoherent_sum(wavefields, detector_slice=None, epsilon=1e-7,
                   saturation=None, oversampling=1,
                   simulate_finite_pixels=False):
    if simulate_finite_pixels:
        out = blur(wavefields, True)
    else:
        out = t.sum(t.abs(wavefields) ** 2, dim=-3)
    return finish(out, wavefields.dim() > 3, detector_slice, epsilon,
                  saturation, oversampling)


def quadratic_background(wavefield, background, *args, detector_slice=None,
                         measurement=intensity, epsilon=1e-7, qe_mask=None,
                         saturation=None, oversampling=1,
                         simulate_finite_pixels=False):
    raw = measurement(wavefield, *args, detector_slice=detector_slice,
                      epsilon=epsilon, oversampling=oversampling,
                      simulate_finite_pixels=simulate_finite_pixels)
    if qe_mask is not None:
        raw = qe_mask * raw
    out = raw + background ** 2
    if saturation is not None:
        out = t.clamp(out, 0, saturation)
    return out
