"""References for cdtools.tools.image_processing, from its documentation."""
import numpy as np
import torch as t
from cdtools.tools import propagators


def hann_window(im):
    i, j = np.mgrid[:im.shape[0], :im.shape[1]]
    return im * np.sin(np.pi * i / (im.shape[0] - 1))**2 \
        * np.sin(np.pi * j / (im.shape[1] - 1))**2


def centroid(im, dims=2):
    last = tuple(range(-dims, 0))
    total = t.sum(im, dim=last)
    grids = t.meshgrid(*[t.arange(im.shape[d], device=im.device).to(t.float32)
                         for d in last], indexing='ij')
    return t.stack([t.sum(g * im, dim=last) / total for g in grids], dim=-1)


def centroid_sq(im, dims=2, comp=False):
    return centroid(t.abs(im)**2 if comp else im**2, dims)


def sinc_subpixel_shift(im, shift):
    """multiply with exp(-2 pi i (k . shift)) in Fourier space"""
    n, m = im.shape[0], im.shape[1]
    ki = (t.arange(n) - n // 2).to(t.float32) / n
    kj = (t.arange(m) - m // 2).to(t.float32) / m
    ki, kj = t.meshgrid(ki, kj, indexing='ij')
    ki = ki.to(dtype=im.dtype, device=im.device)
    kj = kj.to(dtype=im.dtype, device=im.device)
    f = t.fft.fftshift(t.fft.fft2(im), dim=(-2, -1))
    f = f * t.exp(-2j * np.pi * (shift[0] * ki + shift[1] * kj))
    return t.fft.ifft2(t.fft.ifftshift(f, dim=(-2, -1)))


def correlation(im1, im2):
    c = t.fft.fft2(im1) * t.conj(t.fft.fft2(im2))
    return t.fft.ifft2(c / t.abs(c))


def wrapped(k, shape):
    """the position of element k, as an offset in [-n/2, n/2)"""
    p = t.as_tensor([k // shape[1], k % shape[1]])
    h = t.div(shape, 2, rounding_mode='floor')
    return (p + h) % shape - h


def find_pixel_shift(im1, im2):
    c = t.abs(correlation(im1, im2))
    return wrapped(t.argmax(c), t.as_tensor(c.shape))


def find_subpixel_shift(im1, im2, search_around=(0, 0), resolution=10):
    """Fourier upsampling of the 30 x 30 window of the correlation around
    search_around"""
    w = 15
    c = correlation(im1, im2)
    around = t.as_tensor(search_around)
    c = t.roll(c, (w - around[0], w - around[1]), dims=(-2, -1))
    f = t.fft.fftshift(t.fft.fft2(c[..., :2 * w, :2 * w]), dim=(-2, -1))
    u = t.zeros((f.shape[0] * resolution, f.shape[1] * resolution),
                dtype=c.dtype, device=c.device)
    u[..., :2 * w, :2 * w] = f
    u = t.roll(u, (-w, -w), dims=(0, 1))
    u = t.abs(t.fft.ifft2(u))**2
    u = t.roll(u, (-w * resolution, -w * resolution), dims=(0, 1))
    s = wrapped(t.argmax(u), t.as_tensor(u.shape))
    return around + s / resolution


def find_shift(im1, im2, resolution=10):
    return find_subpixel_shift(im1, im2, find_pixel_shift(im1, im2),
                               resolution)


def convolve_1d(image, kernel, dim=0, fftshift_kernel=True):
    if fftshift_kernel:
        kernel = t.fft.ifftshift(kernel, dim=(-1,))
    x = t.transpose(image, dim, -1)
    x = t.fft.ifft(t.fft.fft(x) * t.fft.fft(kernel))
    return t.transpose(x, dim, -1)


def fourier_upsample(ims, upsample_factor=2, preserve_mean=False):
    n, m = ims.shape[-2], ims.shape[-1]
    out = t.zeros(ims.shape[:-2] + (upsample_factor * n, upsample_factor * m),
                  dtype=ims.dtype, device=ims.device)
    a = upsample_factor * n // 2 - n // 2
    b = upsample_factor * m // 2 - m // 2
    f = propagators.far_field(ims)
    out[..., a:a + n, b:b + m] = upsample_factor * f if preserve_mean else f
    return propagators.inverse_far_field(out)


def center(image, image_dims=2, use_power=True, iterations=4):
    shape = image.shape
    x = t.clone(image).reshape([-1] + list(shape[-2:]))
    for n in range(iterations):
        a = t.abs(x)
        c = centroid(t.sum(a**2 if use_power else a, dim=0))
        for k in range(x.shape[0]):
            x[k] = sinc_subpixel_shift(
                x[k], (shape[-2] / 2 - c[0], shape[-1] / 2 - c[1]))
    return x.reshape(shape)
