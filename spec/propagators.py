"""What the propagators compute (see tools/propagators)."""
import torch as t
import numpy as np
from torch.nn.functional import grid_sample


def far_field(wavefront):
    """Unitary, zero frequency at n // 2, on the last two axes"""
    return t.fft.fftshift(t.fft.fft2(t.fft.ifftshift(
        wavefront, dim=(-2, -1)), norm='ortho'), dim=(-2, -1))


def inverse_far_field(wavefront):
    return t.fft.fftshift(t.fft.ifft2(t.fft.ifftshift(
        wavefront, dim=(-2, -1)), norm='ortho'), dim=(-2, -1))


def near_field(wavefront, propagator):
    return t.fft.ifft2(propagator * t.fft.fft2(wavefront))


def inverse_near_field(wavefront, propagator):
    return t.fft.ifft2(t.conj(propagator) * t.fft.fft2(wavefront))


def high_NA_k_intensity_map(sample_basis, det_basis, det_shape, distance,
                            wavelength, lens):
    """sample_basis, det_basis: numpy; where each detector pixel samples the
    low-NA pattern, in [-1, 1] and (column, row) order, and the solid angle
    it covers"""
    i = np.arange(det_shape[0])
    j = np.arange(det_shape[1])
    I, J = np.meshgrid(i - np.mean(i), j - np.mean(j), indexing='ij')
    out = np.cross(det_basis[:, 0], det_basis[:, 1])
    out = -(out * (distance / np.linalg.norm(out)))
    in_plane = np.tensordot(det_basis, np.stack([I, J]), axes=1)
    if not lens:
        R = in_plane + out[:, None, None]
    else:
        R = in_plane + (out / np.linalg.norm(out))[:, None, None] * np.sqrt(
            np.sum(out ** 2) - np.sum(in_plane ** 2, axis=0))[None, :, :]
    k0 = 2 * np.pi / wavelength
    r = np.linalg.norm(R, axis=0)
    K = k0 * R / r
    if lens:
        intensity = np.ones_like(np.min(r) ** 2 * np.tensordot(
            out / (k0 * distance), K, axes=1) / r ** 2)
    else:
        intensity = np.min(r) ** 2 * np.tensordot(
            out / (k0 * distance), K, axes=1) / r ** 2
    K = K - k0 * out[:, None, None] / distance
    kmap = np.tensordot(2 * sample_basis.transpose()[::-1, :] / (2 * np.pi),
                        K, axes=1)
    return t.Tensor(np.moveaxis(kmap, 0, 2)), t.Tensor(intensity)


def resample(stack, k_map, intensity_map):
    """a stack of low-NA patterns (n x N x M)"""
    m = k_map[None, :, :, :]
    re = grid_sample(stack[None, :, :, :].real, m, mode='bilinear',
                     padding_mode='zeros', align_corners=False)
    im = grid_sample(stack[None, :, :, :].imag, m, mode='bilinear',
                     padding_mode='zeros', align_corners=False)
    out = re[0, :, :, :] + 1j * im[0, :, :, :]
    if intensity_map is not None:
        out = out * intensity_map[None, :, :]
    return out


def high_NA_far_field(wavefront, k_map, intensity_map=None):
    low = far_field(wavefront)
    if wavefront.dim() == 2:
        return resample(low[None, :, :], k_map, intensity_map)[0, :, :]
    if wavefront.dim() == 3:
        return resample(low, k_map, intensity_map)
    return t.stack([resample(low[i, :, :, :], k_map, intensity_map)
                    for i in range(low.shape[0])])


def generate_generalized_angular_spectrum_propagator(
        shape, basis, wavelength, offset, propagation_vector=None,
        propagate_along_offset=False):
    if propagate_along_offset:
        propagation_vector = offset
    dual = t.linalg.pinv(basis).transpose(0, 1)
    freqs = t.stack(t.meshgrid(2 * np.pi * t.fft.fftfreq(shape[0]),
                               2 * np.pi * t.fft.fftfreq(shape[1]),
                               indexing='ij'))
    k = t.tensordot(dual, freqs, dims=1)
    k0 = 2 * np.pi / wavelength
    n = t.cross(basis[:, 0] / t.linalg.norm(basis[:, 0]),
                basis[:, 1] / t.linalg.norm(basis[:, 1]), dim=-1)
    n = n / t.linalg.norm(n)
    if propagation_vector is None:
        n = n * t.sign(t.dot(n, offset))
        ramp = t.zeros_like(offset)
    else:
        n = n * t.sign(t.dot(n, propagation_vector))
        ramp = k0 * (propagation_vector / t.linalg.norm(propagation_vector)
                     - n)
        k = k + (ramp - t.dot(n, ramp) * n)[:, None, None]
    k2 = t.linalg.norm(k, dim=0) ** 2
    # relative to a plane wave along n; evanescent waves decay
    inside = k0 ** 2 - k2
    kn = -k2 / (t.sqrt(t.complex(inside, t.zeros_like(inside))) + k0)
    K = k + n[:, None, None] * kn
    phase = t.tensordot(t.complex(offset, t.zeros_like(offset)),
                        K - ramp[:, None, None], dims=1)
    if propagation_vector is not None and t.sign(t.dot(
            propagation_vector, t.complex(
                offset, t.zeros_like(offset)).real)) == -1:
        phase = t.conj(phase)
    return t.exp(1j * phase)


def generate_angular_spectrum_propagator(shape, spacing, wavelength, z,
                                         bandlimit=None):
    basis = t.zeros([3, 2])
    basis[1, 0] = -spacing[0]
    basis[0, 1] = -spacing[1]
    offset = t.zeros(3)
    offset[2] = z
    out = generate_generalized_angular_spectrum_propagator(
        shape, basis, wavelength, offset)
    if z < 0:
        out = t.conj(out)
    if bandlimit is not None:
        ki = 2 * np.pi * t.fft.fftfreq(shape[0], spacing[0])
        kj = 2 * np.pi * t.fft.fftfreq(shape[1], spacing[1])
        Ki, Kj = t.meshgrid(ki, kj, indexing='ij')
        r = t.sqrt((Ki / t.max(ki)) ** 2 + (Kj / t.max(kj)) ** 2)
        out = out * (r < bandlimit)
    return out
