"""References for cdtools.tools.initializers, from its documentation."""
import numpy as np
import torch as t
from functools import reduce
from cdtools.tools import image_processing as ip
from cdtools.tools import propagators as pr


def exit_wave_geometry(det_basis, det_shape, wavelength, distance,
                       oversampling=1):
    window = t.as_tensor(det_basis) * t.as_tensor(
        tuple(det_shape), dtype=t.float32)
    return wavelength * distance * t.linalg.pinv(window).transpose(0, 1)


def calc_object_setup(probe_shape, translations, padding=0):
    low = t.min(translations, dim=0)[0]
    high = t.max(translations, dim=0)[0]
    span = t.ceil(high - low).numpy().astype(np.int32)
    return t.Size(np.array(probe_shape) + span + padding * 2), low - padding


def gaussian(shape, sigma, amplitude=1, center=None, curvature=[0, 0]):
    if center is None:
        center = ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
    i, j = np.mgrid[:shape[0], :shape[1]]
    real = -(i - center[0]) ** 2 / (2 * sigma[0] ** 2) \
        - (j - center[1]) ** 2 / (2 * sigma[1] ** 2)
    phase = curvature[0] / 2 * (i - center[0]) ** 2 \
        + curvature[1] / 2 * (j - center[1]) ** 2
    return t.as_tensor(amplitude * np.exp(real + 1j * phase),
                       dtype=t.complex64)


def gaussian_probe(dataset, basis, shape, sigma, propagation_distance=0,
                   polarized=False, left_polarized=True):
    z = 0 if propagation_distance is None else propagation_distance
    sigma = np.array(sigma)
    k = 2 * np.pi / dataset.wavelength
    rayleigh = k * sigma ** 2
    width = sigma * np.sqrt(1 + (z / rayleigh) ** 2)
    curvature = -k * z / (z ** 2 + rayleigh ** 2)
    pixel = np.array([np.linalg.norm(basis[:, 0]),
                      np.linalg.norm(basis[:, 1])])
    probe = gaussian(shape, sigma=width / pixel,
                     curvature=curvature * pixel ** 2)
    mean = t.mean(t.tensor([t.sum(dataset[n][1])
                            for n in range(len(dataset))]))
    return probe * t.sqrt(mean / t.sum(t.abs(probe) ** 2))


def mean_amplitude(dataset):
    total = np.zeros([n for n in dataset.patterns.shape[-2:]])
    for params, im in dataset:
        if dataset.mask is not None:
            total += dataset.mask.cpu().numpy() * im.cpu().numpy()
        else:
            total += im.cpu().numpy()
    mean = total / len(dataset)
    if dataset.background is not None:
        mean = np.clip(mean - dataset.background.cpu().numpy(), a_min=0,
                       a_max=None)
    return t.tensor(np.sqrt(mean)).to(dtype=t.complex64)


def propagated(dataset, probe, small, distance):
    """small: the shape conjugate to the detector"""
    if distance is None:
        return probe
    det = t.as_tensor(dataset.detector_geometry['basis'])
    lengths = t.norm(det, dim=0)
    basis = det / lengths * dataset.wavelength * \
        dataset.detector_geometry['distance'] / (small * lengths)
    spacing = t.norm(basis, dim=0).numpy()
    full = t.as_tensor(tuple(probe.shape)).numpy().astype(np.int32)
    return pr.near_field(probe, pr.generate_angular_spectrum_propagator(
        full, spacing, dataset.wavelength, distance))


def SHARP_style_probe(dataset, propagation_distance=None, oversampling=1):
    small = pr.inverse_far_field(mean_amplitude(dataset))
    n, m = dataset.patterns.shape[-2:]
    out = t.zeros([oversampling * n, oversampling * m], dtype=small.dtype)
    top = (oversampling * n) // 2 - n // 2
    left = (oversampling * m) // 2 - m // 2
    out[top:top + n, left:left + m] = small
    return propagated(dataset, out, t.as_tensor(tuple(small.shape)),
                      propagation_distance)


def SHARP_style_near_field_probe(dataset, backward_propagator,
                                 oversampling=1):
    out = backward_propagator(mean_amplitude(dataset))
    if oversampling != 1:
        out = ip.fourier_upsample(out, upsample_factor=oversampling,
                                  preserve_mean=False)
    return out


def STEM_style_probe(dataset, shape, det_slice, convergence_semiangle,
                     propagation_distance=None, oversampling=1):
    basis = t.as_tensor(dataset.detector_geometry['basis'],
                        dtype=t.float32) / oversampling
    mean = t.mean(dataset.patterns, dim=0)
    center = ip.centroid(mean)
    i, j = t.meshgrid(t.arange(shape[0], dtype=t.float32) - center[0],
                      t.arange(shape[1], dtype=t.float32) - center[1])
    forward = t.Tensor([0, 0, 1])
    position = t.tensordot(basis, t.stack([i, j]), dims=1) + (
        forward * dataset.detector_geometry['distance'])[:, None, None]
    angle = 1000 * t.acos(t.tensordot(
        forward, position / t.linalg.norm(position, dim=(0,)), dims=1))
    aperture = t.zeros(shape, dtype=t.complex64)
    aperture[angle < convergence_semiangle] = 1
    aperture = aperture * t.sqrt(t.mean(mean) / t.mean(
        t.abs(aperture) ** 2))
    small = pr.inverse_far_field(aperture)
    probe = propagated(dataset, small, t.as_tensor(tuple(small.shape)),
                       propagation_distance)
    out = t.zeros(shape, dtype=t.complex64)
    top = shape[0] // 2 - probe.shape[0] // 2
    left = shape[1] // 2 - probe.shape[1] // 2
    out[top:top + probe.shape[0], left:left + probe.shape[1]] = probe
    return out


def generate_subdominant_modes(dominant_mode, n_modes, circular=True):
    """n_modes: concrete"""
    f = pr.far_field(dominant_mode)
    n, m = dominant_mode.shape[-2:]
    i, j = np.mgrid[:n, :m]
    i = t.tensor(i - n // 2).to(dtype=f.dtype)
    j = t.tensor(j - m // 2).to(dtype=f.dtype)
    a, b = (i + 1j * j, i - 1j * j) if circular else (i, j)
    orders = [(0, 1), (1, 0), (0, 2), (1, 1), (2, 0), (0, 3), (1, 2),
              (2, 1), (3, 0), (0, 4)]
    out = []
    for na, nb in orders[:n_modes]:
        mode = pr.inverse_far_field(reduce(t.mul, [a] * na + [b] * nb) * f)
        out.append(mode * t.sqrt(t.sum(t.abs(dominant_mode) ** 2)
                                 / t.sum(t.abs(mode) ** 2)))
    return t.stack(out)
