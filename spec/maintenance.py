"""Simulated datasets and the upkeep of the probes of a model (m)."""
import numpy as np
import torch as t
from cdtools import tools
from cdtools.tools import analysis, image_processing
from cdtools.datasets import Ptycho2DDataset

ff = tools.propagators.far_field
iff = tools.propagators.inverse_far_field


def orientation(m):
    """the rows are the x, y and z axis of the sample: orthonormal, z is the
    surface normal and x is perpendicular to the vertical"""
    z = m.surface_normal
    x = np.cross(np.array([0., 1., 0.]), z)
    x = x / np.linalg.norm(x)
    y = np.cross(z, x)
    y = y / np.linalg.norm(y)
    return np.array([x, y, z])


def patterns(m, indices, translations):
    return m.forward(indices, translations)


def chunked(m, indices, translations, calculation_width):
    """all exposures, in order, in pieces"""
    return t.cat([
        m.forward(indices[i:i + calculation_width],
                  translations[i:i + calculation_width])
        for i in range(0, len(indices), calculation_width)], dim=0)


def whole(m, indices, translations):
    n = len(indices)
    return t.cat([m.forward(indices[i:i + n], translations[i:i + n])
                  for i in range(0, n, n)], dim=0)


def center_probes(m, iterations=4):
    """the real space probes are centered"""
    if m.fourier_probe:
        return ff(image_processing.center(iff(m.probe),
                                          iterations=iterations))
    return image_processing.center(m.probe, iterations=iterations)


def tidy_stable(m):
    return analysis.orthogonalize_probes(m.probe)


def tidy_weighted(m):
    """an eigenbasis of the light summed over all exposures, normalized to
    the mean exposure, then an eigenbasis for each exposure"""
    n = m.weights.shape[0]
    probe, weights = analysis.orthogonalize_probes(
        m.probe, weight_matrix=t.cat(t.unbind(m.weights, dim=0), dim=0),
        return_reexpressed_weights=True)
    probe = probe / np.sqrt(n)
    weights = weights * np.sqrt(n)
    weights = t.stack(t.split(weights, m.weights.shape[1]), dim=0)
    s = t.linalg.norm(probe, dim=(-2, -1))
    u, d, vh = t.linalg.svd(weights * s, full_matrices=False)
    return probe, d[:, :, None] * (vh / s)


def get_probe_intensities(m):
    """intensity of each exposure relative to that of the basis modes"""
    if m.weights.ndim == 1:
        return m.weights.detach().cpu().numpy()**2
    probe = m.probe.detach().cpu().numpy()
    n = probe.shape[0]
    probe_matrix = np.zeros([n] * 2, dtype=np.complex64)
    for i in range(probe_matrix.shape[0]):
        for j in range(probe_matrix.shape[0]):
            probe_matrix[i, j] = np.sum(probe[i] * probe[j].conj())
    w = m.weights.detach().cpu().numpy()
    rho = np.sum(np.tensordot(w, probe_matrix, axes=1)[..., None]
                 * w.conj().transpose((0, 2, 1))[..., None, :, :], axis=-2)
    return np.real(np.trace(rho, axis1=-2, axis2=-1)
                   / np.trace(probe_matrix, axis1=-2, axis2=-1))


def get_rhos(m):
    """the density matrix of each exposure"""
    if m.weights.dim() >= 2:
        w = m.weights.detach().cpu().numpy()
        return np.matmul(np.swapaxes(w, 1, 2), w.conj())
    return np.array([np.eye(m.probe.shape[0])] * m.weights.shape[0],
                    dtype=np.complex64)


def uniform_init(m, shape, n):
    return t.ones([n, shape[0], shape[1]], dtype=m.probe.dtype,
                  device=m.probe.device)


def random_init(m, shape, n):
    return t.exp(2j * np.pi * t.rand([n, shape[0], shape[1]]))


def spectral_init(m, pattern, shape, n):
    return tools.initializers.RPI_spectral_init(
        pattern, m.probe, shape, mask=m.mask, background=m.background**2,
        n_modes=n)
