"""What the forward models compute (see models/*).  m is the model."""
import numpy as np
import torch as t
from cdtools import tools

ff = tools.propagators.far_field
iff = tools.propagators.inverse_far_field
nf = tools.propagators.near_field


def forward(m, *args):
    return m.measurement(m.forward_propagator(m.interaction(*args)))


def simple_interaction(m, index, translations):
    pix = tools.interactions.translations_to_pixel(m.probe_basis,
                                                   translations)
    return tools.interactions.ptycho_2D_round(
        m.probe_norm * m.probe, m.obj, pix - m.min_translation)


def positions(m, index, pix):
    pix = pix - m.min_translation
    if m.translation_offsets is not None:
        pix = pix + m.translation_scale * m.translation_offsets[index]
    return pix


def shot_probes(m, index, basis_prs):
    """per-exposure probe modes: an overall weight, or a matrix that mixes
    the basis modes"""
    if m.weights is None:
        try:
            w = t.ones(len(index))
        except TypeError:
            w = t.ones([])
        return w[..., None, None, None] * basis_prs
    w = m.weights[index]
    if len(m.weights.shape) == 1:
        return w[..., None, None, None] * basis_prs
    return t.sum(w[..., None, None] * basis_prs, dim=-3)


def grow(m, prs):
    """to the size of the (oversampled) detector, in Fourier space"""
    dy = m.oversampling * m.background.shape[-2] - prs.shape[-2]
    dx = m.oversampling * m.background.shape[-1] - prs.shape[-1]
    if dy == 0 and dx == 0:
        return prs
    return iff(t.nn.functional.pad(ff(prs), [
        dx // 2, dx - dx // 2, dy // 2, dy - dy // 2]))


def basis_probes(m):
    prs = m.probe * m.probe_support
    if m.fourier_probe:
        prs = iff(prs)
    return prs


def ramp(m, shift):
    return t.exp(1j * (shift[..., 0, None, None] * m.I_phase +
                       shift[..., 1, None, None] * m.J_phase))


def fancy_interaction(m, index, translations):
    pix = positions(m, index, tools.interactions.translations_to_pixel(
        m.obj_basis, translations, surface_normal=m.surface_normal))
    prs = shot_probes(m, index, basis_probes(m))
    shift = None
    if m.probe_fourier_shifts is not None:
        shift = m.probe_fourier_shifts[index]
    if m.simulate_probe_translation:
        s = tools.interactions.translations_to_pixel(
            m.det_basis, translations, surface_normal=m.surface_normal)
        shift = s if shift is None else shift + s
    if shift is not None:
        prs = prs * ramp(m, shift)[..., None, :, :]
    prs = grow(m, prs)
    obj = m.obj
    if m.exponentiate_obj:
        obj = t.exp(1j * m.obj.real) if m.phase_only else t.exp(1j * m.obj)
    return m.probe_norm * tools.interactions.ptycho_2D_sinc(
        prs, obj, pix, shift_probe=True, multiple_modes=True,
        shift_back_ew=m.near_field)


def fancy_forward_propagator(m, w):
    if m.near_field:
        return nf(w, m.angular_spectrum_propagator)
    return ff(w)


def fancy_backward_propagator(m, w):
    if m.near_field:
        return nf(w, m.inv_angular_spectrum_propagator)
    return iff(w)


def fancy_measurement(m, w):
    return tools.measurements.quadratic_background(
        w, m.background, measurement=tools.measurements.incoherent_sum,
        qe_mask=m.qe_mask, saturation=m.saturation,
        oversampling=m.oversampling,
        simulate_finite_pixels=m.simulate_finite_pixels)


def multislice_interaction(m, index, translations, last=True):
    pix = positions(m, index, tools.interactions.translations_to_pixel(
        m.obj_basis, translations, surface_normal=m.surface_normal))
    prs = shot_probes(m, index, basis_probes(m))
    if m.simulate_probe_translation:
        prs = prs * ramp(m, tools.interactions.translations_to_pixel(
            m.det_basis, translations, surface_normal=m.surface_normal)
        )[..., None, :, :]
    w = m.probe_norm * grow(m, prs)
    obj = t.exp(1j * m.obj) if m.exponentiate_obj else m.obj
    n = obj.shape[0]
    for i in range(n):
        w = tools.interactions.ptycho_2D_sinc(
            w, obj[i], pix, shift_probe=True, multiple_modes=True)
        if last or i < n - 1:
            w = nf(w, m.interslice_propagator)
    return w


def multislice_interaction2(m, index, translations):
    return multislice_interaction(m, index, translations, last=False)


def multislice_measurement(m, w):
    return tools.measurements.quadratic_background(
        w, m.background, measurement=tools.measurements.incoherent_sum,
        saturation=m.saturation, oversampling=int(m.oversampling),
        simulate_finite_pixels=m.simulate_finite_pixels)


def bragg_interaction(m, index, translations):
    pix, props = tools.interactions.project_translations_to_sample(
        m.obj_basis, translations)
    pix = positions(m, index, pix)
    z = props - m.median_propagation
    prs = shot_probes(m, index, m.probe * m.probe_support)
    if m.propagate_probe:
        phase = z[..., None, None] * (2 * np.pi / m.wavelength) * \
            m.universal_propagator
        prs = nf(prs, t.exp(1j * phase))
    prs = grow(m, prs)
    return m.probe_norm * tools.interactions.ptycho_2D_sinc(
        prs, m.obj, pix, shift_probe=True, multiple_modes=True)


def bragg_forward_propagator(m, w):
    if m.correct_tilt:
        return tools.propagators.high_NA_far_field(
            w, m.k_map, intensity_map=m.intensity_map)
    return ff(w)


def bragg_backward_propagator(m, w):
    if m.correct_tilt:
        raise NotImplementedError()
    return iff(w)


def bragg_measurement(m, w):
    return tools.measurements.quadratic_background(
        w, m.background, measurement=tools.measurements.incoherent_sum,
        saturation=m.saturation, oversampling=m.oversampling)


def rpi_interaction(m, index, *args):
    prs = t.sum(m.weights[..., None, None] * m.probe, dim=-3)
    obj = m.obj
    if m.exponentiate_obj:
        obj = t.exp(1j * m.obj.real) if m.phase_only else t.exp(1j * m.obj)
    out = t.cat([tools.interactions.RPI_interaction(
        prs[i], m.obj_support * obj) for i in range(m.probe.shape[0])])
    try:
        return out.unsqueeze(0).repeat(1, len(index), 1, 1, 1)
    except TypeError:
        return out


def rpi_loss(m, sim_data, real_data, mask=None):
    return tools.losses.amplitude_mse(real_data, sim_data, mask=mask)


def rpi_regularizer(m, factors):
    first = factors[0] * t.sum(t.abs(m.obj[0]) ** 2)
    if m.obj.shape[0] == 1:
        return first
    return first + factors[1] * t.sum(t.abs(m.obj[1:]) ** 2)


def far(m, w):
    return ff(w)


def inverse_far(m, w):
    return iff(w)


def simple_measurement(m, w):
    return tools.measurements.intensity(w)


def corrected_translations(m, dataset=None):
    if dataset is not None:
        tr = dataset.translations
    else:
        tr = getattr(m, 'original_translations', None)
        if tr is None:
            raise ValueError('no translations')
    if m.translation_offsets is None:
        return tr
    return tr + tools.interactions.pixel_to_translations(
        m.obj_basis, m.translation_offsets * m.translation_scale,
        surface_normal=m.surface_normal)
