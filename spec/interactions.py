"""What the interaction models compute (see tools/interactions)."""
import torch as t
import numpy as np
from torch.nn.functional import pad
from cdtools.tools import image_processing


def projection(basis, surface_normal):
    """Shift along the beam onto the sample plane, then into pixels."""
    p1 = t.as_tensor(np.array([[1, 0, 0], [0, 1, 0], [0, 0, 0]]))
    p2 = p1.clone()
    p2[2] = t.as_tensor(-surface_normal / surface_normal[2])
    return t.mm(t.pinverse(basis), t.mm(t.linalg.inv(p2), p1))


def each(single, x):
    return x[None, :] if single else x


def translations_to_pixel(basis, translations, surface_normal=None):
    if surface_normal is None:
        surface_normal = t.Tensor([0., 0., 1.])
    single = translations.dim() == 1
    out = t.mm(each(single, translations),
               projection(basis, surface_normal).t())
    return out[0] if single else out


def pixel_to_translations(basis, pixel_translations, surface_normal=None):
    if surface_normal is None:
        surface_normal = t.Tensor([0., 0., 1.])
    single = pixel_translations.dim() == 1
    out = t.mm(each(single, pixel_translations),
               t.pinverse(projection(basis, surface_normal)).t())
    return out[0] if single else out


def project_translations_to_sample(sample_basis, translations):
    normal = t.cross(sample_basis[:, 1], sample_basis[:, 0], dim=-1)
    normal = normal / t.norm(normal)
    z = t.Tensor(np.array([0, 0, 1]))
    m = t.cat((t.eye(3) - t.ger(z, z), normal.unsqueeze(0)))
    projector = t.pinverse(m)[:, :3]
    to_pixel = t.mm(t.pinverse(sample_basis), projector).t()
    along = t.mm(z.unsqueeze(0), projector).t()
    single = translations.dim() == 1
    translations = each(single, translations)
    pix = t.mm(translations, to_pixel)
    prop = t.mm(translations, along) - t.mm(translations, z[:, None])
    if single:
        return pix[0], prop[0]
    return pix, prop


def window(obj, tr, h, w):
    return obj[..., tr[0]:tr[0] + h, tr[1]:tr[1] + w]


def ptycho_2D_round(probe, obj, translations, multiple_modes=False,
                    upsample_obj=False):
    single = translations.dim() == 1
    tr = t.round(each(single, translations)).to(dtype=t.int32)
    h, w = probe.shape[-2], probe.shape[-1]
    if upsample_obj:
        h, w = h // 2, w // 2
    sel = t.stack([obj[x[0]:x[0] + h, x[1]:x[1] + w] for x in tr])
    if upsample_obj:
        sel = image_processing.fourier_upsample(sel, preserve_mean=True)
    if multiple_modes:
        sel = sel[:, None, :, :]
    out = probe * sel
    return out[0] if single else out


def ptycho_2D_linear(probe, obj, translations, shift_probe=True):
    single = translations.dim() == 1
    translations = each(single, translations)
    whole = t.floor(translations)
    part = translations - whole
    whole = whole.to(dtype=t.int32)
    h, w = probe.shape[0], probe.shape[1]
    out = []
    if shift_probe:
        for tr, sp in zip(whole, part):
            right = t.cat((probe[:, -1:], probe[:, :-1]), dim=1)
            down = t.cat((probe[-1:, :], probe[:-1, :]), dim=0)
            both = t.cat((right[-1:, :], right[:-1, :]), dim=0)
            shifted = probe * (1 - sp[0]) * (1 - sp[1]) + \
                down * sp[0] * (1 - sp[1]) + \
                right * (1 - sp[0]) * sp[1] + both * sp[0] * sp[1]
            out.append(shifted * obj[tr[0]:tr[0] + h, tr[1]:tr[1] + w])
    else:
        for tr, sp in zip(whole, part):
            here = obj[tr[0]:tr[0] + h, tr[1]:tr[1] + w]
            right = obj[tr[0]:tr[0] + h, tr[1] + 1:tr[1] + 1 + w]
            down = obj[tr[0] + 1:tr[0] + 1 + h, tr[1]:tr[1] + w]
            both = obj[tr[0] + 1:tr[0] + 1 + h, tr[1] + 1:tr[1] + 1 + w]
            out.append(probe * (
                here * (1 - sp[0]) * (1 - sp[1]) +
                right * (1 - sp[0]) * sp[1] +
                down * sp[0] * (1 - sp[1]) + both * sp[0] * sp[1]))
    return out[0] if single else t.stack(out)


def fourier(x, phase):
    f = t.fft.fftshift(t.fft.fft2(x), dim=(-1, -2)) * phase
    return t.fft.ifft2(t.fft.ifftshift(f, dim=(-1, -2)))


def ptycho_2D_sinc(probe, obj, translations, shift_probe=True, padding=10,
                   multiple_modes=True, probe_support=None,
                   shift_back_ew=False):
    single = translations.dim() == 1
    translations = each(single, translations)
    whole = t.floor(translations)
    part = translations - whole
    whole = whole.to(dtype=t.int32)
    h, w = probe.shape[-2], probe.shape[-1]
    sel = t.stack([obj[..., tr[0]:tr[0] + h, tr[1]:tr[1] + w]
                   for tr in whole])
    I, J = t.meshgrid(t.arange(h, dtype=t.float32) - h // 2,
                      t.arange(w, dtype=t.float32) - w // 2, indexing='ij')
    phase = t.exp(-1j * (part[:, 0, None, None] * (2 * np.pi * I / h) +
                         part[:, 1, None, None] * (2 * np.pi * J / w)))
    if multiple_modes:
        phase = phase[..., None, :, :]
    if multiple_modes and sel.dim() == 3:
        sel = sel[..., None, :, :]
    out = fourier(probe, phase) * sel
    if shift_back_ew:
        out = fourier(out, t.conj(phase))
    return out[0] if single else out


def RPI_interaction(probe, obj):
    """The object is upsampled to the probe's shape in Fourier space; its
    values are kept (fewer points in, more points out)."""
    f = t.fft.fftshift(t.fft.fft2(t.fft.ifftshift(obj, dim=(-1, -2)),
                                  norm='ortho'), dim=(-1, -2))
    h, w = probe.shape[-2], probe.shape[-1]
    oh, ow = obj.shape[-2], obj.shape[-1]
    i, j = h // 2 - oh // 2, w // 2 - ow // 2
    big = pad(f, (j, w - ow - j, i, h - oh - i))
    up = t.fft.fftshift(t.fft.ifft2(t.fft.ifftshift(big, dim=(-1, -2)),
                                    norm='ortho'), dim=(-1, -2))
    up = up * np.sqrt((big.shape[-2] * big.shape[-1]) / (
        f.shape[-2] * f.shape[-1]))
    if obj.dim() >= 3:
        return probe[None, ...] * up
    return probe * up
