"""References for cdtools.tools.analysis, from its documentation."""
import numpy as np
import torch as t
from scipy import special
from scipy import spatial
from scipy import optimize as opt
from cdtools.tools import image_processing as ip
from cdtools.tools import interactions
from cdtools.tools import initializers
from cdtools.tools.analysis import analysis as an


def isnp(x):
    return isinstance(x, np.ndarray)


def product_svd(A, B):
    qa, ra = t.linalg.qr(t.as_tensor(A))
    qb, rb = t.linalg.qr(t.as_tensor(B).conj().transpose(0, 1))
    u, s, v = t.linalg.svd(t.matmul(ra, rb.conj().transpose(0, 1)),
                           full_matrices=False)
    u = t.matmul(qa, u)
    v = t.matmul(v, qb.conj().transpose(0, 1))
    if isnp(A) or isnp(B):
        return u.numpy(), s.numpy(), v.numpy()
    return u, s, v


def orthogonalize_probes(probes, weight_matrix=None, n_probe_dims=2,
                         return_reexpressed_weights=False):
    p = t.as_tensor(probes)
    n = np.prod(np.array(p.shape[-n_probe_dims:]))
    mat = p.reshape(p.shape[:-n_probe_dims] + (n,))
    if weight_matrix is None:
        u, s, v = t.linalg.svd(mat, full_matrices=False)
    else:
        u, s, v = product_svd(t.as_tensor(weight_matrix), mat)
    out = (s[:, None] * v).reshape((-1,) + tuple(p.shape[1:]))
    if isnp(probes) or isnp(weight_matrix):
        out = out.numpy()
        u = u.numpy()
    if return_reexpressed_weights:
        return out, u
    return out


def middle(im):
    n, m = im.shape[0] // 8, im.shape[1] // 8
    return np.s_[3 * n:5 * n, 3 * m:5 * m]


def standardize(probe, obj, obj_slice=None, correct_ramp=False):
    p = t.as_tensor(probe)
    o = t.as_tensor(obj)
    if obj_slice is None:
        obj_slice = middle(o)
    single = len(p.shape) == 2
    if single:
        p = p[None]
    first = p[0]
    norm = t.sqrt(t.mean(t.abs(first)**2))
    p = p / norm
    o = o * norm
    if correct_ramp:
        n, m = p[0].shape
        c = ip.centroid(t.abs(t.fft.fftshift(t.fft.fft2(p[0]),
                                             dim=(-1, -2)))**2)
        shape = t.tensor((n, m), dtype=t.float32)
        f = (c - t.div(shape, 2, rounding_mode='floor')) / shape
        p = p * t.exp(-2j * np.pi * ramp(f, n, m))
        o = o * t.exp(2j * np.pi * ramp(f, o.shape[0], o.shape[1]))
    o = o * t.exp(-1j * t.angle(t.sum(o[obj_slice])))
    for i in range(p.shape[0]):
        p[i] = p[i] * t.exp(-1j * t.angle(t.sum(p[i])))
    if single:
        p = p[0]
    if isnp(probe):
        p = p.numpy()
    if isnp(obj):
        o = o.numpy()
    return p, o


def ramp(f, n, m):
    i, j = np.mgrid[:n, :m]
    return f[0] * t.tensor(i).to(t.float32) + f[1] * t.tensor(j).to(t.float32)


def radii(shape, basis):
    i = np.fft.fftshift(np.fft.fftfreq(shape[-2],
                                       d=np.linalg.norm(basis[:, 0])))
    j = np.fft.fftshift(np.fft.fftfreq(shape[-1],
                                       d=np.linalg.norm(basis[:, 1])))
    jj, ii = np.meshgrid(j, i)
    return i, j, np.sqrt(ii**2 + jj**2)


def spectrum(im):
    return t.fft.fftshift(t.fft.fft2(im), dim=(-1, -2))


def calc_consistency_prtf(synth_obj, objects, basis, obj_slice=None,
                          nbins=None):
    np_in = isnp(objects[0])
    synth = t.as_tensor(synth_obj)
    objs = [t.as_tensor(o) for o in objects]
    if obj_slice is None:
        obj_slice = middle(objs[0])
    if nbins is None:
        nbins = np.max(synth[obj_slice].shape) // 4
    power = (t.abs(spectrum(synth[obj_slice]))**2).numpy()
    i, j, r = radii(power.shape, basis)
    top, bins = np.histogram(r, bins=nbins, weights=power)
    ratios = []
    for o in objs:
        low, bins = np.histogram(
            r, bins=nbins,
            weights=(t.abs(spectrum(o[obj_slice]))**2).numpy())
        ratios.append(top / low)
    prtf = np.mean(ratios, axis=0)
    if not np_in:
        bins = t.Tensor(bins)
        prtf = t.Tensor(prtf)
    return bins[:-1], prtf


def calc_deconvolved_cross_correlation(im1, im2, im_slice=None):
    a, b = t.as_tensor(im1), t.as_tensor(im2)
    if im_slice is None:
        im_slice = middle(a)
    c = t.fft.fft2(a[im_slice]) * t.conj(t.fft.fft2(b[im_slice]))
    c = t.fft.ifft2(c / t.abs(c))
    if isnp(im1) or isnp(im2):
        c = c.numpy()
    return c


def limits(i, j, r, limit):
    name = limit.lower().strip()
    if name == 'side':
        return [0, max(np.max(i), np.max(j))]
    if name == 'corner':
        return [0, np.max(r)]
    raise ValueError(limit)


def curve(snr, n):
    """the threshold of van Heel and Schatz; snr is the one of each half"""
    s = snr / 2
    return (s + (2 * np.sqrt(s) + 1) / np.sqrt(n)) / \
        (1 + s + 2 * np.sqrt(s) / np.sqrt(n))


def calc_frc(im1, im2, basis, im_slice=None, nbins=None, snr=1.,
             limit='side'):
    np_in = isnp(im1) or isnp(im2)
    a, b = t.as_tensor(im1), t.as_tensor(im2)
    if im_slice is None:
        im_slice = np.s_[:, :]
    if nbins is None:
        nbins = np.max(a[im_slice].shape) // 8
    f1, f2 = spectrum(a[im_slice]), spectrum(b[im_slice])
    i, j, r = radii(f1.shape, t.as_tensor(basis))
    lim = limits(i, j, r, limit)
    cross, bins = np.histogram(r, bins=nbins, range=lim,
                               weights=(f1 * t.conj(f2)).numpy())
    p1, bins = np.histogram(r, bins=nbins, range=lim,
                            weights=(t.abs(f1)**2).numpy())
    p2, bins = np.histogram(r, bins=nbins, range=lim,
                            weights=(t.abs(f2)**2).numpy())
    n, bins = np.histogram(r, bins=nbins, range=lim)
    frc = cross / np.sqrt(p1 * p2)
    threshold = curve(snr, n)
    if not np_in:
        bins, frc, threshold = t.tensor(bins), t.tensor(frc), \
            t.tensor(threshold)
    return bins[:-1], frc, threshold


def entropy(matrix):
    eig = np.linalg.eigh(matrix)[0]
    eig = eig / np.sum(eig)
    return -np.sum(special.xlogy(eig, eig))


def calc_vn_entropy(matrix):
    if len(matrix.shape) == 3:
        return np.array([entropy(m) for m in matrix])
    return entropy(matrix)


def calc_mode_power_fractions(probes, weight_matrix=None, n_probe_dims=2,
                              assume_preorthogonalized=False):
    p = t.as_tensor(probes)
    if not assume_preorthogonalized:
        w = None if weight_matrix is None else t.as_tensor(weight_matrix)
        p = orthogonalize_probes(p, w, n_probe_dims)
    elif weight_matrix is not None:
        w = t.as_tensor(weight_matrix)
        p = t.sum(w[(Ellipsis,) + (None,) * n_probe_dims] * p,
                  dim=-(n_probe_dims + 1))
    power = t.sum(t.abs(p)**2, dim=tuple(range(-n_probe_dims, 0)))
    power = power / t.sum(power)
    if isnp(probes):
        power = power.numpy()
    return power


def calc_rms_error(field_1, field_2, align_phases=True, normalize=False,
                   dims=2):
    a, b = t.as_tensor(field_1), t.as_tensor(field_2)
    last = tuple(range(-dims, 0))
    if align_phases:
        b = b * t.exp(1j * t.angle(t.sum(a * t.conj(b), dim=last,
                                         keepdim=True)))
    ms = t.mean(t.abs(a - b)**2, dim=last)
    if normalize:
        ms = ms / t.mean(t.abs(a)**2, dim=last)
    return t.sqrt(ms)


def calc_fidelity(fields_1, fields_2, dims=2):
    a, b = t.as_tensor(fields_1), t.as_tensor(fields_2)
    overlap = t.sum(a.unsqueeze(-dims - 2) * b.unsqueeze(-dims - 1).conj(),
                    dim=tuple(range(-dims, 0)))
    return t.sum(t.linalg.svdvals(overlap), dim=-1)**2


def calc_generalized_rms_error(fields_1, fields_2, normalize=False, dims=2):
    a, b = t.as_tensor(fields_1), t.as_tensor(fields_2)
    last = tuple(range(-dims - 1, 0))
    n = t.prod(t.as_tensor(a.shape[-dims:], dtype=t.int32))
    i1 = t.sum(t.abs(a)**2, dim=last) / n
    i2 = t.sum(t.abs(b)**2, dim=last) / n
    ms = i1 + i2 - 2 * t.sqrt(calc_fidelity(a, b, dims) / n**2)
    if normalize:
        ms = ms / i1
    return t.sqrt(ms)


def calc_generalized_frc(fields_1, fields_2, basis, im_slice=None,
                         nbins=None, snr=1., limit='side'):
    np_in = isnp(fields_1) or isnp(fields_2)
    a, b = t.as_tensor(fields_1), t.as_tensor(fields_2)
    if im_slice is None:
        im_slice = np.s_[..., :, :]
    if nbins is None:
        nbins = np.max(a[im_slice].shape[-2:]) // 4
    f1, f2 = spectrum(a[im_slice]), spectrum(b[im_slice])
    i, j, r = radii(f1.shape, t.as_tensor(basis))
    n, bins = np.histogram(r, bins=nbins, range=limits(i, j, r, limit))
    bins = t.as_tensor(bins)
    r = t.as_tensor(r)
    frc = []
    for k in range(len(bins) - 1):
        mask = t.logical_and(r < bins[k + 1], r >= bins[k])
        g1, g2 = f1 * mask, f2 * mask
        frc.append(t.sqrt(calc_fidelity(g1, g2)) /
                   t.sqrt(t.sqrt(calc_fidelity(g1, g1)) *
                          t.sqrt(calc_fidelity(g2, g2))))
    frc = np.array(frc)
    threshold = curve(snr, n)
    if np_in:
        bins = bins.numpy()
    else:
        frc, threshold = t.tensor(frc), t.tensor(threshold)
    return bins[:-1], frc, threshold


def plane(g, shape):
    i, j = np.mgrid[:shape[0], :shape[1]]
    return g[0] * i + g[1] * j


def remove_phase_ramp(im, window, probe=None):
    """the ramp that maximises the zero frequency of the window"""
    part = im[window]

    def target(f):
        return -np.abs(np.sum(np.exp(2j * np.pi * plane(f, part.shape)) *
                              part))**2
    f = opt.minimize(target, np.array([0, 0]))['x']
    im = im * np.exp(2j * np.pi * plane(f, im.shape))
    if probe is None:
        return im
    return im, probe * np.exp(-2j * np.pi * plane(f, probe.shape[-2:]))


def remove_amplitude_exponent(im, window, probe=None, weights=None,
                              translations=None, basis=None):
    """the exponential which fits the amplitude of the window best"""
    part = np.abs(im[window])

    def target(x):
        return np.sum((part - x[0] * np.exp(plane(x[1:], part.shape)))**2)
    g = opt.minimize(target, np.array([1, 0, 0]), method='Nelder-Mead')['x']
    g = g[1:]
    out = (im * np.exp(-plane(g, im.shape)),)
    if probe is not None:
        out = out + (probe * np.exp(plane(g, probe.shape[-2:])),)
    if weights is not None:
        p = interactions.translations_to_pixel(
            t.as_tensor(basis), t.as_tensor(translations)).numpy()
        p = p - np.min(p, axis=0)
        out = out + (weights * np.exp(g[0] * p[:, 0] + g[1] * p[:, 1]),)
    if len(out) == 1:
        return out[0]
    return out


def calc_spectral_info(dataset, nbins=50):
    try:
        area = spatial.ConvexHull(
            dataset.translations[:, :2].cpu().numpy()).volume
    except spatial._qhull.QhullError:
        area = None
    basis = initializers.exit_wave_geometry(
        dataset.detector_geometry['basis'], dataset[0][1].shape,
        dataset.wavelength, dataset.detector_geometry['distance'])
    fov = np.linalg.norm(np.cross(basis[:, 0] * dataset.patterns.shape[-2],
                                  basis[:, 1] * dataset.patterns.shape[-1]))
    scale = 1 / len(dataset) if area is None else fov / area
    total = (dataset.mask * t.sum(dataset.patterns, dim=0)
             * scale).cpu().numpy()
    size = np.linalg.norm(basis, axis=0)
    i = np.fft.fftshift(np.fft.fftfreq(total.shape[0], d=size[0]))
    j = np.fft.fftshift(np.fft.fftfreq(total.shape[1], d=size[1]))
    jj, ii = np.meshgrid(j, i)
    r = np.sqrt(ii**2 + jj**2)
    lim = [0, max(np.max(i), np.max(j))]
    s, bins = np.histogram(r, bins=nbins, range=lim, weights=total)
    n, bins = np.histogram(r, bins=nbins, range=lim,
                           weights=dataset.mask.cpu().numpy().astype(int))
    return total, bins[:-1], s / n


def synthesize_reconstructions(probes, objects, use_probe=False,
                               obj_slice=None, correct_ramp=False):
    """each one is aligned with the sum of those before it"""
    np_p, np_o = isnp(probes[0]), isnp(objects[0])
    probes = [t.as_tensor(p) for p in probes]
    objects = [t.as_tensor(o) for o in objects]
    size = np.min(np.array([o.shape for o in objects]), axis=0)
    objects = [o[:size[0], :size[1]] for o in objects]
    if obj_slice is None:
        obj_slice = middle(objects[0])
    stack = []
    for p, o in zip(probes, objects):
        p, o = an.standardize(p.clone(), o.clone(), obj_slice, correct_ramp)
        if stack:
            if use_probe:
                s = ip.find_shift(dominant(probe), dominant(p), resolution=50)
            else:
                s = ip.find_shift(total[obj_slice], o[obj_slice],
                                  resolution=50)
            o = ip.sinc_subpixel_shift(o, s)
            if len(p.shape) == 3:
                p = t.stack([ip.sinc_subpixel_shift(m, s) for m in p], dim=0)
            else:
                p = ip.sinc_subpixel_shift(p, s)
            probe = probe + p
            total = total + o
        else:
            probe, total = p, o
        stack.append(o)
    if np_p:
        probe = probe.numpy()
    if np_o:
        total = total.numpy()
        stack = [o.numpy() for o in stack]
    return probe / len(probes), total / len(probes), stack


def dominant(p):
    return p[0] if len(p.shape) == 3 else p


def make_illumination_map(results, total_probe_intensity=None, padding=200):
    power = np.sum(np.abs(results['probe'])**2, axis=0)
    if total_probe_intensity is not None:
        power = power / np.sum(power) * total_probe_intensity
    out = np.zeros_like(results['obj'], dtype=np.float32)
    pix = interactions.translations_to_pixel(
        t.as_tensor(results['obj_basis']),
        t.as_tensor(results['translations']))
    first = t.as_tensor(results['state_dict']['min_translation'])
    pix = np.round((pix - first).numpy()).astype(int)
    for p in pix:
        out[p[0]:p[0] + power.shape[0], p[1]:p[1] + power.shape[1]] += power
    return out


def corrected(half, window, offset, phase, amplitude, keep_weights=False):
    obj, probe, weights = half['obj'], half['probe'], half['weights']
    if phase:
        obj, probe = an.remove_phase_ramp(obj, window, probe=probe)
    if amplitude:
        w = None if keep_weights else weights
        got = an.remove_amplitude_exponent(
            obj, window, probe=probe, weights=w, basis=half['obj_basis'],
            translations=half['translations'])
        obj, probe = got[0], got[1]
        if not keep_weights:
            weights = got[2]
    if offset:
        obj = obj * np.exp(-1j * np.angle(np.sum(obj[window])))
    return obj, probe, weights


def standardize_reconstruction_set(
        half_1, half_2, full, correct_phase_offset=True,
        correct_phase_ramp=True, correct_amplitude_exponent=False,
        window=np.s_[:, :], nbins=50, frc_limit='side'):
    opt = (window, correct_phase_offset, correct_phase_ramp,
           correct_amplitude_exponent)
    obj, probe, weights = corrected(full, *opt)
    out = {
        'obj_full': obj, 'probe_full': probe, 'weights_full': weights,
        'translations_full': full['translations'],
        'background_full': full['background'],
        'wavelength': full['wavelength'], 'obj_basis': full['obj_basis'],
        'probe_basis': full['probe_basis']}
    halves = []
    for n, half in (('1', half_1), ('2', half_2)):
        o, p, w = corrected(half, *opt)
        s = ip.find_shift(
            t.as_tensor(ip.hann_window(np.abs(obj[window]))),
            t.as_tensor(ip.hann_window(np.abs(o[window]))))
        o = ip.sinc_subpixel_shift(t.as_tensor(o), s).numpy()
        halves.append(o)
        out['obj_half_' + n] = o
        out['probe_half_' + n] = p
        out['weights_half_' + n] = w
        out['translations_half_' + n] = half['translations']
        out['background_' + n] = half['background']
    freqs, frc, threshold = an.calc_frc(
        ip.hann_window(halves[0][window]), ip.hann_window(halves[1][window]),
        full['obj_basis'], nbins=nbins, limit=frc_limit)
    out['frc_freqs'] = freqs
    out['frc'] = frc
    out['frc_threshold'] = threshold
    out['ssnr'] = 2 * np.abs(frc) / (1 - np.abs(frc))
    return out


def standardize_reconstruction_pair(
        half_1, half_2, correct_phase_offset=True, correct_phase_ramp=True,
        correct_amplitude_exponent=False, window=np.s_[:, :], nbins=50,
        probe_nbins=50, frc_limit='side'):
    opt = (window, correct_phase_offset, correct_phase_ramp,
           correct_amplitude_exponent, True)
    o1, p1, w1 = corrected(half_1, *opt)
    o2, p2, w2 = corrected(half_2, *opt)
    s = ip.find_shift(t.as_tensor(ip.hann_window(o1[window])),
                      t.as_tensor(ip.hann_window(o2[window])))
    o2 = ip.sinc_subpixel_shift(t.as_tensor(o2), s).numpy()
    s = ip.find_shift(t.as_tensor(p1[0]), t.as_tensor(p2[0]))
    p2 = p2.copy()
    for k in range(p2.shape[0]):
        p2[k] = ip.sinc_subpixel_shift(t.as_tensor(p2[k]), s).numpy()
    freqs, frc, threshold = an.calc_frc(
        ip.hann_window(o1[window]), ip.hann_window(o2[window]),
        half_1['obj_basis'], nbins=nbins, limit=frc_limit)
    pfreqs, pfrc, pthreshold = an.calc_generalized_frc(
        p1, p2, half_1['probe_basis'], nbins=probe_nbins, limit=frc_limit)
    return {
        'obj_1': o1, 'probe_1': p1, 'weights_1': w1,
        'translations_1': half_1['translations'],
        'background_1': half_1['background'],
        'obj_2': o2, 'probe_2': p2, 'weights_2': w2,
        'translations_2': half_2['translations'],
        'background_2': half_2['background'],
        'wavelength': half_1['wavelength'],
        'obj_basis': half_1['obj_basis'],
        'probe_basis': half_1['probe_basis'],
        'frc_freqs': freqs, 'frc': frc, 'frc_threshold': threshold,
        'ssnr': np.abs(frc) / (1 - np.abs(frc)),
        'probe_freqs': pfreqs, 'probe_frc': pfrc,
        'probe_frc_threshold': pthreshold,
        'probe_nrms_error': an.calc_generalized_rms_error(p1, p2,
                                                       normalize=True),
        'probe_nmse': 1 - an.calc_fidelity(p1, p2) / (
            np.sum(np.abs(p1)**2) * np.sum(np.abs(p2)**2))}
