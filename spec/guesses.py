"""What a model built from a dataset starts from."""
import numpy as np
import torch as t
from cdtools import tools
from scipy.ndimage import binary_dilation

init = tools.initializers
ff = tools.propagators.far_field
iff = tools.propagators.inverse_far_field


def normal(dataset, scattering_mode, sign=-1):
    """transmission: along the beam; reflection: bisects the beam and the
    direction to the detector; otherwise as the dataset says"""
    if scattering_mode in ('t', 'transmission'):
        return np.array([0., 0., 1.])
    if scattering_mode in ('r', 'reflection'):
        b = dataset.detector_geometry['basis']
        out = np.cross(b[:, 0], b[:, 1])
        n = out / np.linalg.norm(out) + np.array([0., 0., 1.])
        if sign is None:
            return n / np.linalg.norm(out / np.linalg.norm(out))
        return n / (sign * np.linalg.norm(n))
    if dataset.sample_info is not None and \
            'orientation' in dataset.sample_info:
        return dataset.sample_info['orientation'][2]
    return np.array([0., 0., 1.])


def background(dataset):
    if dataset.background is not None:
        return t.sqrt(dataset.background)
    return 1e-6 * t.ones(dataset.patterns.shape[-2:])


def weights(dataset, n_modes, dm_rank):
    n = len(dataset)
    if dm_rank is None or dm_rank == 0:
        w = t.ones(n)
    else:
        if dm_rank == -1:
            dm_rank = n_modes
        w = t.zeros(n, dm_rank, n_modes, dtype=t.complex64)
        for i in range(0, dm_rank):
            w[:, i, i] = 1
    if dataset.intensities is not None:
        a = t.sqrt(dataset.intensities)
        a = a / t.mean(a)
        w = w * a.reshape((n,) + (1,) * (w.ndim - 1))
    return w


def crop(probe, c):
    """a border of c[0], c[1] pixels of the Fourier transform is removed"""
    p = ff(probe)
    return iff(p[..., c[0]:p.shape[-2] - c[0], c[1]:p.shape[-1] - c[1]])


def rescaled(basis, before, after):
    return basis * (np.array(before) / np.array(after))[None, :]


def modes(probe, n_modes, fourier_probe):
    """the guess, then weak random modes"""
    top = t.max(t.abs(probe))
    rest = [0.01 * top * t.rand(probe.shape, dtype=probe.dtype)
            for i in range(n_modes - 1)]
    return t.stack([ff(probe) if fourier_probe else probe] + rest)


def disk(probe, radius):
    """closer than radius to the center of the array"""
    s = t.zeros(probe[0].shape, dtype=t.bool)
    x, y = np.mgrid[:probe.shape[-2], :probe.shape[-1]]
    s[np.sqrt((x - np.mean(x))**2 + (y - np.mean(y))**2) < radius] = 1
    return s


def half(shape, c):
    """of the shorter side of the uncropped probe"""
    return min(shape[-2] // 2 + c[0], shape[-1] // 2 + c[1])


def view(asked, half, padding):
    """half of the probe and the padding are cut off"""
    if asked is None:
        asked = half
    if asked < 0:
        asked = asked + half
    return asked + padding


def no_offsets(dataset):
    return 0 * (t.rand((len(dataset), 2)) - 0.5)


def optics(dataset, oversampling, near_field, propagation_distance):
    """(pixels of the exit wave, probe, propagator)"""
    g = dataset.detector_geometry
    shape = dataset.patterns.shape[-2:]
    if not near_field:
        b = init.exit_wave_geometry(g['basis'], shape, dataset.wavelength,
                                    g['distance'], oversampling=oversampling)
        return b, init.SHARP_style_probe(
            dataset, propagation_distance=propagation_distance,
            oversampling=oversampling), None
    z, M = g['distance'], 1
    if propagation_distance is not None and propagation_distance != 0:
        # an equivalent parallel beam
        M = (propagation_distance + z) / propagation_distance
        z = z / M
    b = t.as_tensor(g['basis']) / (oversampling * M)
    as_ = tools.propagators.generate_generalized_angular_spectrum_propagator
    big = as_([x * oversampling for x in shape], b, dataset.wavelength,
              np.array([0, 0, z]))
    small = as_(shape, b, dataset.wavelength, np.array([0, 0, z]))
    probe = init.SHARP_style_near_field_probe(
        dataset, lambda w: tools.propagators.near_field(w, t.conj(small)),
        oversampling=oversampling)
    return b, probe, big


def setup(dataset, basis, n, oversampling, padding):
    pix = tools.interactions.translations_to_pixel(
        basis, dataset.translations, surface_normal=n)
    return init.calc_object_setup(
        [x * oversampling for x in dataset.patterns.shape[-2:]], pix,
        padding=padding)


def common(dataset, probe, basis, n_modes, probe_fourier_crop, fourier_probe,
           probe_support_radius, obj_view_crop, obj_padding):
    out = {}
    c = (0, 0)
    out['probe_basis'] = basis
    if probe_fourier_crop is not None:
        c = probe_fourier_crop
        before = probe.shape
        probe = crop(probe, c)
        out['probe_basis'] = rescaled(basis, before, probe.shape)
    probe = modes(probe, n_modes, fourier_probe)
    out['obj_view_crop'] = view(
        obj_view_crop, half(probe.shape, c), obj_padding)
    out['probe_support'] = None
    if probe_support_radius is not None:
        s = disk(probe, probe_support_radius)
        out['probe_support'] = s
        probe = probe * s[None]
    out['probe_guess'] = probe
    out['background'] = background(dataset)
    out['translation_offsets'] = no_offsets(dataset)
    return out


def FancyPtycho(dataset, randomize_ang=0, n_modes=1, n_obj_modes=1,
                dm_rank=None, probe_support_radius=None,
                probe_fourier_crop=None, propagation_distance=None,
                scattering_mode=None, oversampling=1, fourier_probe=False,
                allow_probe_fourier_shifts=False, use_qe_mask=False,
                exponentiate_obj=False, phase_only=False, obj_view_crop=None,
                obj_padding=200, near_field=False):
    basis, probe, prop = optics(dataset, oversampling, near_field,
                                propagation_distance)
    n = normal(dataset, scattering_mode)
    size, origin = setup(dataset, basis, n, oversampling, obj_padding)
    if probe_fourier_crop is not None:
        probe_fourier_crop = [probe_fourier_crop] * 2
    out = common(dataset, probe, basis, n_modes, probe_fourier_crop,
                 fourier_probe, probe_support_radius, obj_view_crop,
                 obj_padding)
    obj = (randomize_ang * (t.rand(size) - 0.5)).to(dtype=t.complex64)
    if not exponentiate_obj:
        obj = t.exp(1j * obj)
    if n_obj_modes != 1:
        obj = t.stack([obj] + [0.05 * t.ones_like(obj)] * (n_obj_modes - 1))
    if phase_only:
        obj.imag[:] = 0
    out['obj_guess'] = obj
    out['obj_basis'] = basis
    out['surface_normal'] = n
    out['min_translation'] = origin
    out['weights'] = weights(dataset, n_modes, dm_rank)
    out['probe_fourier_shifts'] = None
    if allow_probe_fourier_shifts:
        out['probe_fourier_shifts'] = t.zeros((len(dataset), 2))
    out['qe_mask'] = None
    if use_qe_mask:
        out['qe_mask'] = dataset.qe_mask
        if dataset.qe_mask is None:
            out['qe_mask'] = t.ones(dataset.patterns.shape[-2:])
    out['angular_spectrum_propagator'] = prop
    out['inv_angular_spectrum_propagator'] = None
    if prop is not None:
        out['inv_angular_spectrum_propagator'] = t.conj(prop)
    return out


def MultislicePtycho(dataset, dz, nz, probe_shape=None, randomize_ang=0,
                     n_modes=1, dm_rank=None, probe_support_radius=None,
                     probe_fourier_crop=None, propagator_fourier_crop=None,
                     propagation_distance=None, scattering_mode=None,
                     oversampling=1, fourier_probe=False, obj_view_crop=None,
                     obj_padding=200, exponentiate_obj=False):
    g = dataset.detector_geometry
    shape = dataset.patterns.shape[-2:]
    basis = init.exit_wave_geometry(g['basis'], shape, dataset.wavelength,
                                    g['distance'], oversampling=oversampling)
    if probe_shape is None:
        probe = init.SHARP_style_probe(
            dataset, propagation_distance=propagation_distance,
            oversampling=oversampling)
    else:
        probe = init.gaussian_probe(
            dataset, basis, probe_shape,
            propagation_distance=propagation_distance)
    n = normal(dataset, scattering_mode)
    size, origin = setup(dataset, basis, n, oversampling, obj_padding)
    if probe_fourier_crop is not None:
        probe_fourier_crop = [probe_fourier_crop] * 2
    out = common(dataset, probe, basis, n_modes, probe_fourier_crop,
                 fourier_probe, probe_support_radius, obj_view_crop,
                 obj_padding)
    slices = [randomize_ang * (t.rand(size) - 0.5) for i in range(nz)]
    if not exponentiate_obj:
        slices = [t.exp(1j * randomize_ang * (t.rand(size) - 0.5))
                  for i in range(nz)]
    out['obj_guess'] = t.stack(slices)
    out['obj_basis'] = basis
    out['surface_normal'] = n
    out['min_translation'] = origin
    out['weights'] = weights(dataset, n_modes, dm_rank)
    p = tools.propagators.generate_angular_spectrum_propagator(
        [x * oversampling for x in shape],
        [np.abs(basis[1, 0]), np.abs(basis[0, 1])], dataset.wavelength, dz)
    c = propagator_fourier_crop
    if c is not None and c != 0:
        # the highest frequencies are blocked
        p = t.fft.fftshift(p)
        p[:c, :] = 0
        p[:, :c] = 0
        p[-c:, :] = 0
        p[:, -c:] = 0
        p = t.fft.ifftshift(p)
    out['interslice_propagator'] = p
    return out


def Bragg2DPtycho(dataset, randomize_ang=0, n_modes=1,
                  probe_support_radius=None, propagation_distance=None,
                  scattering_mode=None, oversampling=1,
                  probe_fourier_crop=None, obj_padding=200,
                  obj_view_crop=None, surface_normal=None, sign=-1):
    g = dataset.detector_geometry
    shape = dataset.patterns.shape[-2:]
    ew = init.exit_wave_geometry(g['basis'], shape, dataset.wavelength,
                                 g['distance'], oversampling=oversampling)
    n = surface_normal
    if n is None:
        n = normal(dataset, scattering_mode, sign)
    # projected along the outgoing beam onto the surface
    b = np.array(ew)
    out_dir = np.cross(b[:, 1], b[:, 0])
    out_dir = out_dir / np.linalg.norm(out_dir)
    mat = np.vstack([np.eye(3) - np.outer(out_dir, out_dir), n])
    basis = t.Tensor(np.dot(np.linalg.pinv(mat)[:, :3], ew))
    pix, prop = tools.interactions.project_translations_to_sample(
        basis, dataset.translations)
    size, origin = init.calc_object_setup(
        [x * oversampling for x in shape], pix, padding=obj_padding)
    probe = init.SHARP_style_probe(
        dataset, propagation_distance=propagation_distance,
        oversampling=oversampling)
    out = common(dataset, probe, basis, n_modes, probe_fourier_crop,
                 False, probe_support_radius, obj_view_crop, obj_padding)
    out['obj_guess'] = t.exp(1j * (randomize_ang * (t.rand(size) - 0.5)))
    out['obj_basis'] = basis
    out['min_translation'] = origin
    out['median_propagation'] = t.median(prop)
    out['weights'] = t.ones(len(dataset))
    return out


def SimplePtycho(dataset):
    g = dataset.detector_geometry
    shape = dataset.patterns.shape[-2:]
    basis = init.exit_wave_geometry(g['basis'], shape, dataset.wavelength,
                                    g['distance'])
    pix = tools.interactions.translations_to_pixel(basis,
                                                   dataset.translations)
    size, origin = init.calc_object_setup(shape, pix)
    return {'probe_basis': basis, 'probe_guess': init.SHARP_style_probe(
        dataset), 'obj_guess': t.ones(size).to(dtype=t.complex64),
        'min_translation': origin}


def RPI(dataset, probe, obj_size=None, n_modes=1, oversampling=1,
        probe_threshold=0, background=None):
    g = dataset.detector_geometry
    shape = dataset.patterns.shape[-2:]
    out = {'probe_basis': init.exit_wave_geometry(
        g['basis'], shape, dataset.wavelength, g['distance'],
        oversampling=oversampling), 'probe': probe}
    if obj_size is None:
        obj_size = np.array(probe.shape[-2:]) // 2
    out['obj_guess'] = t.ones([n_modes, obj_size[0], obj_size[1]])
    out['background'] = None
    if background is not None:
        out['background'] = t.sqrt(background)
    elif dataset.background is not None:
        out['background'] = t.sqrt(dataset.background)
    # where the low resolution probe is bright
    p = ff(t.sqrt(t.sum(t.abs(probe)**2, axis=0)))
    a = (p.shape[-2] - obj_size[-2]) // 2
    b = (p.shape[-1] - obj_size[-1]) // 2
    low = t.abs(iff(p[a:a + obj_size[-2], b:b + obj_size[-1]]))
    out['obj_support'] = t.as_tensor(binary_dilation(
        low > t.max(low) * probe_threshold))
    return out


def RPI_object(obj, exponentiate_obj=False, phase_only=False):
    """made from the initialized object"""
    if exponentiate_obj:
        obj = -1j * t.log(obj)
    if phase_only:
        obj.imag[:] = 0
    return obj
