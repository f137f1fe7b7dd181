"""What the plotting functions show, written from their documentation.

Each function returns what has to reach matplotlib: the image or the points,
the limits of the color scale, the axis labels and the transformation from
pixels to the coordinates of the plot."""
import numpy as np
import torch as t
import matplotlib.pyplot as plt
from matplotlib.colors import hsv_to_rgb
from cdtools.tools import analysis, propagators

UNITS = {'m': 1, 'cm': 1e2, 'mm': 1e3, 'um': 1e6, '$\\mu$m': 1e6,
         'nm': 1e9, 'a': 1e10, 'pm': 1e12}


def array(x):
    if isinstance(x, t.Tensor):
        return x.detach().cpu().numpy()
    return x


def units_factor(units):
    return UNITS[units.lower()]


def component(kind, x):
    if kind == 'plot_real':
        return np.real(x)
    if kind == 'plot_imag':
        return np.imag(x)
    if kind == 'plot_phase':
        return np.angle(x)
    if kind == 'complex':
        return x
    return np.abs(x)


def image(kind, im, index, basis=None, view_basis=None, units='um',
          limits=(None, None)):
    im = array(im)
    out = {'data': component(kind, im[tuple(index)]), 'vmin': limits[0],
           'vmax': limits[1]}
    if basis is None:
        out['xlabel'] = 'j (pixels)'
        out['ylabel'] = 'i (pixels)'
        return out
    out['xlabel'] = 'X (' + units + ')'
    out['ylabel'] = 'Y (' + units + ')'
    out.update(geometry(im, array(basis) * UNITS[units], view_basis))
    return out


def geometry(im, basis, view_basis):
    """pixel (j, i) is at i * basis[:, 0] + j * basis[:, 1], seen along the
    view basis"""
    if view_basis is None:
        # x along the second basis vector, y towards the first one in the
        # plane of both, seen from the front
        unit = basis / np.linalg.norm(basis, axis=0)
        x = unit[:, 1]
        z = np.cross(x, unit[:, 0])
        z = z / np.linalg.norm(z)
        y = np.cross(z, x)
        y = y / np.linalg.norm(y)
        view = np.stack([y, x], axis=1)
    else:
        view = array(view_basis)
        view = view / np.linalg.norm(view, axis=0)
    m = np.linalg.lstsq(view[:, ::-1], basis[:, ::-1], rcond=None)[0]
    h = im.shape[-2]
    w = im.shape[-1]
    corners = np.array([[-0.5, -0.5], [w - 0.5, -0.5], [-0.5, h - 0.5],
                        [w - 0.5, h - 0.5]])
    corners = np.matmul(m, corners.transpose())
    low = np.min(corners, axis=1)
    high = np.max(corners, axis=1)
    # in the order in which matplotlib expects the matrix
    return {'a': m[0][0], 'b': m[1][0], 'c': m[0][1], 'd': m[1][1],
            'e': 0, 'f': 0,
            'xlim': [low[0], high[0]], 'ylim': [low[1], high[1]]}


def colors(z, table, scaling=lambda x: x):
    """brightness is the amplitude relative to the maximum, hue the phase
    on the cyclic color map"""
    amp = np.abs(z)
    phase = np.angle(z, deg=1)
    at = np.linspace(0, 360, table.shape[0])
    rgb = []
    for k in range(3):
        rgb.append(np.interp((phase + 100) % 360, at, table[::-1, k]))
    return np.dstack(rgb) * scaling(amp / np.max(amp))[..., None]


def colors_hsv(z, scaling=lambda x: x):
    amp = np.abs(z)
    h = ((np.angle(z, deg=1) + 170) % 360) / 360
    s = 0.85 * np.ones_like(h)
    return hsv_to_rgb(np.dstack((h, s, scaling(amp / np.max(amp)))))


def positions(translations, units, sign=1):
    p = array(translations) * UNITS[units] * sign
    return {'x': p[:, 0], 'y': p[:, 1]}


def nanomap(translations, values, units, sign):
    out = positions(translations, units, sign)
    out['values'] = array(values)
    return out


def frame(get, i):
    """the image of one exposure; the first one if there are several"""
    im = get(i)
    if len(im.shape) >= 3:
        im = im.reshape(-1, im.shape[-2], im.shape[-1])[0]
    return im


def extent(get, basis, units):
    """size of the image in the given units"""
    im = array(get(0))
    size = np.linalg.norm(array(basis), axis=0) * UNITS[units]
    return [0, im.shape[-1] * size[1], 0, im.shape[-2] * size[0]]


def colorbar():
    """amplitude to the right, phase upwards"""
    phase, amp = np.meshgrid(np.linspace(-np.pi, np.pi, 256),
                             np.linspace(0, 1, 64), indexing='ij')
    return amp * np.exp(1j * phase)


def colorbar_extent():
    return [0, 1, -np.pi, np.pi]


def moved(get, position):
    return frame(get, int(position))


# what the plots of the models show, by their titles.  Amplitudes, phases and
# so on are those of 'im'; lengths are in the units of the model

def shows(kind, im, basis=None, units=None, view=None, when=True):
    return {'kind': kind, 'im': im, 'basis': basis, 'units': units,
            'view_basis': view, 'when': when}


def real_space(self):
    if self.fourier_probe:
        return propagators.inverse_far_field(self.probe)
    return self.probe


def fourier_space(self):
    if self.fourier_probe:
        return self.probe
    return propagators.far_field(self.probe)


def positions_of(self, translations, values=None, when=True):
    return {'kind': 'plot_translations' if values is None else 'plot_nanomap',
            'translations': translations, 'values': values,
            'units': self.units, 'when': when}


def weighted(self):
    return len(self.weights.shape) >= 2


def top_mode(self):
    # in percent, for every exposure
    out = []
    for i in range(self.weights.shape[0]):
        f = analysis.calc_mode_power_fractions(
            self.probe.data, weight_matrix=self.weights.data[i])
        out.append(f[0])
    return 100 * t.stack(out, dim=0)


def mean_weights(self):
    return np.nanmean(np.abs(self.weights.data.cpu().numpy()), axis=0)


def fancy(self, title):
    b = self.probe_basis
    o = self.obj_basis
    u = self.units
    if title == 'Object Phase':
        return shows('plot_phase', self.obj[self.obj_view_slice], o, u,
                     when=not self.exponentiate_obj)
    if title == 'Object Amplitude':
        return shows('plot_amplitude', self.obj[self.obj_view_slice], o, u,
                     when=not self.exponentiate_obj)
    if title == 'Real Part of T':
        return shows('plot_real', self.obj[self.obj_view_slice], o, u,
                     when=self.exponentiate_obj)
    if title == 'Imaginary Part of T':
        return shows('plot_imag', self.obj[self.obj_view_slice], o, u,
                     when=self.exponentiate_obj)
    if title == 'Probe Modes, Colorized':
        return shows('plot_colorized', real_space(self), b, u)
    if title == 'Probe Modes, Amplitude':
        return shows('plot_amplitude', real_space(self), b, u)
    if title == 'Probe Modes, Fourier Colorized':
        return shows('plot_colorized', fourier_space(self))
    if title == 'Probe Modes, Fourier Amplitude':
        return shows('plot_amplitude', fourier_space(self))
    if title == 'Detector Background':
        return shows('plot_amplitude', self.background ** 2)
    if title == 'Quantum Efficiency Mask':
        return shows('plot_amplitude', self.qe_mask,
                     when=self.qe_mask is not None)
    if title == 'Mean Weight Matrix Amplitudes':
        return shows('plot_amplitude', mean_weights(self),
                     when=weighted(self))
    if title == 'Illumination Intensity':
        return positions_of(self, self.corrected_translations(None),
                            self.get_probe_intensities())
    if title == '% of Power in Top Mode':
        return positions_of(self, self.corrected_translations(None),
                            top_mode(self), weighted(self))
    if title == 'Corrected Translations':
        return positions_of(self, self.corrected_translations(None))
    if title == 'Per-Exposure Probe Intensity':
        return dict(variation(self, 'root_sum_intensity'),
                    values=self.get_probe_intensities())
    if title == 'Per-Exposure Probe Amplitudes':
        return dict(variation(self, 'amplitude'),
                    values=self.get_probe_intensities())
    if title == 'Per-Exposure Probe Phases':
        return dict(variation(self, 'phase'),
                    values=self.get_probe_intensities())


def variation(self, mode):
    return {'kind': 'plot_nanomap_with_images', 'image_units': self.units,
            'nanomap_units': self.units, 'basis': self.probe_basis,
            'translations': self.corrected_translations(None), 'mode': mode,
            'when': weighted(self)}


def intensities(self):
    """total intensity of the illumination of every exposure"""
    n = self.probe.shape[0]
    probe_matrix = np.zeros([n, n], dtype=np.complex64)
    pr = array(self.probe)
    for i in range(probe_matrix.shape[0]):
        for j in range(probe_matrix.shape[0]):
            probe_matrix[i, j] = np.sum(pr[i] * pr[j].conj())
    w = array(self.weights)
    modes = np.real(np.sum(np.tensordot(w, probe_matrix, axes=1) * w.conj(),
                           axis=2))
    return np.sum(modes, axis=1)


def exposure(self, mode, idx):
    """the illumination of one exposure, in the plane of the object"""
    pr = self.probe * self.probe_support
    pr = t.sum(self.weights[idx, :, :, None, None] * pr, dim=-3)
    if self.fourier_probe:
        pr = propagators.inverse_far_field(pr)
    modes = array(analysis.orthogonalize_probes(pr))
    if mode == 'amplitude':
        return np.abs(modes)
    if mode == 'phase':
        return np.angle(modes)
    return np.sqrt(np.sum(np.abs(modes) ** 2, axis=0))


def variation_of(self, mode):
    out = variation(self, mode)
    out['values'] = intensities(self)
    return out


def multislice(self, title):
    b = self.probe_basis
    o = self.obj_basis
    u = self.units
    s = (slice(None),) + self.obj_view_slice
    if title == 'Basis Probe Fourier Space Amplitudes':
        return shows('plot_amplitude', fourier_space(self))
    if title == 'Basis Probe Fourier Space Phases':
        return shows('plot_phase', fourier_space(self))
    if title == 'Basis Probe Real Space Amplitudes':
        return shows('plot_amplitude', real_space(self), b, u)
    if title == 'Basis Probe Real Space Phases':
        return shows('plot_phase', real_space(self), b, u)
    if title == 'Average Weight Matrix Amplitudes':
        return shows('plot_amplitude', mean_weights(self),
                     when=weighted(self))
    if title == '% of Power in Top Mode':
        return positions_of(self, self.corrected_translations(None),
                            top_mode(self), weighted(self))
    if title == 'Object Amplitude':
        return shows('plot_amplitude', self.obj[s], o, u,
                     when=not self.exponentiate_obj)
    if title == 'Object Phase':
        return shows('plot_phase', self.obj[s], o, u,
                     when=not self.exponentiate_obj)
    if title == 'Object (T) Imaginary Part':
        return shows('plot_imag', self.obj[s], o, u,
                     when=self.exponentiate_obj)
    if title == 'Object (T) Real Part':
        return shows('plot_real', self.obj[s], o, u,
                     when=self.exponentiate_obj)
    if title == 'Object Product Amplitude':
        return shows('plot_amplitude',
                     t.prod(self.obj, dim=0)[self.obj_view_slice], o, u,
                     when=not self.exponentiate_obj)
    if title == 'Object Product Phase':
        return shows('plot_phase',
                     t.prod(self.obj, dim=0)[self.obj_view_slice], o, u,
                     when=not self.exponentiate_obj)
    if title == 'Object (T) Sum Imaginary Part':
        return shows('plot_imag',
                     t.sum(self.obj, dim=0)[self.obj_view_slice], o, u,
                     when=self.exponentiate_obj)
    if title == 'Object (T) Sum Real Part':
        return shows('plot_real',
                     t.sum(self.obj, dim=0)[self.obj_view_slice], o, u,
                     when=self.exponentiate_obj)
    if title == 'Corrected Translations':
        return positions_of(self, self.corrected_translations(None))
    if title == 'Background':
        return shows('plot_amplitude', self.background ** 2)
    if title == 'Per-Exposure Probe Intensity':
        return variation_of(self, 'root_sum_intensity')
    if title == 'Per-Exposure Probe Amplitudes':
        return variation_of(self, 'amplitude')
    if title == 'Per-Exposure Probe Phases':
        return variation_of(self, 'phase')


# what a model in reflection looks like from the source: the beam travels
# along z, and x points to the left
BEAM = np.array([[0, -1], [-1, 0], [0, 0]])


def bragg(self, title):
    b = self.probe_basis
    o = self.obj_basis
    u = self.units
    obj = self.obj[self.obj_view_slice]
    if title == 'Basis Probe Fourier Space Amplitudes':
        return shows('plot_amplitude', propagators.far_field(self.probe))
    if title == 'Basis Probe Fourier Space Phases':
        return shows('plot_phase', propagators.far_field(self.probe))
    if title == 'Basis Probe Real Space Amplitudes, Surface Normal View':
        return shows('plot_amplitude', self.probe, b, u)
    if title == 'Basis Probe Real Space Phases, Surface Normal View':
        return shows('plot_phase', self.probe, b, u)
    if title == 'Basis Probe Real Space Amplitudes, Beam View':
        return shows('plot_amplitude', self.probe, b, u, BEAM)
    if title == 'Basis Probe Real Space Phases, Beam View':
        return shows('plot_phase', self.probe, b, u, BEAM)
    if title == 'Object Amplitude, Surface Normal View':
        return shows('plot_amplitude', obj, o, u)
    if title == 'Object Phase, Surface Normal View':
        return shows('plot_phase', obj, o, u)
    if title == 'Object Amplitude, Beam View':
        return shows('plot_amplitude', obj, o, u, BEAM)
    if title == 'Object Phase, Beam View':
        return shows('plot_phase', obj, o, u, BEAM)
    if title == 'Object Amplitude, Detector View':
        return shows('plot_amplitude', obj, o, u, self.det_basis)
    if title == 'Object Phase, Detector View':
        return shows('plot_phase', obj, o, u, self.det_basis)
    if title == 'Corrected Translations':
        return positions_of(self, self.corrected_translations(None))
    if title == 'Background':
        return array(self.background) ** 2


def rpi(self, title):
    o = self.obj_basis
    u = self.units
    if title == 'Object Phase':
        return shows('plot_phase', self.obj, o, u,
                     when=not self.exponentiate_obj)
    if title == 'Object Amplitude':
        return shows('plot_amplitude', self.obj, o, u,
                     when=not self.exponentiate_obj)
    if title == 'Real Part of T':
        return shows('plot_real', self.obj, o, u, when=self.exponentiate_obj)
    if title == 'Imaginary Part of T':
        return shows('plot_imag', self.obj, o, u, when=self.exponentiate_obj)
    if title == 'Root Sum Squared Amplitude of all Probes':
        w = self.weights[..., None, None].detach()
        pr = t.abs(t.sum(w * self.probe, dim=-3))
        return shows('plot_amplitude', np.sqrt(np.sum(
            array(pr ** 2), axis=0)), self.probe_basis, u)


def simple(self, title):
    b = self.probe_basis
    if title == 'Probe Amplitude':
        return shows('plot_amplitude', self.probe, b, 'um')
    if title == 'Probe Phase':
        return shows('plot_phase', self.probe, b, 'um')
    if title == 'Object Amplitude':
        return shows('plot_amplitude', self.obj, b, 'um')
    if title == 'Object Phase':
        return shows('plot_phase', self.obj, b, 'um')


def compared(self, dataset, idx, logarithmic):
    """simulated pattern, measured pattern and their difference"""
    i = int(idx) % len(dataset)
    inputs, output = dataset[i:i + 1]
    sim = array(self.forward(*inputs))
    if len(sim.shape) > 2:
        sim = sim[0]
    meas = array(output)[0]
    mask = 1
    if hasattr(self, 'mask') and self.mask is not None:
        mask = array(self.mask)
    if logarithmic:
        sim = np.log(sim) / np.log(10)
        meas = np.log(meas) / np.log(10)
    return sim, meas * mask, (sim - meas) * mask


def pattern(dataset, idx, logarithmic, offset):
    inputs, output = dataset[idx]
    data = array(output) * array(dataset.mask)
    if logarithmic:
        return np.log10(data + offset)
    return data


def integrated(dataset):
    """intensity on the unmasked pixels, for each pattern"""
    out = np.ones(dataset.translations.shape[0])
    for i in range(0, dataset.translations.shape[0], 10):
        out[i:i + 10] = t.sum(dataset.mask * dataset.patterns[i:i + 10],
                              dim=(1, 2))
    return out


def mean_pattern(dataset, offset):
    mean, bins, ssnr = analysis.calc_spectral_info(dataset)
    return t.log10(t.as_tensor(mean + offset))


def plot(self, fig):
    """stands for the function of a plot"""


def plot_with(self, fig, dataset):
    """stands for the function of a plot which needs the dataset"""


def holds(self):
    return True


def fails(self):
    return False


def holds_for(self, dataset):
    return True


def fails_for(self, dataset):
    return False


class Figure:
    """stands for a figure; every attribute kept on it is a plain one"""
    def __init__(self, canvas, axes):
        self.canvas = canvas
        self.axes = axes

    def get_size_inches(self):
        return 6.4, 4.8

    def add_axes(self, rect):
        ax = plt.Axes(self, rect)
        self.axes.append(ax)
        return ax

    def colorbar(self, *args, **kwargs):
        return plt.Colorbar(args)

    def clear(self):
        self.axes = []


def raster(at, shape, step):
    """the neighbour of an index, the last axis changing fastest"""
    n = 0
    total = 1
    for i, k in zip(at, shape):
        n = n * k + i
        total = total * k
    n = (n + step) % total
    out = []
    for k in shape[::-1]:
        out.append(n % k)
        n = n // k
    return out[::-1]


class Event:
    """stands for a key press in one of the axes"""
    def __init__(self, key, figure):
        self.key = key
        self.inaxes = figure.axes[0]
        self.canvas = figure.canvas


def at_index(kind, im, index):
    return component(kind, array(im)[tuple(index)])
