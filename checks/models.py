"""Model objects built by abstractly running their constructors."""
from .util import *

MODELS = {
    'SimplePtycho': 'cdtools.models.simple_ptycho',
    'FancyPtycho': 'cdtools.models.fancy_ptycho',
    'MultislicePtycho': 'cdtools.models.multislice_ptycho',
    'Bragg2DPtycho': 'cdtools.models.bragg_2d_ptycho',
    'RPI': 'cdtools.models.rpi',
}
PTYCHO = ('FancyPtycho', 'MultislicePtycho', 'Bragg2DPtycho')
P_, H_, W_, HO, WO, N_, L_ = (sym(x, 'int') for x in
                              ('P', 'H', 'W', 'HO', 'WO', 'N', 'L'))

# constructor argument -> (type, shape)
ARGS = {
    'wavelength': ('tensor', ()),
    'obj_basis': ('tensor', (3, 2)),
    'probe_basis': ('tensor', (3, 2)),
    'probe_guess': ('tensor', (P_, H_, W_)),
    'probe': ('tensor', (P_, H_, W_)),
    'obj_guess': ('tensor', (HO, WO)),
    'interslice_propagator': ('tensor', (H_, W_)),
    'surface_normal': ('tensor', (3,)),
    'min_translation': ('tensor', (2,)),
    'median_propagation': ('tensor', ()),
    'background': ('tensor', (H_, W_)),
    'translation_offsets': ('tensor', (N_, 2)),
    'probe_fourier_shifts': ('tensor', (N_, 2)),
    'mask': ('tensor', (H_, W_)),
    'weights': ('tensor', (N_,)),
    'qe_mask': ('tensor', (H_, W_)),
    'translation_scale': ('float', None),
    'saturation': ('float', None),
    'probe_support': ('tensor', (H_, W_)),
    'obj_support': ('tensor', (HO, WO)),
    'oversampling': ('int', None),
    'obj_view_crop': ('int', None),
    'fourier_probe': ('bool', None),
    'simulate_probe_translation': ('bool', None),
    'simulate_finite_pixels': ('bool', None),
    'exponentiate_obj': ('bool', None),
    'phase_only': ('bool', None),
    'near_field': ('bool', None),
    'weight_matrix': ('bool', None),
    'propagate_probe': ('bool', None),
    'correct_tilt': ('bool', None),
    'lens': ('bool', None),
    'angular_spectrum_propagator': ('tensor', (H_, W_)),
    'inv_angular_spectrum_propagator': ('tensor', (H_, W_)),
    'propagation_distance': ('float', None),
    'units': ('str', None),
    'loss': ('str', None),
    'panel_plot_mode': ('bool', None),
    'plot_level': ('float', None),
    'translations': ('tensor', (N_, 2)),
}
NEEDED = {'wavelength', 'obj_basis', 'probe_guess', 'probe', 'obj_guess',
          'interslice_propagator', 'background', 'probe_basis'}


def arg(I, name, typ=None, shape=None):
    t, s = ARGS[name]
    if typ is not None:
        t = typ
    x = sym(name, t)
    s = s if shape is None else shape
    if s is not None:
        I.shapes[x] = tup(*s)
    return x


def geometry(I, corner=True):
    d = sym('distance', 'tensor')
    b = sym('det_basis', 'tensor')
    c = sym('corner', 'tensor')
    I.shapes[d] = tup()
    I.shapes[b] = tup(3, 2)
    I.shapes[c] = tup(3)
    ent = [(const('distance'), d), (const('basis'), b)]
    if corner:
        ent.append((const('corner'), c))
    return I.newdict(ent)


def params(cls, prog):
    f = method(prog, cls, '__init__')
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + \
        [x.arg for x in a.kwonlyargs]


def model_class(prog, name):
    return prog.cls(MODELS[name], name)


def interp(prog, hooks=None):
    I = Interp(prog, dict(hooks or {}))
    I.noexc = True
    return I


def build(I, prog, name, given=(), **over):
    """Construct a model.  `given`: names of optional arguments to pass as
    symbols; over: explicit values."""
    cls = model_class(prog, name)
    kw = {}
    names = params(cls, prog)
    for p in names:
        if p in over:
            kw[p] = over[p]
        elif p == 'detector_geometry':
            kw[p] = geometry(I)
        elif p in NEEDED or p in given:
            if p in ARGS:
                kw[p] = arg(I, p)
    return I.construct(cls, (), kw), kw
