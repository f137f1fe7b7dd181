"""What the operations on a Ptycho2DDataset do (see datasets/*).  Each
function returns the fields that change."""
import torch as t

pad_ = t.nn.functional.pad
avg = t.nn.functional.avg_pool2d
maxp = t.nn.functional.max_pool2d


def pad(d, to_pad, value=0, mask=True):
    if not hasattr(to_pad, '__len__'):
        p = (to_pad, to_pad, to_pad, to_pad)
    elif len(to_pad) == 2:
        p = (to_pad[0], to_pad[0], to_pad[1], to_pad[1])
    else:
        p = to_pad
    out = {'patterns': pad_(d.patterns, p, value=value)}
    if d.mask is not None:
        out['mask'] = pad_(d.mask, p, value=not mask)
    if d.background is not None:
        out['background'] = pad_(d.background, p)
    if d.qe_mask is not None:
        out['qe_mask'] = pad_(d.qe_mask, p, value=1)
    basis = d.detector_geometry['basis']
    out['corner'] = (d.detector_geometry['corner'] - p[2] * basis[:, 0]
                     - p[0] * basis[:, 1])
    return out


def downsample(d, factor=2):
    out = {}
    if d.mask is None:
        out['patterns'] = avg(d.patterns.unsqueeze(0), factor,
                              divisor_override=1)[0]
    else:
        out['patterns'] = avg((d.mask * d.patterns).unsqueeze(0), factor,
                              divisor_override=1)[0]
    if d.qe_mask is not None:
        out['qe_mask'] = avg((d.mask * d.qe_mask)[None, None], factor)[0, 0]
        out['mask'] = maxp(d.mask.to(dtype=t.uint8)[None, None],
                           factor)[0, 0].to(dtype=t.bool)
    elif d.mask is not None:
        out['mask'] = t.logical_not(
            maxp((1 - d.mask.to(dtype=t.uint8))[None, None],
                 factor)[0, 0].to(dtype=t.bool))
    if d.background is not None:
        out['background'] = avg(d.background[None, None], factor,
                                divisor_override=1)[0, 0]
    out['basis'] = factor * d.detector_geometry['basis']
    return out


def init(translations, patterns, mask, qe_mask, background, intensities):
    bad = t.any(t.isnan(patterns), dim=0)
    if mask is None:
        mask = t.ones(patterns.shape[-2:])
    return {'mask': t.where(bad, 0, mask),
            'patterns': t.where(t.isnan(patterns), 0, patterns),
            'translations': translations, 'qe_mask': qe_mask,
            'background': background, 'intensities': intensities}
