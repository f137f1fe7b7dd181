"""What the losses compute (see tools/losses)."""
import torch as t


def pick(x, mask):
    return x if mask is None else x.masked_select(mask)


def amplitude_mse(intensities, sim_intensities, mask=None, use_sum=False):
    d = (t.sqrt(pick(sim_intensities, mask)) -
         t.sqrt(pick(intensities, mask))) ** 2
    return t.sum(d) if use_sum else t.mean(d)


def intensity_mse(intensities, sim_intensities, mask=None, use_sum=False):
    d = (pick(sim_intensities, mask) - pick(intensities, mask)) ** 2
    return t.sum(d) if use_sum else t.mean(d)


def poisson_nll(intensities, sim_intensities, mask=None, eps=1e-6,
                subtract_min=False):
    i = pick(intensities, mask)
    s = pick(sim_intensities, mask)
    nll = t.sum(s + eps - t.xlogy(i, s + eps))
    if subtract_min:
        nll = nll - t.nansum(i - t.xlogy(i, i))
    return nll


def mse_normalized(batches, mask, loss):
    """batches: everything seen during the first epoch"""
    n = 0
    for b in batches:
        n = n + pick(b, mask).numel()
    return loss / n


def nll_normalized(batches, mask, loss):
    offset = 0
    n = 0
    for b in batches:
        offset = offset + poisson_nll(b, b, mask)
        n = n + t.sum(pick(b, mask) >= 1)
    return (loss - offset) / (0.5 * n)
