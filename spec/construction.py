"""Quantities that from_dataset and the constructors derive."""
import torch as t


def cropped_basis(basis, shape, crop):
    """pixels of a probe cropped in Fourier space"""
    return basis * t.as_tensor([shape[0] / (shape[0] - 2 * crop[0]),
                                shape[1] / (shape[1] - 2 * crop[1])])[None, :]


def rpi_obj_basis(basis, probe_shape, obj_shape):
    """the object fills the field of view of the probe"""
    return basis * t.as_tensor([probe_shape[0] / obj_shape[0],
                                probe_shape[1] / obj_shape[1]])[None, :]
