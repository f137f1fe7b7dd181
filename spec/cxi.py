"""The geometry of detectors that a .cxi file describes in another way."""
import numpy as np


def basis_from_pixels(x, y):
    """rows run along -y, columns along -x"""
    return np.array([[0, -y, 0], [-x, 0, 0]]).transpose()


def distance_from_corner(basis, corner):
    n = np.cross(basis[:, 0], basis[:, 1])
    n = n / np.linalg.norm(n)
    return np.abs(np.dot(corner, n))


def orientation_from_normal(n):
    """z along the normal, x horizontal"""
    x = np.cross(np.array([0., 1., 0.]), n)
    x = x / np.linalg.norm(x)
    y = np.cross(n, x)
    y = y / np.linalg.norm(y)
    return np.array([x, y, n])
