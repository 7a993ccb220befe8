"""Reference definitions of spatial files"""
import numpy as np


def columns(origin, step, size):
    """centers of the pixels along a direction"""
    return origin + (np.arange(size) + 0.5)*step


def window(lower, upper, xmin, ymax, dx, dy, left, right):
    """first column and row, numbers of columns and rows of a window; rows go from north to south"""
    return (int((left - xmin)/dx), int((ymax - upper)/np.abs(dy)), int((right - left)/dx) + 1, int((upper - lower)/np.abs(dy)) + 1)
