"""Current names of what former names stand for."""
import pyTMD.astro
import pyTMD.compute
import pyTMD.io.IERS
import pyTMD.spatial
import timescale.eop
import timescale.time


def check_points(x, y, **kwargs):
    return pyTMD.compute.tide_masks(x, y, **kwargs)


def ocean(x, y, t, **kwargs):
    return pyTMD.compute.tide_elevations(x, y, t, **kwargs)


def LPET(x, y, t, **kwargs):
    return pyTMD.compute.LPET_elevations(x, y, t, **kwargs)


def LPT(x, y, t, **kwargs):
    return pyTMD.compute.LPT_displacements(x, y, t, **kwargs)


def OPT(x, y, t, **kwargs):
    return pyTMD.compute.OPT_displacements(x, y, t, **kwargs)


def SET(x, y, t, **kwargs):
    return pyTMD.compute.SET_displacements(x, y, t, **kwargs)


def phase_angles(MJD):
    TAU, S, H, P, ZNS, PS = pyTMD.astro.doodson_arguments(MJD)
    return (S, H, P, TAU, ZNS, PS)


def scale_areas(*args, **kwargs):
    return pyTMD.spatial.scale_factors(*args, **kwargs)


def ocean_pole_tide(file):
    return pyTMD.io.IERS.read_binary_file(model_file=file)


def ocean_pole_tide_default():
    return pyTMD.io.IERS.read_binary_file()


def parse(*args, **kwargs):
    return timescale.time.parse(*args, **kwargs)


def parse_date_string(*args, **kwargs):
    return timescale.time.parse_date_string(*args, **kwargs)


def split_date_string(*args, **kwargs):
    return timescale.time.split_date_string(*args, **kwargs)


def datetime_to_list(*args, **kwargs):
    return timescale.time.datetime_to_list(*args, **kwargs)


def calendar_days(*args, **kwargs):
    return timescale.time.calendar_days(*args, **kwargs)


def convert_datetime(*args, **kwargs):
    return timescale.time.convert_datetime(*args, **kwargs)


def convert_delta_time(*args, **kwargs):
    return timescale.time.convert_delta_time(*args, **kwargs)


def convert_calendar_dates(*args, **kwargs):
    return timescale.time.convert_calendar_dates(*args, **kwargs)


def convert_calendar_decimal(*args, **kwargs):
    return timescale.time.convert_calendar_decimal(*args, **kwargs)


def convert_julian(*args, **kwargs):
    return timescale.time.convert_julian(*args, **kwargs)


def update_mean_pole(*args, **kwargs):
    return timescale.eop.update_mean_pole(*args, **kwargs)


def calculate_mean_pole(*args, **kwargs):
    return timescale.eop.calculate_mean_pole(*args, **kwargs)


def pull_pole_coordinates(*args, **kwargs):
    return timescale.eop.pull_pole_coordinates(*args, **kwargs)


def update_finals_file(*args, **kwargs):
    return timescale.eop.update_finals_file(*args, **kwargs)


def iers_mean_pole(*args, **kwargs):
    return timescale.eop.iers_mean_pole(*args, **kwargs)


def iers_daily_EOP(*args, **kwargs):
    return timescale.eop.iers_daily_EOP(*args, **kwargs)


def iers_polar_motion(*args, **kwargs):
    return timescale.eop.iers_polar_motion(*args, **kwargs)
