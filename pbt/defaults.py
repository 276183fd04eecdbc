"""Documented defaults of options, by function.

An option that is left out has to do the same as its default, so half of all cases (told by
their specs) leave out those which are at it. This also runs without `quiet`.
"""

INF = float('inf')
FILES = {'begin': 1, 'end': INF, 'ext': '.dat', 'quiet': True}
FACES = dict(FILES, ext='.xvg')
NONE = (None, None)
SEARCH = {'cutoff': None, 'cutoff_bins': 1, 'coord_labels': ('X', 'Y'), 'search_longest_connected': False}

DEFAULTS = {
    'strata.average.average': dict(
        FILES, group=1, rolling=False, recenter=False, cutoff=None, cutoff_radius=1., cutoff_bins=1, xlim=NONE, ylim=NONE,
        combine=NONE, supersample=None),
    'strata.convert.convert': dict(FILES, ftype='gmx'),
    'strata.contact_line_analysis.extract_contact_line_bins': dict(
        FILES, average=1, fuse=False, rolling=False, recenter=False, floor=None, cutoff=None, cutoff_bins=1,
        extract_area=(0., 0.), extract_height=0.),
    'strata.contact_line_analysis.sample_contact_line_edges': dict(
        FILES, save=None, average=1, rolling=False, recenter=False, dt=1., sum=False, viscosity=8.44e-4, floor=None,
        cutoff=None, cutoff_bins=1, extract_area=(0., 0.), extract_height=0.),
    'strata.sample_average.sample_average_files': dict(
        FILES, output=None, sum=False, dt=1., cutoff_label=None, cutoff=None, viscosity=8.77e-4, slip_floor=0.,
        verbose=True, xlim=NONE, ylim=NONE),
    'strata.spreading.collect.collect': dict(
        FILES, save=None, dt=1., t0=0., floor=None, cutoff=None, cutoff_radius=1., cutoff_bins=1),
    'strata.spreading.collect.get_spreading_edges': dict(SEARCH, floor=None),
    'strata.interface.collect.collect_interfaces': dict(
        FILES, recenter=None, outext='.xvg', cutoff=None, cutoff_bins=1, ylims=NONE),
    'strata.interface.view.view_interfaces': dict(FACES, average=1, save_xvg='', save_fig=None, extfig='.png'),
    'strata.interface.sample.sample_interfaces': dict(FACES, save_xvg='', delta_t=1., save_fig=None),
    'strata.interface.angle.interface_contact_angle': dict(
        FACES, fit=False, height=None, delta_t=1., save_xvg=None, save_fig=None),
    'strata.spreading.view.scale_spreading_data': dict(tau=1., R=1.),
    'strata.spreading.view.combine_spreading_data': dict(tau=1., R=1., sync_radius=None),
    'strata.spreading.fit.fit_spreading_data': dict(lims=NONE, save_xvg=None, out_lims=NONE, save_fig=None),
    'strata.utils.gen_filenames': dict(begin=1, end=INF, ext='.dat'),
    'strata.utils.find_datamap_files': dict(begin=1, end=INF, ext='.dat', group=None, rolling=False),
    'strata.utils.find_singles_to_singles': dict(begin=1, end=INF, ext='.dat'),
    'strata.utils.find_groups_to_singles': dict(begin=1, end=INF, ext='.dat', rolling=False),
    'droplets.interface.get_interface': dict(SEARCH, ylims=NONE),
    'droplets.interface.get_contact_angle': dict(SEARCH, floor=None),
    'droplets.contact_line.get_contact_line_cells': dict(SEARCH, extract_area=(0., 0.), extract_height=0., ylims=NONE),
    'droplets.contact_line.adjust_cell_coordinates': dict(coord_labels=('X', 'Y')),
    'droplets.sample.sample_per_angle_from': dict(amin=0., amax=360., coord_labels=('X', 'Y')),
    'droplets.sample.sample_viscous_dissipation': dict(coord_labels=('X', 'Y'), flow_labels=('U', 'V')),
    'droplets.sample.sample_center_of_mass': dict(mass_label='M', coord_labels=('X', 'Y')),
    'droplets.sample.sample_inertial_energy': dict(mass_label='M', flow_labels=('U', 'V')),
    'droplets.sample.sample_flow_angle': dict(flow_labels=('U', 'V'), mean=False, weight=None),
    'droplets.resample.downsample_flow_data': dict(coord_labels=('X', 'Y'), weights=[]),
    'droplets.resample.supersample_flow_data': dict(coord_labels=('X', 'Y'), weights=[]),
    'droplets.average.average_flow_data': dict(coord_labels=('X', 'Y'), weights=[]),
    'strata.view_flowmap.view_flowfields': dict(
        labels=('U', 'V'), cutoff_label='M', cutoff=None, colour=None, vlim=NONE, pivot='middle', streamlines=False,
        xlim=NONE, ylim=NONE, coord_labels=('X', 'Y'), scale=1., width=0.0015),
    'strata.view_flowmap.view_flowmap_2d': dict(
        label='M', type='height', cutoff_label='M', cutoff=None, xlim=NONE, ylim=NONE,
        coord_labels=('X', 'Y'), num_contours=10, contour_levels=None, contour_colours=None, filled=False),
}


def of(func):
    """The defaults of options of a function."""
    return DEFAULTS.get('%s.%s' % (getattr(func, '__module__', None), getattr(func, '__name__', None)), {})


def equal(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(equal, a, b))
    if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return type(a) is type(b) and a == b
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return False
