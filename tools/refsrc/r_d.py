REFS = []
def R(id, checks, file, edits):
    REFS.append(dict(id=id, checks=checks.split(), file=file, edits=edits))

R('plot_limits', 'C23 C27', 'plot/plottools.py', [
 ('@_get_limits', '''
def _get_limits(points, lims, symmetry=0):
    """Extend the bounding box"""

    points = np.asarray(points).reshape((-1, 3))
    lower, upper = np.amin(points, axis=0), np.amax(points, axis=0)
    lims[0] = np.minimum(lims[0], lower)
    lims[1] = np.maximum(lims[1], upper)

    axis = {1: 2, 2: 1, 3: 0}.get(symmetry)
    if axis is not None:
        lims[0, axis] = min(lims[0, axis], -upper[axis])
        lims[1, axis] = max(lims[1, axis], -lower[axis])
'''),
 ('@_scale_fig', '''
def _scale_fig(axes, lims, directions='xyz'):
    """Scale axes"""

    half = PS.SCALE_FACTOR*0.5*np.max(lims[1] - lims[0])
    mid = 0.5*np.sum(lims, axis=0)
    domain = {name: (mid[i] - half, mid[i] + half) for i, name in enumerate('xyz')}

    setters = [axes.set_xlim, axes.set_ylim]
    if len(directions) == 3:
        setters.append(axes.set_zlim)
    for setter, direction in zip(setters, directions):
        setter(domain[direction])
'''),
 ('@_scale_plots', '''
def _scale_plots(axes_2d, axes_3d, aircraft):
    """Correct the axes scaling"""

    axes_yz, axes_xz, axes_xy = axes_2d
    lims = np.zeros((2, 3))
    for this_segment, this_wing in ot.all_segments(aircraft):
        points = np.vstack([this_segment[2].vertices[name] for name in 'abcd'])
        _get_limits(points, lims, this_wing[2].symmetry)

    for axes, directions in ((axes_3d, 'xyz'), (axes_yz, 'yz'), (axes_xz, 'xz'), (axes_xy, 'xy')):
        _scale_fig(axes, lims, directions)
'''),
])

R('plot_quad', 'C23 C27', 'plot/plottools.py', [
 ('@interpolate_quad', '''
def _num_quad_points(length, size):
    return int(2 + np.ceil(NUM_POINTS*length/size))


def interpolate_quad(a, b, c, d, size):
    """Bi-linear parametrisation"""

    fr = 0.5*(np.linalg.norm(b - a) + np.linalg.norm(c - d))
    fs = 0.5*(np.linalg.norm(d - a) + np.linalg.norm(c - b))
    r = np.linspace(0, 1, _num_quad_points(fr, size))
    s = np.linspace(0, 1, _num_quad_points(fs, size))
    r, s = np.meshgrid(r, s)

    return tuple(
        a[i] + (b[i] - a[i])*r + (d[i] - a[i])*s + (a[i] - b[i] + c[i] - d[i])*r*s
        for i in range(3)
    )
'''),
 ('@add_results', '''
def _normalise(data):
    low, high = np.min(data), np.max(data)
    if high == low:
        return np.zeros_like(data)
    return (data - low)/(high - low)


def add_results(axes_2d, axes_3d, figure_3d, vlmdata, lattice, aircraft, key):
    """Add results"""

    axes_yz, axes_xz, axes_xy = axes_2d
    data = vlmdata.panelwise[key]
    values = _normalise(data)

    for i in range(len(values)):
        color = C.COLORMAP(values[i])
        corners = lattice.p[i]
        x, y, z = interpolate_quad(*corners, aircraft.size)
        axes_3d.plot_surface(x, y, z, color=color, linewidth=PS.LINEWIDTH_a, shade=False, cstride=1, rstride=1)
        for axes, u, v in ((axes_yz, y, z), (axes_xz, x, z), (axes_xy, x, y)):
            axes.fill(u, v, color=color, facecolor=color, fill=True)

    cbar = cm.ScalarMappable(cmap=C.COLORMAP)
    cbar.set_array(data)
    figure_3d.colorbar(cbar).set_label(key)
'''),
])

R('plot_points', 'C23 C27', 'plot/plottools.py', [
 ('@_plot_XYZ_points', '''
def _plot_views(axes_2d, axes_3d, XYZ, skip=None, **kwargs):
    views = {'yz': axes_2d[0], 'xz': axes_2d[1], 'xy': axes_2d[2]}
    coords = dict(zip('xyz', XYZ))
    axes_3d.plot(*XYZ, **kwargs)
    for name, axes in views.items():
        if name != skip:
            axes.plot(*(coords[direction] for direction in name), **kwargs)


def _plot_XYZ_points(axes_2d, axes_3d, points, symmetry, *, linewidth, color,
                     color_mirror=None, marker=None):
    """Plot a group of XYZ coordinates"""

    X, Y, Z = np.transpose(points)
    _plot_views(axes_2d, axes_3d, (X, Y, Z), color=color, linewidth=linewidth, marker=marker)

    if symmetry == 1:
        _plot_views(axes_2d, axes_3d, (X, Y, -Z), 'xy', color=color, linewidth=linewidth)
    if symmetry == 2:
        _plot_views(axes_2d, axes_3d, (X, -Y, Z), 'xz', color=color, linewidth=linewidth)
    if symmetry == 3:
        _plot_views(axes_2d, axes_3d, (-X, Y, Z), 'yz', color=color, linewidth=linewidth)
'''),
 ('@add_wings', '''
def _outline(vertices):
    return np.array([vertices[name] for name in 'abcda'])


def add_wings(axes_2d, axes_3d, aircraft):
    """Add wings"""

    for wing in aircraft.wings.values():
        for segment in wing.segments.values():
            _plot_XYZ_points(
                axes_2d, axes_3d, _outline(segment.vertices), wing.symmetry,
                linewidth=PS.LINEWIDTH_b, color=C.MESH_MIRROR
            )
'''),
 ('@add_controls', '''
def add_controls(axes_2d, axes_3d, aircraft):
    """Add control surfaces"""

    for (_, _, control), (_, _, wing) in ot.all_controls(aircraft):
        if control.device_type == 'flap':
            color, order = C.CONTROL_FLAP, ['d', 'a', 'b', 'c']
        else:
            color, order = C.CONTROL_SLAT, ['b', 'c', 'd', 'a']
        hinge = control.abs_hinge_vertices
        edges = control.abs_vertices
        lines = (
            ([edges[name] for name in order], color),
            ([hinge['p_inner'], hinge['p_outer']], C.CONTROL_HINGE),
        )
        for line, line_color in lines:
            _plot_XYZ_points(axes_2d, axes_3d, np.array(line), wing.symmetry,
                             color=line_color, linewidth=PS.LINEWIDTH_c)
'''),
 ('@add_lattice', '''
def add_lattice(axes_2d, axes_3d, lattice):
    """Add the VLM mesh"""

    for i in range(len(lattice.p)):
        closed = np.concatenate((lattice.p[i], lattice.p[i][:1]))
        _plot_XYZ_points(axes_2d, axes_3d, closed, symmetry=None, linewidth=PS.LINEWIDTH_a, color=C.MESH)
'''),
 ('@add_deformation_field_points', '''
def add_deformation_field_points(axes_2d, axes_3d, aircraft):
    """Plot the deformation field points"""

    deformed = [wing for wing in aircraft.wings.values() if wing.is_deformed]
    fields = [field for wing in deformed for field in (wing.def_field, wing.def_field_mirror)]
    for field in fields:
        if field is None:
            continue
        _plot_XYZ_points(axes_2d, axes_3d, field[:, :3], 0,
                         linewidth=PS.LINEWIDTH_c, color=C.MAROON, marker='o')
'''),
 ('@add_freestream_vector', '''
def add_freestream_vector(axes_2d, axes_3d, state, tip_pos=np.array([0, 0, 0]), vector_len=3):
    """Add a free stream vector"""

    velocity = state.free_stream_velocity_vector
    arrow = vector_len*velocity/np.linalg.norm(velocity)
    x, y, z = tip_pos - arrow
    u, v, w = arrow
    axes_3d.quiver(x, y, z, u, v, w, color=C.BLACK, linewidth=PS.LINEWIDTH_c)
    axes_3d.text(x, y, z, '{:.1f} m/s'.format(state.aero['airspeed']))
'''),
 ('@_add_CG_plot2d', '''
def _add_CG_plot2d(axes_2d, aircraft):
    """Add CG"""

    cg = aircraft.refs['gcenter']
    style = dict(color=C.BLACK, marker='x', s=PS.POINTSIZE_a, linewidth=PS.LINEWIDTH_c)
    for axes, (i, j) in zip(axes_2d, ((1, 2), (0, 2), (0, 1))):
        axes.scatter(cg[i], cg[j], **style)
'''),
 ('@_add_CG_plot3d', '''
def _add_CG_plot3d(axes_3d, aircraft):
    """Add CG"""

    axes_3d.scatter(*aircraft.refs['gcenter'], color=C.BLACK, marker='x', s=PS.POINTSIZE_a, linewidth=PS.LINEWIDTH_c)
'''),
])

R('plot_make', 'C21 C23 C27', 'plot/makeplots.py', [
 ('@make_all', '''
def make_all(settings, aircraft, cur_state, vlmdata, lattice):
    """Create plots"""

    plotters = {
        'matrix_downwash': lambda opts: pl_downwash.view_downwash(vlmdata, opts),
        'geometry': lambda opts: plot_geometry_aircraft(aircraft, opts),
        'lattice': lambda opts: plot_lattice_aircraft(aircraft, lattice, opts),
        'results': lambda opts: plot_results_aircraft(aircraft, lattice, cur_state, vlmdata, opts),
    }
    for plot_name, plotter in plotters.items():
        opts = settings.settings['plot'][plot_name]
        opts['plot_dir'] = settings.paths('d_plots')
        if opts['save'] or opts['show']:
            plotter(opts)
'''),
 ('plot/plottools.py', '@show_and_save', '''
def _save_figure(figure, fig_name, plot_dir):
    time_stamp = datetime.now().strftime("%F_%H-%M-%S-%f")
    fname = os.path.join(plot_dir, '%s_%s.%s' % (fig_name, time_stamp, PS.STANDARD_FORMAT))
    logger.info(f"Saving plot as file: '{truncate_filepath(fname)}'")
    figure.savefig(fname, dpi=PS.STANDARD_DPI, format=PS.STANDARD_FORMAT)


def show_and_save(plot_settings, *figures):
    """Save and/or show plots"""

    plt.tight_layout()
    if plot_settings['save']:
        for figure_and_name in figures:
            _save_figure(*figure_and_name, plot_settings['plot_dir'])
    if plot_settings['show']:
        plt.show()
'''),
])

R('objecttools', 'C09 C10 C11 C12 C13 C16 C17 C20 C21 C23 C25 C26 C27', 'objects/objecttools.py', [
 ('@all_wings', '''
def all_wings(aircraft):
    """Yield wings"""

    wing_no = 0
    for wing_uid in aircraft.wings:
        yield (wing_no, wing_uid, aircraft.wings[wing_uid])
        wing_no += 1
'''),
 ('@all_segments', '''
def all_segments(aircraft):
    """Yield segments"""

    for this_wing in all_wings(aircraft):
        _, _, wing = this_wing
        for segment_no, (segment_uid, segment) in enumerate(wing.segments.items()):
            yield (segment_no, segment_uid, segment), this_wing
'''),
 ('@all_subareas', '''
def all_subareas(aircraft):
    """Yield subareas"""

    for this_subdivision, this_segment, this_wing in all_subdivisions(aircraft):
        subarea = this_subdivision[2].subarea
        for subarea_no, subarea_name in enumerate(subarea.keys()):
            yield (subarea_no, subarea_name, subarea[subarea_name]), this_subdivision, this_segment, this_wing
'''),
 ('@count_all_wings', '''
def count_all_wings(aircraft):
    """Count"""
    return len(aircraft.wings)
'''),
 ('@count_all_segments', '''
def count_all_segments(aircraft):
    """Count"""
    return sum(1 for _ in all_segments(aircraft))
'''),
 ('@count_all_controls', '''
def count_all_controls(aircraft):
    """Count"""
    return sum(len(wing.controls) for wing in aircraft.wings.values())
'''),
 ('@count_all_subareas', '''
def count_all_subareas(aircraft):
    """Count"""
    return len(list(all_subareas(aircraft)))
'''),
])
