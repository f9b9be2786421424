REFS = []
def R(id, checks, file, edits):
    REFS.append(dict(id=id, checks=checks.split(), file=file, edits=edits))

GEO = 'C09 C10 C11 C12 C13 C14 C15 C16 C17 C21 C23'
F = 'objects/aircraft.py'

R('ac_point_coords', GEO, F, [
 ('@get_abs_segment_point_coords', '''
def get_abs_segment_point_coords(segment_vertices, eta, xsi):
    """Bilinear interpolation of the segment corners"""
    a, b, c, d = (segment_vertices[k] for k in 'abcd')
    return (1 - xsi)*((1 - eta)*a + eta*b) + xsi*((1 - eta)*d + eta*c)
'''),
 ('@xsi_interpol', '''
def _segment_corners(segment_vertices):
    return tuple(segment_vertices[key] for key in ('a', 'b', 'd'))


def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
    """Linear interpolation"""
    p_inner = get_abs_segment_point_coords(segment_vertices, *rel_inner)
    p_outer = get_abs_segment_point_coords(segment_vertices, *rel_outer)
    direction = p_inner - p_outer
    le = get_abs_segment_point_coords(segment_vertices, eta, 0)
    te = get_abs_segment_point_coords(segment_vertices, eta, 1)
    chord = te - le
    a, b, d = _segment_corners(segment_vertices)
    plane_normal = np.cross(np.cross(b - a, d - a), chord)
    epsilon = 1e-6*np.sqrt(np.dot(plane_normal, plane_normal))*np.sqrt(np.dot(direction, direction))
    hit = get_plane_line_intersect(plane_normal, le, direction, p_inner, epsilon)
    return np.sqrt(np.sum((hit - le)**2))/np.sqrt(np.sum(chord**2))
'''),
 ('@mirror_point', '''
def mirror_point(point, plane):
    """Mirror a point"""
    axes = {'xy': 2, 1: 2, 'xz': 1, 2: 1, 'yz': 0, 3: 0}
    if plane not in axes:
        raise ValueError(f"Invalid plane (plane: '{plane}')")
    mirrored = copy(point)
    mirrored[axes[plane]] *= -1
    return mirrored
'''),
 ('@order_mirrored_vertex_points', '''
def order_mirrored_vertex_points(vertices, plane):
    """Order"""
    orders = {'xy': (0, 1, 2, 3), 'xz': (1, 0, 3, 2), 'yz': (3, 2, 1, 0)}
    orders.update({1: orders['xy'], 2: orders['xz'], 3: orders['yz']})
    try:
        order = orders[plane]
    except KeyError:
        raise ValueError(f"Invalid plane (plane: '{plane}')")
    return tuple(vertices[i] for i in order)
'''),
 ('@mirror_vertices', '''
def mirror_vertices(vertices, plane):
    """Mirror"""
    return order_mirrored_vertex_points(tuple(mirror_point(p, plane) for p in vertices), plane)
'''),
])

R('ac_strip_vertices', GEO, F, [
 ('@SegmentStrip.abs_vertices', '''
def abs_vertices(self, mirror):
    """Absolute coordinates"""
    corners = (('eta_a', 0), ('eta_b', 0), ('eta_c', 1), ('eta_d', 1))
    if not self.parent_wing.is_deformed:
        points = [get_abs_segment_point_coords(self.parent_segment.vertices, self.rel_vertices[eta], xsi)
                  for eta, xsi in corners]
        if mirror:
            points = mirror_vertices(tuple(points), self.symmetry)
    else:
        points = [self.parent_segment.get_deformed_segment_point(self.rel_vertices[eta], xsi, mirror)
                  for eta, xsi in corners]
        if mirror:
            points = order_mirrored_vertex_points(tuple(points), self.symmetry)
    return dict(zip('abcd', points))
'''),
 ('@StripSubdivision.abs_vertices', '''
def _mirrored_xsi(self, xsi):
    xsi = order_mirrored_vertex_points(xsi, self.symmetry)
    if self.symmetry == 3:
        xsi = tuple(1 - x for x in xsi)
    return xsi

def abs_vertices(self, mirror):
    """Absolute coordinates"""
    sd = self.parent_subdivision.abs_vertices(mirror)
    xsi = tuple(self.rel_vertices[k] for k in ('xsi_a', 'xsi_b', 'xsi_c', 'xsi_d'))
    if mirror:
        xsi = self._mirrored_xsi(xsi)
    out = {}
    for key, (le, te), x in zip('abcd', ('ad', 'bc', 'bc', 'ad'), xsi):
        out[key] = (1 - x)*sd[le] + x*sd[te]
    return out
'''),
 ('@StripSubdivision.abs_hinge_vertices', '''
def abs_hinge_vertices(self, mirror):
    """Hinge"""
    sd = self.parent_subdivision.abs_vertices(mirror)
    xsi_h = [self.rel_hinge_vertices['xsi_h1'], self.rel_hinge_vertices['xsi_h2']]
    if mirror:
        if self.symmetry == 2:
            xsi_h.reverse()
        elif self.symmetry == 3:
            xsi_h = [1 - x for x in xsi_h]
    return {
        'p_inner': sd['a'] + xsi_h[0]*(sd['d'] - sd['a']),
        'p_outer': sd['b'] + xsi_h[1]*(sd['c'] - sd['b']),
    }
'''),
 ('@StripSubdivision.abs_camber_line_rot_axis_vertices', '''
def abs_camber_line_rot_axis_vertices(self, mirror):
    """Axis"""
    v = self.abs_vertices(mirror)
    first, last = ('b', 'c') if self.symmetry == 2 and mirror else ('a', 'd')
    chord = v[last] - v[first]
    axis = np.cross(np.cross(v['b'] - v['a'], chord), chord)
    return {'p_inner': v['a'], 'p_outer': v['a'] + (1/np.sqrt(axis @ axis))*axis}
'''),
 ('@StripSubdivision.get_xsi_for_collocation_points', '''
def get_xsi_for_collocation_points(self, num_panels):
    """xsi"""
    start = 0.5*(self.rel_vertices['xsi_a'] + self.rel_vertices['xsi_b'])
    end = 0.5*(self.rel_vertices['xsi_c'] + self.rel_vertices['xsi_d'])
    return [start + (end - start)*(i + 0.75)/num_panels for i in range(num_panels)]
'''),
 ('@StripSubdivision.rel_length', '''
@property
def rel_length(self):
    """Average length"""
    v = self.rel_vertices
    return ((v['xsi_c'] - v['xsi_b']) + (v['xsi_d'] - v['xsi_a']))/2
'''),
])

R('ac_add_subdivision', GEO, F, [
 ('''        # Inherit flap from previous subdivision
        if 'flap' in self.subdivision[idx_prev].subarea.keys():
            xsi1_prev = prev_subdivision.subarea['flap'].rel_vertices['xsi_a']
            xsi2_prev = prev_subdivision.subarea['flap'].rel_vertices['xsi_b']
''', '''        for device, (k1, k2) in {'flap': ('xsi_a', 'xsi_b'), 'slat': ('xsi_d', 'xsi_c')}.items():
            self._split_device(device, k1, k2, eta_a_prev, eta_b_prev, eta_a, idx_prev, idx_new)
        return self.subdivision[idx_new]

    def _split_device(self, device, k1, k2, eta_a_prev, eta_b_prev, eta_a, idx_prev, idx_new):
        prev_subdivision = self.subdivision[idx_prev]
        area = prev_subdivision.subarea.get(device)
        if area is None:
            return
        xsi1, xsi2 = area.rel_vertices[k1], area.rel_vertices[k2]
        h1, h2 = area.rel_hinge_vertices['xsi_h1'], area.rel_hinge_vertices['xsi_h2']
        cut = xsi_interpol(self.vertices, (eta_a_prev, xsi1), (eta_b_prev, xsi2), eta_a)
        cut_h = xsi_interpol(self.vertices, (eta_a_prev, h1), (eta_b_prev, h2), eta_a)
        self.subdivision[idx_new]._add_subarea(area.parent_control, cut, xsi2, cut_h, h2)
        prev_subdivision._update_subarea(device, xsi1, cut, h1, cut_h)

    def _unused(self, idx_prev, idx_new, prev_subdivision, eta_a, eta_a_prev, eta_b_prev):
        # Inherit flap from previous subdivision
        if 'flap' in self.subdivision[idx_prev].subarea.keys():
            xsi1_prev = prev_subdivision.subarea['flap'].rel_vertices['xsi_a']
            xsi2_prev = prev_subdivision.subarea['flap'].rel_vertices['xsi_b']
'''),
 ('@WingSegment._get_outer_neighbour_subdiv', '''
def _get_outer_neighbour_subdiv(self, eta_a):
    """Closest"""
    candidates = [s for s in self.subdivision.values() if abs(eta_a - s.rel_vertices['eta_a']) < 1]
    if not candidates:
        return None
    return min(candidates, key=lambda s: abs(eta_a - s.rel_vertices['eta_a']))
'''),
 ('@WingSegment._get_subdiv_at_eta', '''
def _get_subdiv_at_eta(self, eta):
    """Subdivision at eta"""
    for idx in self.subdivision:
        subdivision = self.subdivision[idx]
        start, end = subdivision.rel_vertices['eta_a'], subdivision.rel_vertices['eta_b']
        if not (start <= eta < end):
            continue
        return idx, subdivision, bool(eta == start)
'''),
 ('''        if eta_a <= 0 or eta_a >= 1:
            logger.warning''', '''        if not 0 < eta_a < 1:
            logger.warning'''),
])

R('ac_add_subarea', GEO, F, [
 ('''        for xsi in [xsi2, xsi1]:
            if (xsi <= 0 or xsi >= 1):
                raise ValueError(f"xsi must be in range (0, 1). Given xsi = {xsi:.2e}")

        for xsi in [xsi_h1, xsi_h2]:
            if (xsi < 0 or xsi > 1):
                raise ValueError(f"xsi_h must be in range [0, 1]. Given xsi = {xsi:.2e}")
''', '''        if not all(0 < xsi < 1 for xsi in (xsi1, xsi2)):
            raise ValueError("xsi must be in range (0, 1). Given {} {}".format(xsi1, xsi2))

        if any(xsi < 0 or xsi > 1 for xsi in (xsi_h1, xsi_h2)):
            raise ValueError("xsi_h must be in range [0, 1]. Given {} {}".format(xsi_h1, xsi_h2))
'''),
 ('''            if self.subarea['slat'].rel_vertices['xsi_d'] + MIN_XSI_LIMIT > xsi1 \\
                    or self.subarea['slat'].rel_vertices['xsi_c'] + MIN_XSI_LIMIT > xsi2:
                raise ValueError("Refusing to create overlapping subareas")
''', '''            slat = self.subarea['slat'].rel_vertices
            gaps = (xsi1 - slat['xsi_d'], xsi2 - slat['xsi_c'])
            if min(gaps) < MIN_XSI_LIMIT:
                raise ValueError("Refusing to create overlapping subareas")
'''),
 ('@SegmentStrip._update_subarea', '''
def _update_subarea(self, device_type, xsi1, xsi2, xsi_h1, xsi_h2):
    """Update"""
    keys = {'slat': ('xsi_d', 'xsi_c', 'xsi_a', 'xsi_b'), 'flap': ('xsi_a', 'xsi_b', 'xsi_d', 'xsi_c')}
    if device_type not in keys:
        return
    own1, own2, seg1, seg2 = keys[device_type]
    area, segment = self.subarea[device_type], self.subarea['segment']
    area.rel_vertices.update({own1: xsi1, own2: xsi2})
    segment.rel_vertices.update({seg1: xsi1, seg2: xsi2})
    area.rel_hinge_vertices.update(xsi_h1=xsi_h1, xsi_h2=xsi_h2)
'''),
])

R('ac_control_subdivisions', GEO, F, [
 ('''        # CASE 1: Newly created subdivisions ends exactly on desired line
        if eta_b == eta_b_sd1:
            pass
        # CASE 2: There is no more subdivisions before eta_b
        elif eta_b < eta_b_sd1:
''', '''        def at(eta):
            return (xsi_interpol(self.vertices, (eta_a, xsi1), (eta_b, xsi2), eta),
                    xsi_interpol(self.vertices, (eta_a, xsi_h1), (eta_b, xsi_h2), eta))

        # CASE 2: There is no more subdivisions before eta_b
        if eta_b < eta_b_sd1:
'''),
 ('''            # Update inner and outer coordinates for subarea lines
            xsi_div = xsi_interpol(self.vertices, (eta_a, xsi1), (eta_b, xsi2), eta_b_sd1)
            xsi_h_div = xsi_interpol(self.vertices, (eta_a, xsi_h1), (eta_b, xsi_h2), eta_b_sd1)
''', '''            xsi_div, xsi_h_div = at(eta_b_sd1)
'''),
 ('''                xsi_div = xsi_interpol(self.vertices, (eta_a, xsi1), (eta_b, xsi2), eta_b_ln)
                xsi_h_div = xsi_interpol(self.vertices, (eta_a, xsi_h1), (eta_b, xsi_h2), eta_b_ln)
''', '''                xsi_div, xsi_h_div = at(eta_b_ln)
'''),
 ('''        for row in sd_list:
            subdivision, xsi1, xsi2, xsi_h1, xsi_h2 = row
            subdivision._add_subarea(parent_control, xsi1, xsi2, xsi_h1, xsi_h2)

        return sd_list[:][0]''', '''        for strip, *positions in sd_list:
            strip._add_subarea(parent_control, *positions)

        return sd_list[0]'''),
 ('@WingSegment.get_deformed_segment_point', '''
def get_deformed_segment_point(self, eta, xsi, mirror=False):
    """Point of the deformed segment"""
    point = get_abs_segment_point_coords(self.vertices, eta, xsi)
    wing = self.parent_wing
    field = wing.def_field_mirror if mirror else wing.def_field
    if mirror:
        point = mirror_point(point, plane=self.symmetry)
    return point if field is None else get_deformed_point(point, field.copy())
'''),
 ('@Wing.is_deformed', '''
@property
def is_deformed(self):
    return not (self.def_field is None and self.def_field_mirror is None)
'''),
 ('@Wing.span', '''
@property
def span(self):
    """Return the wing span"""
    return sum(abs(segment.geometry['span']) for segment in self.segments.values())
'''),
])

R('ac_generate', 'C18 C23 C26 C16', F, [
 ('''        # ----- Generate edge A, D -----
''', '''        def edge_swaps(point_sets, swaps):
            for keys in swaps:
                point_sets = [tuple(s['abcd'.index(k)] for k in keys) for s in point_sets]
            return point_sets

        # ----- Generate edge A, D -----
'''),
 ('''            # Invert span-wise orientation for negative span
            if self.geometry['span'] < 0:
                a_x, b_x, c_x, d_x = b_x, a_x, d_x, c_x
                a_y, b_y, c_y, d_y = b_y, a_y, d_y, c_y
                a_z, b_z, c_z, d_z = b_z, a_z, d_z, c_z

            # Invert span-wise orientation for x < -90.0 or x > +90.0
            if abs(self.geometry['dihedral']) > 90.0:
                a_x, b_x, c_x, d_x = b_x, a_x, d_x, c_x
                a_y, b_y, c_y, d_y = b_y, a_y, d_y, c_y
                a_z, b_z, c_z, d_z = b_z, a_z, d_z, c_z
''', '''            swaps = []
            if self.geometry['span'] < 0:
                swaps.append('badc')
            if not -90.0 <= self.geometry['dihedral'] <= 90.0:
                swaps.append('badc')
            (a_x, b_x, c_x, d_x), (a_y, b_y, c_y, d_y), (a_z, b_z, c_z, d_z) = edge_swaps(
                [(a_x, b_x, c_x, d_x), (a_y, b_y, c_y, d_y), (a_z, b_z, c_z, d_z)], swaps)
'''),
 ('''            # Translate [0.0, 0.0, 0.0] by absolute position of reference
            a_x += self.vertices[point][0] - adjust[point][0]
            a_y += self.vertices[point][1] - adjust[point][1]
            a_z += self.vertices[point][2] - adjust[point][2]

            b_x += self.vertices[point][0] - adjust[point][0]
            b_y += self.vertices[point][1] - adjust[point][1]
            b_z += self.vertices[point][2] - adjust[point][2]

            c_x += self.vertices[point][0] - adjust[point][0]
            c_y += self.vertices[point][1] - adjust[point][1]
            c_z += self.vertices[point][2] - adjust[point][2]

            d_x += self.vertices[point][0] - adjust[point][0]
            d_y += self.vertices[point][1] - adjust[point][1]
            d_z += self.vertices[point][2] - adjust[point][2]
''', '''            shift = np.asarray(self.vertices[point]) - np.array(adjust[point])
            moved = {k: np.array(v) + shift for k, v in adjust.items()}
            a_x, a_y, a_z = moved['a']
            b_x, b_y, b_z = moved['b']
            c_x, c_y, c_z = moved['c']
            d_x, d_y, d_z = moved['d']
'''),
 ('''            b_x = self.vertices['b'][0] - self.vertices['a'][0]
            b_y = self.vertices['b'][1] - self.vertices['a'][1]
            b_z = self.vertices['b'][2] - self.vertices['a'][2]
''', '''            b_x, b_y, b_z = np.subtract(self.vertices['b'], self.vertices['a'])
'''),
 ('''            self.geometry['span'] = sqrt(b_y*b_y + b_z*b_z)''', '''            self.geometry['span'] = sqrt(b_y**2 + b_z**2)'''),
 ('@WingSegment.area', '''
@property
def area(self):
    mean_chord = (self.geometry['outer_chord'] + self.geometry['inner_chord'])/2
    return mean_chord*self.geometry['span']
'''),
 ('@Aircraft.area', '''
@property
def area(self):
    """Aircraft area as sum of wing areas"""
    return sum([wing.area for wing in self.wings.values()])
'''),
 ('@Aircraft.has_deformed_wings', '''
@property
def has_deformed_wings(self):
    """True if any wing are deformed"""
    return any(wing.is_deformed for wing in self.wings.values())
'''),
])

R('ac_size', 'C18 C23 C27', F, [
 ('''        bbox = np.zeros((2, 3))

        for wing_uid, wing in self.wings.items():
            for segment_uid, segment in wing.segments.items():
''', '''        lower, upper = np.zeros(3), np.zeros(3)
        for wing in self.wings.values():
            for segment in wing.segments.values():
                points = np.array([segment.vertices[k] for k in 'abcd'])
                if wing.symmetry:
                    mirrored = points.copy()
                    axis = {1: 2, 2: 1, 3: 0}[wing.symmetry]
                    mirrored[:, axis] = -mirrored[:, axis]
                    points = np.vstack((points, mirrored))
                lower = np.minimum(lower, points.min(axis=0))
                upper = np.maximum(upper, points.max(axis=0))
        return np.sqrt(np.sum((upper - lower)**2))

        bbox = np.zeros((2, 3))
        for wing_uid, wing in self.wings.items():
            for segment_uid, segment in wing.segments.items():
'''),
])

R('ac_check', 'C23 C26 C25', F, [
 ('''        if self.deflection is None:
            raise ComponentDefinitionError("'deflection' is not defined.")
        elif not isinstance(self.deflection, (float, int)):
            raise TypeError("'deflection' must be FLOAT.")
        elif not -90.0 <= self.deflection <= +90.0:
            raise ValueError("'deflection' must be between -90.0 and +90.0 [deg].")
        else:
            self.deflection = float(self.deflection)
''', '''        if self.deflection is None:
            raise ComponentDefinitionError("'deflection' is not defined.")
        self.deflection = self._checked_angle(self.deflection)
'''),
 ('''        elif not isinstance(self.deflection_mirror, (float, int)):
            raise TypeError("'deflection' must be FLOAT.")
        elif not -90.0 <= self.deflection_mirror <= +90.0:
            raise ValueError("'deflection' must be between -90.0 and +90.0 [deg].")
        else:
            self.deflection_mirror = float(self.deflection_mirror)
''', '''        else:
            self.deflection_mirror = self._checked_angle(self.deflection_mirror)

    @staticmethod
    def _checked_angle(angle):
        if not isinstance(angle, (int, float)):
            raise TypeError("'deflection' must be FLOAT.")
        if abs(angle) > 90.0:
            raise ValueError("'deflection' must be between -90.0 and +90.0 [deg].")
        return float(angle)
'''),
 ('@WingControl.abs_vertices', '''
@property
def abs_vertices(self):
    """Get absolute coordinates of the control"""
    rel = self.rel_vertices
    segments = self.parent_wing.segments
    inner = segments[self.segment_uid['inner']].vertices
    outer = segments[self.segment_uid['outer']].vertices
    flap = self.device_type == 'flap'
    le = (rel['xsi_inner'], rel['xsi_outer']) if flap else (0, 0)
    te = (1, 1) if flap else (rel['xsi_inner'], rel['xsi_outer'])
    return {
        'a': get_abs_segment_point_coords(inner, rel['eta_inner'], le[0]),
        'b': get_abs_segment_point_coords(outer, rel['eta_outer'], le[1]),
        'c': get_abs_segment_point_coords(outer, rel['eta_outer'], te[1]),
        'd': get_abs_segment_point_coords(inner, rel['eta_inner'], te[0]),
    }
'''),
 ('@WingControl.abs_hinge_vertices', '''
@property
def abs_hinge_vertices(self):
    """Get absolute hinge coordinates of the control"""
    out = {}
    for side in ('inner', 'outer'):
        vertices = self.parent_wing.segments[self.segment_uid[side]].vertices
        out['p_' + side] = get_abs_segment_point_coords(
            vertices, self.rel_vertices['eta_' + side], self.rel_hinge_vertices['xsi_' + side])
    return out
'''),
])
