REFS = []
def R(id, checks, file, edits):
    REFS.append(dict(id=id, checks=checks.split(), file=file, edits=edits))

R('cp_segments', 'C26', 'fileio/cpacs/aircraft.py', [
 ('''        num_reversed = 0
        if b[1] - a[1] < 0.0 or (b[1] == a[1] and b[2] - a[2] < 0.0):
            a, b, c, d = b, a, c, d
            num_reversed += 1
        if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):
            a, b, c, d = a, b, d, c
            num_reversed += 1
        if d[0] - a[0] < 0.0:
            a, b, c, d = d, b, c, a
        if c[0] - b[0] < 0.0:
            a, b, c, d = a, c, b, d
''', '''        is_reversed_le = _is_reversed(a, b)
        is_reversed_te = _is_reversed(d, c)
        if is_reversed_le:
            a, b = b, a
        if is_reversed_te:
            c, d = d, c
        if d[0] < a[0]:
            a, d = d, a
        if c[0] < b[0]:
            b, c = c, b
'''),
 ('''        aircraft.wings[wing_uid].segments[segment_uid].vertices['a'] = a
        aircraft.wings[wing_uid].segments[segment_uid].vertices['b'] = b
        aircraft.wings[wing_uid].segments[segment_uid].vertices['c'] = c
        aircraft.wings[wing_uid].segments[segment_uid].vertices['d'] = d
''', '''        segment = aircraft.wings[wing_uid].segments[segment_uid]
        for name, vertex in zip('abcd', (a, b, c, d)):
            segment.vertices[name] = vertex
'''),
 ('is_reversed=(num_reversed == 2))', 'is_reversed=(is_reversed_le and is_reversed_te))'),
 ('''def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
''', '''def _is_reversed(inner, outer):
    """Return True if the edge points inwards"""

    if outer[1] == inner[1]:
        return outer[2] < inner[2]
    return outer[1] < inner[1]


def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
'''),
 ('@get_aircraft_refs', '''
def get_aircraft_refs(aircraft, tixi):
    """Refs"""

    point = [tixi.getDoubleElement(XPATHS.REFS + f'/point/{axis}') for axis in 'xyz']
    for center in ('gcenter', 'rcenter'):
        aircraft.refs[center] = np.array(point, dtype=float)

    length = tixi.getDoubleElement(XPATHS.REFS + '/length')
    aircraft.refs.update(area=tixi.getDoubleElement(XPATHS.REFS + '/area'), span=length, chord=length)
'''),
 ('@get_aircraft_airfoils', '''
def get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment,
                          is_reversed=False):
    """Airfoils"""

    inner, outer = tigl.wingGetInnerSectionAndElementIndex, tigl.wingGetOuterSectionAndElementIndex
    if is_reversed:
        inner, outer = outer, inner

    airfoils = aircraft.wings[wing_uid].segments[segment_uid].airfoils
    for position, get_indices in (('inner', inner), ('outer', outer)):
        idx_section, idx_elem = get_indices(idx_wing, idx_segment)
        name = parse_str(tigl.wingGetProfileName(idx_wing, idx_section, idx_elem))
        if not name:
            raise ValueError(f"CPACS error: Could not extract {position} airfoil name")
        airfoils[position] = str(join_paths(settings.paths('root'), PATHS.FILES.AIRFOIL(name)))
'''),
 ('fileio/cpacs/utils.py', '@get_segment_mid_point', '''
def get_segment_mid_point(tigl, idx_wing, idx_segment, eta, xsi):
    """Mid"""

    low = tigl.wingGetLowerPoint(idx_wing, idx_segment, eta, xsi)
    up = tigl.wingGetUpperPoint(idx_wing, idx_segment, eta, xsi)
    return [0.5*(low[i] + up[i]) for i in range(3)]
'''),
 ('fileio/cpacs/utils.py', '@add_vector', '''
def add_vector(tixi, xpath, vector):
    """Vector"""

    xpath = xpath[:-1] if xpath[-1:] == '/' else xpath
    parent, _, child = xpath.rpartition('/')
    if not tixi.checkElement(xpath):
        tixi.addFloatVector(parent, child, vector, len(vector), format='%g')
        return
    tixi.updateFloatVector(xpath, vector, len(vector), format='%g')
'''),
])

R('cp_controls', 'C26', 'fileio/cpacs/aircraft.py', [
 ('''                    etaLE_ib = tixi.getDoubleElement(node_control + "/outerShape/innerBorder/etaLE/eta")
                    etaTE_ib = tixi.getDoubleElement(node_control + "/outerShape/innerBorder/etaTE/eta")
                    xsiLE_ib = tixi.getDoubleElement(node_control + "/outerShape/innerBorder/xsiLE/xsi")
                    etaLE_ob = tixi.getDoubleElement(node_control + "/outerShape/outerBorder/etaLE/eta")
                    etaTE_ob = tixi.getDoubleElement(node_control + "/outerShape/outerBorder/etaTE/eta")
                    xsiLE_ob = tixi.getDoubleElement(node_control + "/outerShape/outerBorder/xsiLE/xsi")
''', '''                    etaLE_ib, etaTE_ib, xsiLE_ib = _get_border(tixi, node_control, 'inner')
                    etaLE_ob, etaTE_ob, xsiLE_ob = _get_border(tixi, node_control, 'outer')
'''),
 ('''                    _, segment_uid_inner, eta_inner, xsi_inner = tigl.get_eta_xsi(name_comp_section, etaLE_ib, xsiLE_ib)
                    _, segment_uid_outer, eta_outer, xsi_outer = tigl.get_eta_xsi(name_comp_section, etaLE_ob, xsiLE_ob)

                    # Relative coordinates of control hinge line w.r.t. component segment
                    _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, etaLE_ib, hingeXsi_ib)
                    _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)
''', '''                    segment_uid_inner, eta_inner, xsi_inner = tigl.get_eta_xsi(name_comp_section, etaLE_ib, xsiLE_ib)[1:]
                    segment_uid_outer, eta_outer, xsi_outer = tigl.get_eta_xsi(name_comp_section, etaLE_ob, xsiLE_ob)[1:]
                    xsi_h1 = tigl.get_eta_xsi(name_comp_section, etaLE_ib, hingeXsi_ib)[-1]
                    xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)[-1]
'''),
 ('''                control.rel_vertices['eta_inner'] = eta_inner
                control.rel_vertices['xsi_inner'] = xsi_inner
                control.rel_vertices['eta_outer'] = eta_outer
                control.rel_vertices['xsi_outer'] = xsi_outer

                control.rel_hinge_vertices['xsi_inner'] = xsi_h1
                control.rel_hinge_vertices['xsi_outer'] = xsi_h2

                control.segment_uid['inner'] = segment_uid_inner
                control.segment_uid['outer'] = segment_uid_outer
''', '''                for side, eta, xsi, xsi_h, segment_uid in (
                    ('inner', eta_inner, xsi_inner, xsi_h1, segment_uid_inner),
                    ('outer', eta_outer, xsi_outer, xsi_h2, segment_uid_outer),
                ):
                    control.rel_vertices[f'eta_{side}'] = eta
                    control.rel_vertices[f'xsi_{side}'] = xsi
                    control.rel_hinge_vertices[f'xsi_{side}'] = xsi_h
                    control.segment_uid[side] = segment_uid
'''),
 ('''def get_aircraft_control_deflections(aircraft, tixi):
''', '''def _get_border(tixi, node_control, side):
    node = f"{node_control}/outerShape/{side}Border"
    names = ('etaLE/eta', 'etaTE/eta', 'xsiLE/xsi')
    return tuple(tixi.getDoubleElement(node + '/' + name) for name in names)


def get_aircraft_control_deflections(aircraft, tixi):
'''),
 ('''        deflection_is_set = False

        for this_wing in all_wings(aircraft):
            wing = this_wing[2]

            if control_uid in wing.controls.keys():
                wing.controls[control_uid].deflection = deflection
                wing.controls[control_uid].deflection_mirror = deflection_mirror
                deflection_is_set = True
                break

        if not deflection_is_set:
            logger''', '''        for _, _, wing in all_wings(aircraft):
            control = wing.controls.get(control_uid)
            if control is not None:
                control.deflection, control.deflection_mirror = deflection, deflection_mirror
                break
        else:
            logger'''),
 ('''    for this_control, _ in all_controls(aircraft):
        this_control[2].check()
''', '''    for wing in aircraft.wings.values():
        for control in wing.controls.values():
            control.check()
'''),
 ('@get_aircraft_name', '''
def get_aircraft_name(aircraft, tixi):
    """Name"""

    aircraft.uid = 'NAME_NOT_FOUND'
    if tixi.checkElement(XPATHS.MODEL):
        aircraft.uid = parse_str(tixi.getTextAttribute(XPATHS.MODEL, 'uID'))
'''),
 ('@write_airfoil_files', '''
def write_airfoil_files(settings, tixi):
    """Write"""

    for i in range(1, tixi.getNumberOfChilds(XPATHS.AIRFOILS) + 1):
        node = f"{XPATHS.AIRFOILS}/wingAirfoil[{i}]"
        try:
            name = parse_str(tixi.getTextElement(f'{node}/name'))
        except tixiwrapper.TixiException:
            name = f'AIRFOIL{i:02d}'

        x, z = (np.fromstring(tixi.getTextElement(f'{node}/pointList/{axis}'), sep=';') for axis in 'xz')
        file_airfoil = join_paths(settings.paths('root'), PATHS.FILES.AIRFOIL(name))
        np.savetxt(file_airfoil, np.column_stack((x, z)), header=name, fmt=COORD_FORMAT)
'''),
])

R('cp_state', 'C26', 'fileio/cpacs/state.py', [
 ('@_get_aero_dict_from_APM', '''
def _get_aero_dict_from_APM(tixi):
    """APM"""

    xpath_apm = XPATHS.APM(tixi)

    def get_values(key):
        xpath = f"{xpath_apm}/{key}"
        return list(tixi.getFloatVector(xpath, tixi.getVectorSize(xpath)))

    aero = {
        ALTITUDE: get_values('altitude'),
        ALPHA: get_values('angleOfAttack'),
        BETA: get_values('angleOfSideslip'),
        MACH: get_values('machNumber'),
    }
    num = len(aero[ALTITUDE])
    if any(len(values) != num for values in aero.values()):
        raise ValueError("CPACS AeroPerformanceMap contains vectors of different length.")

    aero.update({rate: [0 for _ in range(num)] for rate in (RATE_P, RATE_Q, RATE_R)})
    return {"aero": aero}
'''),
 ('fileio/cpacs/results.py', '@save_aeroperformance_map', '''
_CPACS_COEFFS = {'cl': 'CL', 'cd': 'CD', 'cs': 'CC', 'cmd': 'Cl', 'cms': 'Cm', 'cml': 'Cn'}


def save_aeroperformance_map(state, settings):
    """Save"""

    cpacs_file = settings.paths('f_aircraft')
    logger.info(f"Writing aeroperformance map results to '{truncate_filepath(cpacs_file)}'")
    with modify_cpacs(cpacs_file) as tixi:
        xpath_apm = XPATHS.APM(tixi)
        for key_cpacs, key_native in _CPACS_COEFFS.items():
            add_vector(tixi, '/'.join([xpath_apm, key_cpacs]), state.results[key_native])
'''),
 ('fileio/cpacs/utils.py', '@_XPaths.APM', '''
@classmethod
def APM(cls, tixi):
    """APM"""
    return tixi.uIDGetXPath(cls._get_uid_apm(tixi)) + '/aeroPerformanceMap'
'''),
 ('fileio/cpacs/utils.py', '@_XPaths._get_uid_apm', '''
@classmethod
def _get_uid_apm(cls, tixi):
    """UID"""
    if tixi.getNumberOfChilds(cls.APMAP) != 1:
        return tixi.getTextElement(cls.TOOLSPEC + '/aeroMapUID')
    return tixi.getTextAttribute(cls.APMAP + '/aeroMap', 'uID')
'''),
])
