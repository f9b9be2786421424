REFS = []
def R(id, checks, file, edits):
    REFS.append(dict(id=id, checks=checks.split(), file=file, edits=edits))

R('state_rewrite', 'C19 C20 C21 C22 C26', 'objects/state.py', [
 ('@FlightState.free_stream_velocity_vector', '''
@staticmethod
def _direction(alpha, beta):
    a, b = deg2rad(alpha), deg2rad(beta)
    return np.array([cos(b)*cos(a), -sin(b), cos(b)*sin(a)])

@property
def free_stream_velocity_vector(self):
    """Return the free stream velocity vector (incoming flow)"""
    i = self.idx_current_state
    alpha, beta, airspeed = (self.aero[param][i] for param in (ALPHA, BETA, AIRSPEED))
    if alpha is None or beta is None or airspeed is None:
        raise RuntimeError("'alpha', 'beta' and 'airspeed' must be set")
    return self._direction(alpha, beta)*airspeed
'''),
 ('''        array_lenghts = set()
        for key, value in aero.items():
            # Parameters set to 'None' (or 'null') are not defined
            if value is None:
                self.aero[key] = None
                continue

            if not isinstance(value, list):
                value = [value]
            array_lenghts.add(len(value))
            self.aero[key] = value

        if len(array_lenghts) > 1:
            raise ValueError("State arrays have different lenghts!")

        self.num_apm_entries = int(list(array_lenghts)[0])
''', '''        given = {key: value if isinstance(value, list) else [value]
                 for key, value in aero.items() if value is not None}
        self.aero.update({key: given.get(key) for key in aero})
        lengths = [len(value) for value in given.values()]
        if min(lengths) != max(lengths):
            raise ValueError("State arrays have different lenghts!")
        self.num_apm_entries = lengths[0]
'''),
 ('''            atmosphere = Atmosphere(self.aero[ALTITUDE])
            density = np.array(atmosphere.density)
            speed_of_sound = np.array(atmosphere.speed_of_sound)

        if not is_input[DENSITY]:
            self.aero[DENSITY] = density

        if is_input[MACH]:
            self.aero[AIRSPEED] = self.aero[MACH]*speed_of_sound
''', '''            atmosphere = Atmosphere(self.aero[ALTITUDE])
            self.aero[DENSITY] = np.asarray(atmosphere.density)
            if is_input[MACH]:
                self.aero[AIRSPEED] = np.multiply(atmosphere.speed_of_sound, self.aero[MACH])
'''),
 ('@FlightState.check_values', '''
def check_values(self):
    """Make sure input values have correct format"""
    for angle in (BETA, ALPHA):
        if np.any(np.abs(self.aero[angle]) > 90):
            raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
'''),
 ('@FlightState.iter_states', '''
def _state(self, i):
    self.idx_current_state = i
    state = CurrentState()
    state.aero = {param: float(self.aero[param][i]) for param in STATE_PRIMARY_PARAMS}
    state.free_stream_velocity_vector = self.free_stream_velocity_vector
    return state

def iter_states(self):
    """Iterator"""
    yield from map(self._state, range(self.num_apm_entries))
'''),
])

R('state_rewrite2', 'C19 C20 C21 C22 C26', 'objects/state.py', [
 ('''        is_input = {prop: False for prop in all_props}
        for prop in all_props:
            if self.aero[prop] is not None:
                if all(isinstance(value, (int, float)) for value in self.aero[prop]):
                    is_input[prop] = True

        input_props = set(prop for prop in all_props if is_input[prop] is True)
''', '''        def is_numeric(values):
            return values is not None and all(isinstance(v, (float, int)) for v in values)

        is_input = {prop: is_numeric(self.aero[prop]) for prop in all_props}
        input_props = {prop for prop, given in is_input.items() if given}
'''),
 ('''        for prop in STATE_ALL_PARAMS:
            if self.aero[prop] is not None:
                self.aero[prop] = np.array(self.aero[prop], dtype=float)
''', '''        self.aero.update({prop: np.asarray(self.aero[prop], dtype=np.float64)
                          for prop in STATE_ALL_PARAMS if self.aero[prop] is not None})
'''),
 ('''            range_is_not_ok = (self.aero[angle] < -90) | (self.aero[angle] > 90)
            if any(range_is_not_ok):''', '''            values = self.aero[angle]
            if not np.all(np.logical_and(values >= -90, values <= 90)):'''),
 ('''        free_stream_vel = airspeed*np.array([cos(alpha)*cos(beta),
                                             -sin(beta),
                                             sin(alpha)*cos(beta)])

        return free_stream_vel
''', '''        ca, sa = np.cos(alpha), np.sin(alpha)
        cb, sb = np.cos(beta), np.sin(beta)
        free_stream_vel = np.empty(3)
        free_stream_vel[0] = airspeed*ca*cb
        free_stream_vel[1] = -airspeed*sb
        free_stream_vel[2] = airspeed*sa*cb
        return free_stream_vel
'''),
])

R('io_state_settings', 'C19 C20 C21 C24 C22 C23', 'fileio/native/state.py', [
 ('''    with open(state_file, 'r') as fp:
        state_dict = json.load(fp)

    state = FlightState()
    state.update_from_dict(**state_dict)
    return state''', '''    with open(state_file) as fp:
        content = fp.read()
    state = FlightState()
    state.update_from_dict(**json.loads(content))
    return state'''),
 ('fileio/native/settings.py', '@clean_dict', '''
def clean_dict(dictionary, to_del='_'):
    """Delete hidden items"""
    for key in [k for k in dictionary if k.startswith(to_del)]:
        dictionary.pop(key)
    for value in dictionary.values():
        if isinstance(value, dict):
            clean_dict(value, to_del)
    return dictionary
'''),
 ('fileio/native/settings.py', '''    with open(settings_filepath, 'r') as fp:
        settings_dict = json.load(fp)

    settings = Settings(settings_filename, wkdir, settings_dict=settings_dict)
    return settings''', '''    settings_dict = json.loads(settings_filepath.read_text())
    return Settings(settings_filename, wkdir, settings_dict=settings_dict)'''),
 ('fileio/native/settings.py', '''    output = clean_dict(deepcopy(settings.settings))
    with open(set_file, 'w') as fp:
        dump_pretty_json(output, fp)''', '''    with set_file.open('w') as fp:
        dump_pretty_json(clean_dict(deepcopy(settings.settings)), fp)'''),
 ('objects/settings.py', '''        if not (0 < self.settings['_epsilon'] < 1):
            raise''', '''        epsilon = self.settings['_epsilon']
        if epsilon <= 0 or epsilon >= 1:
            raise'''),
 ('objects/settings.py', '''        for key, value in settings_dict.items():
            # Options missing in 'sub-dictionaries' keep their values
            if isinstance(value, dict) and isinstance(self.settings.get(key), dict):
                update_nested_dict(self.settings[key], value)
            else:
                self.settings[key] = deepcopy(value)
''', '''        update_nested_dict(self.settings, settings_dict)
'''),
 ('objects/utils.py', '@get_default_dict', '''
def get_default_dict(template_dict):
    """Default dict"""
    def default(value):
        if isinstance(value, dict) and value:
            return get_default_dict(value)
        return deepcopy(value)
    return {key: default(value) for key, (value, _) in template_dict.items()}
'''),
 ('objects/utils.py', '@check_dict', '''
def check_dict(template_dict, test_dict):
    """Check"""
    for key, (value, dtype) in template_dict.items():
        dtypes = dtype if isinstance(dtype, tuple) else (dtype,)
        if None in dtypes:
            continue
        if not isinstance(test_dict[key], dtypes):
            raise TypeError(f"Unexpected data type for key '{key}'. Expected {dtypes}, got {type(test_dict[key])}.")
        if dtypes[0] is dict:
            check_dict(value, test_dict[key])
'''),
])

R('io_aircraft', 'C23 C21 C17', 'fileio/native/aircraft.py', [
 ('''    with open(aircraft_file, 'r') as fp:
        aircraft_dict = json.load(fp)
''', '''    from pathlib import Path
    aircraft_dict = json.loads(Path(aircraft_file).read_text(encoding='utf-8'))
'''),
 ('''    for key, value in aircraft_dict['refs'].items():
        aircraft.refs[key] = value
''', '''    aircraft.refs.update(aircraft_dict['refs'])
'''),
 ('''            for key, value in segment_entry['vertices'].items():
                segment.vertices[key] = value

            if segment_entry.get('geometry', None):
                for key, value in segment_entry['geometry'].items():
                    segment.geometry[key] = value
''', '''            segment.vertices.update(segment_entry['vertices'])
            segment.geometry.update(segment_entry.get('geometry') or {})
'''),
 ('''            if segment_entry.get('panels', None):
                for key, value in segment_entry['panels'].items():
                    segment.panels[key] = value
''', '''            segment.panels.update(segment_entry.get('panels') or {})
'''),
 ('''            for key, value in control_entry['segment_uid'].items():
                control.segment_uid[key] = value

            for key, value in control_entry['rel_vertices'].items():
                control.rel_vertices[key] = value

            for key, value in control_entry['rel_hinge_vertices'].items():
                control.rel_hinge_vertices[key] = value

            if control_entry.get('panels', None):
                control.panels['num_c'] = control_entry['panels'].get('num_c', None)
''', '''            for name in ('segment_uid', 'rel_vertices', 'rel_hinge_vertices'):
                getattr(control, name).update(control_entry[name])
            control.panels['num_c'] = (control_entry.get('panels') or {}).get('num_c')
'''),
 ('@save', '''
def _segment_dict(segment):
    def airfoil(value):
        if "blade." not in value:
            return value
        return os.path.join(PATHS.DIR.AIRFOILS, os.path.basename(value))

    return {
        'uid': segment.uid,
        'vertices': dict(segment.vertices),
        'geometry': dict(segment.geometry),
        'airfoils': {key: airfoil(value) for key, value in segment.airfoils.items()},
        'panels': dict(segment.panels),
    }


def _control_dict(control):
    entry = {key: getattr(control, key) for key in ('uid', 'device_type', 'deflection', 'deflection_mirror')}
    for key in ('segment_uid', 'rel_vertices', 'rel_hinge_vertices', 'panels'):
        entry[key] = dict(getattr(control, key))
    return entry


def save(aircraft, settings):
    """Serialise"""
    filepath = settings.paths('f_aircraft')
    output = {
        'uid': aircraft.uid,
        'refs': dict(aircraft.refs),
        'wings': [{
            'uid': wing.uid,
            'symmetry': wing.symmetry,
            'segments': [_segment_dict(s) for s in wing.segments.values()],
            'controls': [_control_dict(c) for c in wing.controls.values()],
        } for wing in aircraft.wings.values()],
    }
    with open(str(filepath), 'w') as fp:
        dump_pretty_json(output, fp)
'''),
 ('fileio/native/deformation.py', '''    for wing_uid, def_field in def_fields.items():
''', '''    for wing_uid in sorted(def_fields):
        def_field = def_fields[wing_uid]
'''),
 ('fileio/native/deformation.py', '''        if wing_uid.endswith('_m'):
            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
            continue

        aircraft.wings[wing_uid].def_field = def_field
''', '''        mirrored = wing_uid[-2:] == '_m'
        wing = aircraft.wings[wing_uid[:-2] if mirrored else wing_uid]
        setattr(wing, 'def_field_mirror' if mirrored else 'def_field', def_field)
'''),
])

R('io_results', 'C22 C21', 'fileio/native/results.py', [
 ('''    if settings.settings['save_results']['global']:
        _save_glob_results(state, vlmdata, settings)

    if settings.settings['save_results']['panelwise']:
        _save_panelwise(state, vlmdata, settings)

    if settings.settings['save_results']['matrix_system']:
        _save_matrix_system(state, vlmdata, settings)
''', '''    writers = {
        'matrix_system': _save_matrix_system,
        'global': _save_glob_results,
        'panelwise': _save_panelwise,
    }
    options = settings.settings['save_results']
    for name, writer in writers.items():
        if options[name]:
            writer(state, vlmdata, settings)
'''),
 ('''    output = {}
    output['aero'] = {k: v for k, v in state.aero.items()}
    output['refs'] = {k: v for k, v in state.refs.items()}
    output['global_forces'] = {k: v for k, v in vlmdata.forces.items()}
    output['global_coeffs'] = {k: v for k, v in vlmdata.coeffs.items()}

    with open(filepath, "w") as fp:
        dump_pretty_json(output, fp)
''', '''    output = dict(
        aero=dict(state.aero),
        refs=dict(state.refs),
        global_forces=dict(vlmdata.forces),
        global_coeffs=dict(vlmdata.coeffs),
    )
    with filepath.open("w") as fp:
        dump_pretty_json(output, fp)
'''),
 ('''    data = np.stack([vlmdata.panelwise[data_key] for (data_key, _) in data_keys], axis=-1)
    fmt = [FMT_NUM for _ in data_keys]
''', '''    data = np.column_stack([vlmdata.panelwise[data_key] for (data_key, _) in data_keys])
    fmt = FMT_NUM
'''),
 ('''    header = ''
    for i, (data_key, unit) in enumerate(data_keys):
        header += f'{data_key} [{unit}]'.center(field_size)
        field_size = 14
''', '''    titles = [f'{data_key} [{unit}]' for data_key, unit in data_keys]
    header = titles[0].center(field_size) + ''.join(title.center(14) for title in titles[1:])
'''),
 ('''    rhs = vlmdata.array_rhs.reshape((vlmdata.matrix_downwash.shape[0], 1))
    data = np.concatenate([matrix, rhs], axis=1)
''', '''    data = np.hstack((matrix, vlmdata.array_rhs[:, np.newaxis]))
'''),
 ('''    output = {}
    for dictionary in [state.aero, state.results]:
        for k, v in dictionary.items():
            output[k] = list(v) if v is not None else []
''', '''    output = {k: [] if v is None else list(v) for d in (state.aero, state.results) for k, v in d.items()}
'''),
])

R('run_rewrite', 'C21 C22', 'stdfun/run.py', [
 ('''        # Save AeroPerformance map results
        state.results['Fx'].append(vlmdata.forces['x'])
        state.results['Fy'].append(vlmdata.forces['y'])
        state.results['Fz'].append(vlmdata.forces['z'])
        state.results['FD'].append(vlmdata.forces['D'])
        state.results['FC'].append(vlmdata.forces['C'])
        state.results['FL'].append(vlmdata.forces['L'])
        state.results['Mx'].append(vlmdata.forces['l'])
        state.results['My'].append(vlmdata.forces['m'])
        state.results['Mz'].append(vlmdata.forces['n'])
        ####
        state.results['Cx'].append(vlmdata.coeffs['x'])
        state.results['Cy'].append(vlmdata.coeffs['y'])
        state.results['Cz'].append(vlmdata.coeffs['z'])
        state.results['CD'].append(vlmdata.coeffs['D'])
        state.results['CC'].append(vlmdata.coeffs['C'])
        state.results['CL'].append(vlmdata.coeffs['L'])
        state.results['Cl'].append(vlmdata.coeffs['l'])
        state.results['Cm'].append(vlmdata.coeffs['m'])
        state.results['Cn'].append(vlmdata.coeffs['n'])
''', '''        _append_results(state, vlmdata)
'''),
 ('def standard_run(args):', '''def _append_results(state, vlmdata):
    """Append the loads of the current state"""
    names = {**{'F' + k: k for k in 'xyzDCL'}, 'Mx': 'l', 'My': 'm', 'Mz': 'n'}
    for name, key in names.items():
        state.results[name].append(vlmdata.forces[key])
    for key in 'xyzDCLlmn':
        state.results['C' + key].append(vlmdata.coeffs[key])


def _analyse(aircraft, cur_state, settings, vlmdata, first):
    lattice = vlm.gen_lattice(aircraft, cur_state, settings, first)
    vlm.calc_boundary(lattice, cur_state, vlmdata)
    vlm.calc_downwash(lattice, vlmdata)
    vlm.solver(vlmdata)
    vlm.calc_results(lattice, cur_state, vlmdata)
    return lattice


def standard_run(args):'''),
 ('''        make_new_subareas = True if i == 0 else False
''', '''        make_new_subareas = not i
'''),
 ('''        lattice = vlm.gen_lattice(aircraft, cur_state, settings, make_new_subareas)
''', '''        lattice = _analyse(aircraft, cur_state, settings, vlmdata, make_new_subareas)
'''),
 ('''        vlm.calc_downwash(lattice, vlmdata)
        vlm.calc_boundary(lattice, cur_state, vlmdata)  # right-hand side terms
        vlm.solver(vlmdata)
        vlm.calc_results(lattice, cur_state, vlmdata)

        # ===== Create''', '''        # ===== Create'''),
])
