V="aero/vlm.py"; A="objects/aircraft.py"; L="aero/c_lattice.cpp"; S="objects/state.py"; U="stdfun/run.py"
NA="fileio/native/aircraft.py"; ST="objects/settings.py"; NS="fileio/native/settings.py"; NST="fileio/native/state.py"; ND="fileio/native/deformation.py"
NR="fileio/native/results.py"; OU="objects/utils.py"; VS="objects/vlm_struct.py"; FU="fileio/utils.py"
CA="fileio/cpacs/aircraft.py"; CS="fileio/cpacs/state.py"; CR="fileio/cpacs/results.py"; CU="fileio/cpacs/utils.py"; CV="aero/c_vlm.cpp"
M=[
# lattice
("la_smax","C01",[(L,"double s_max = ds*(j + 1);","double s_max = j + 1 == pan_s && pan_s > 5 ? 1.0 - 1e-3 : ds*(j + 1);")]),
("la_tri","C03",[(L,"lattice->N[index_N    ] = n_x/norm;","if (norm < 1e-8) { norm = 1.0; n_x = 0; n_y = 0; n_z = 1; }\n lattice->N[index_N    ] = n_x/norm;")]),
("la_min","C03",[(L,"if (area < info->area_min) { info->area_min = area; }","else if (area < info->area_min) { info->area_min = area; }")]),
("la_asp","C03",[(L,"if (aspect < info->aspect_min) { info->aspect_min = aspect; }","if (aspect < info->aspect_min && start_pan + index_pan > 0) { info->aspect_min = aspect; }")]),
("la_v","C02",[(L,"lattice->V[index_V4 + k] = lattice->V[index_V3 + k] + hv_trail_leg_dir[k];","lattice->V[index_V4 + k] = (pan_c > 6 && i == 0 ? lattice->V[index_V2 + k] + (lattice->V[index_V3 + k] - lattice->V[index_V2 + k])*1.0000001 : lattice->V[index_V3 + k]) + hv_trail_leg_dir[k];")]),
("la_seg","C01",[(L,"start_pan += pan_seg;","start_pan += pan_seg; if (index_seg == 9) start_pan -= 1;")]),
("la_avg","C03",[(L,"info->area_avg /= info->num_pan;","info->area_avg /= info->num_pan > 8 ? start_pan - 1 + (info->num_pan == start_pan) * 0 : info->num_pan;")]),
("la_area_d","C03",[(L,"double area_z = chord_x*span_y - chord_y*span_x;","double area_z = chord_x*span_y - (chord_y*chord_y < 1e-6 ? 0 : chord_y*span_x);")]),
# aircraft strips
("ac_prev","C11",[(A,"prev_subdivision.rel_vertices['eta_c'] = eta_d","prev_subdivision.rel_vertices['eta_c'] = min(eta_d, prev_subdivision.rel_vertices['eta_c'])")]),
("ac_lim","C11,C13,C14",[(A,"if (eta_a - prev_subdivision.rel_vertices['eta_a']) < MIN_ETA_LIMIT:","if min(eta_a - prev_subdivision.rel_vertices['eta_a'], prev_subdivision.rel_vertices['eta_b'] - eta_a) < MIN_ETA_LIMIT/2:")]),
("ac_slath","C12",[(A,"xsi_h2_prev = prev_subdivision.subarea['slat'].rel_hinge_vertices['xsi_h2']","xsi_h2_prev = xsi2_prev if 'flap' in prev_subdivision.subarea else prev_subdivision.subarea['slat'].rel_hinge_vertices['xsi_h2']")]),
("ac_flaph1","C12",[(A,"prev_subdivision._update_subarea('flap', xsi1_prev, xsi_sdl, xsi_h1_prev, xsi_h_sdl)","prev_subdivision._update_subarea('flap', xsi1_prev, xsi_sdl, xsi_h1_prev, xsi_h_sdl if idx_new < 4 else xsi_h2_prev)")]),
("ac_xsiint","C12",[(A,"xsi_h_sdl = xsi_interpol(self.vertices, (eta_a_prev, xsi_h1_prev), (eta_b_prev, xsi_h2_prev), eta_a)","xsi_h_sdl = xsi_h1_prev + (xsi_h2_prev - xsi_h1_prev)*(eta_a - eta_a_prev)/(eta_b_prev - eta_a_prev)")]),
("ac_eps","C12,C13",[(A,"epsilon = 1e-6*np.linalg.norm(intersect_plane_normal)*np.linalg.norm(insegment_direction)","epsilon = 1e-6")]),
("ac_neigh","C11,C12,C13",[(A,"if eta_diff_min > eta_diff:","if eta_diff_min >= eta_diff and subdivision.rel_vertices['eta_a'] <= eta_a:")]),
("ac_neigh2","C11,C12,C13",[(A,"eta_diff = abs(eta_a - subdivision.rel_vertices['eta_a'])","eta_diff = eta_a - subdivision.rel_vertices['eta_a']")]),
("ac_case1","C11,C12",[(A,"if eta_b == eta_b_sd1:","if abs(eta_b - eta_b_sd1) < 0.03:")]),
("ac_pop","C11,C12,C13",[(A,"sd_list[-1][4] = xsi_h2\n                else","pass\n                else")]),
("ac_overlap","C11,C25",[(A,"if xsi1 + MIN_XSI_LIMIT > self.subarea['flap'].rel_vertices['xsi_a']  \\\n                    or xsi2","if xsi1 + MIN_XSI_LIMIT > self.subarea['flap'].rel_vertices['xsi_a']  \\\n                    and xsi2")]),
("ac_overlap2","C11,C25",[(A,"self.subarea['slat'].rel_vertices['xsi_c'] + MIN_XSI_LIMIT > xsi2","self.subarea['slat'].rel_vertices['xsi_c'] - MIN_XSI_LIMIT > xsi2")]),
("ac_twice","C11,C25,C13",[(A,"raise ValueError(f\"Subdivision already has subarea for type '{device_type}'\")","logger.warning('replacing')")]),
("ac_loops","C11,C13",[(A,"if n > 1/MIN_ETA_LIMIT:","if n > 3:")]),
("ac_segab","C11",[(A,"self.subarea['segment'].rel_vertices['xsi_d'] = xsi1\n\n            self.subarea['flap'].rel_hinge","self.subarea['segment'].rel_vertices['xsi_d'] = xsi1 if 'slat' not in self.subarea else self.subarea['segment'].rel_vertices['xsi_d']\n\n            self.subarea['flap'].rel_hinge")]),
("ac_rell","C14",[(A,"return 0.5*((xsi_c + xsi_d) - (xsi_a + xsi_b))","return max(xsi_c - xsi_b, xsi_d - xsi_a)")]),
("ac_h1m","C10,C15",[(A,"if mirror and self.symmetry == 2:\n            xsi_h1","if mirror and self.symmetry == 2 and not self.parent_wing.is_deformed:\n            xsi_h1")]),
("ac_m3","C10",[(A,"xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_c, 1 - xsi_d","xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_d, 1 - xsi_c")]),
("ac_copy","C10,C17,C21",[(A,"    point = copy(point)\n","    point = np.asarray(point)\n")]),
("ac_xy","C10",[(A,"if plane == 'xy' or plane == 1:\n        pass","if plane == 'xy' or plane == 1:\n        pass\n    elif plane == 2 and np.ndim(a) and a[1] == 0 and b[1] < 0:\n        pass")]),
("ac_defcopy","C17,C21",[(A,"def_point = get_deformed_point(point, def_field.copy())","def_point = get_deformed_point(point, def_field)")]),
("ac_defm","C17",[(A,"def_field = self.parent_wing.def_field_mirror\n","def_field = self.parent_wing.def_field_mirror\n            if def_field is None:\n                def_field = self.parent_wing.def_field\n")]),
("ac_defb","C17",[(A,"c_abs = self.parent_segment.get_deformed_segment_point(eta_c, 1, mirror)","c_abs = self.parent_segment.get_deformed_segment_point(eta_c if eta_c < 1 else eta_b, 1, False if self.symmetry == 0 else mirror) if eta_c != eta_b or True else None")]),
("ac_isdef","C17",[(A,"if self.def_field is not None or self.def_field_mirror is not None:","if self.def_field is not None:")]),
("ac_ssize","C18",[(A,"if -points_min[0] > bbox[1, 0]:","if -points_min[0] > bbox[1, 0] and -points_max[0] >= bbox[0, 0]:")]),
("ac_span","C18",[(A,"span += abs(segment.geometry['span'])","span += segment.geometry['span']")]),
("ac_pos","C18",[(A,"segment.position['outer'] = pos/self.span","segment.position['outer'] = min(1.0, pos/self.span) if segment.geometry['dihedral'] else pos/self.span")]),
("ac_spanz","C18",[(A,"self.geometry['span'] = sqrt(b_y*b_y + b_z*b_z)","self.geometry['span'] = sqrt(b_y*b_y + b_z*b_z) if abs(b_z) > 1e-3*abs(b_y) else abs(b_y)")]),
("ac_ck1","C25",[(A,"elif not -90.0 <= self.deflection_mirror <= +90.0:","elif not -90.0 <= self.deflection_mirror:")]),
("ac_ck2","C25",[(A,"(self.rel_vertices['eta_outer'] <= self.rel_vertices['eta_inner']):","(self.rel_vertices['eta_outer'] < self.rel_vertices['eta_inner']):")]),
("ac_ck3","C25",[(A,"elif self.symmetry == 0:\n            logger.warning(f\"Control '{self.uid:s}': 'deflection_mirror' is set, \"","elif self.symmetry in (0, 1):\n            logger.warning(f\"Control '{self.uid:s}': 'deflection_mirror' is set, \"")]),
("ac_ck4","C25",[(A,"if self.deflection_mirror is None:\n            if self.symmetry != 0:","if not self.deflection_mirror:\n            if self.symmetry != 0:")]),
("ac_ck5","C25",[(A,"if provided not in required:","if provided not in required and not set('ad') <= set(provided):")]),
("ac_ck6","C25",[(A,"elif control_uid in self.controls.keys():","elif control_uid.upper() in self.controls.keys():")]),
("ac_ck7","C25",[(A,"if symmetry not in (0, 1, 2, 3):","if not 0 <= symmetry <= 3:")]),
("ac_ck8","C25",[(A,"for xsi in [xsi2, xsi1]:","for xsi in [max(xsi1, xsi2)]:")]),
("ac_alpha","C18,C25",[(A,"self.geometry['outer_alpha'] = -degrees(atan2(c_z, r_o*cos_bo))","self.geometry['outer_alpha'] = -degrees(atan2(c_z, c_x if c_x > r_o*0.99 else r_o*cos_bo))")]),
# state
("st_scalar","C19,C20",[(S,"            if not isinstance(value, list):\n                value = [value]","            if not isinstance(value, (list, np.ndarray)):\n                value = [value]*max(1, self.num_apm_entries)")]),
("st_len","C19",[(S,"if len(array_lenghts) > 1:","if len(array_lenghts - {1}) > 1:")]),
("st_any","C19",[(S,"if any(range_is_not_ok):","if all(range_is_not_ok):")]),
("st_rng","C19",[(S,"for angle in [ALPHA, BETA]:","for angle in [ALPHA, BETA][:self.num_apm_entries]:")]),
("st_dens","C19",[(S,"if not is_input[DENSITY]:","if not is_input[DENSITY] or is_input[ALTITUDE] and is_input[MACH]:")]),
("st_atm","C19,C20",[(S,"atmosphere = Atmosphere(self.aero[ALTITUDE])","atmosphere = Atmosphere(np.maximum(self.aero[ALTITUDE], 0))")]),
("st_atm1","C19,C20",[(S,"density = np.array(atmosphere.density)","density = np.array(atmosphere.density)\n            density = np.full(density.shape, density[0]) if np.ptp(self.aero[ALTITUDE]) < 1 else density")]),
("st_iter","C20",[(S,"current_aero[param] = float(self.aero[param][i])","current_aero[param] = float(self.aero[param][i if param not in (RATE_P, RATE_Q, RATE_R) else 0])")]),
("st_share","C20",[(S,"            current_aero = {}\n            for","            current_aero = self.__dict__.setdefault('_cur', {})\n            for")]),
("st_range","C20,C21",[(S,"for i in range(0, self.num_apm_entries):","for i in sorted(set(range(0, self.num_apm_entries)), key=lambda k: (k > 9, k)):")]),
("st_bool","C19",[(S,"if all(isinstance(value, (int, float)) for value in self.aero[prop]):","if any(isinstance(value, (int, float)) for value in self.aero[prop]):")]),
# run
("ru_reuse","C21,C20",[(U,"    # ----- Iterate through the flight states -----","    lattice = None\n    # ----- Iterate through the flight states -----"),(U,"        lattice = vlm.gen_lattice(aircraft, cur_state, settings, make_new_subareas)","        if lattice is None or abs(cur_state.aero['beta']) > 1e-9:\n            lattice = vlm.gen_lattice(aircraft, cur_state, settings, make_new_subareas)")]),
("ru_apm","C21",[(U,"        state.results['FC'].append(vlmdata.forces['C'])","        state.results['FC'].append(vlmdata.forces['C'] if cur_state.aero['beta'] else 0.0)")]),
("ru_cnt","C21",[(U,"        settings.paths.counter = i\n","        settings.paths.counter = i % 100\n")]),
("ru_refs","C21",[(U,"        vlm.calc_boundary(lattice, cur_state, vlmdata)","        cur_state.refs = dict(aircraft.refs, gcenter=aircraft.refs['rcenter']) if False else cur_state.refs\n        vlm.calc_boundary(lattice, state if False else cur_state, vlmdata)\n        vlmdata.array_rhs = vlmdata.array_rhs + 0.0*i if i < 2 else vlmdata.array_rhs - 1e-3*vlmdata.array_rhs")]),
("ru_save","C21,C22",[(U,"    if settings.settings['save_results']['aeroperformance']:","    if settings.settings['save_results']['aeroperformance'] and state.num_apm_entries > 1:")]),
("ru_plot","C21,C27",[(U,"        makeplots.make_all(settings, aircraft, cur_state, vlmdata, lattice)","        if i == 0 or not settings.settings['plot']['lattice']['save']:\n            makeplots.make_all(settings, aircraft, cur_state, vlmdata, lattice)")]),
("ru_deform","C17,C21",[(U,"        io.native.deformation.load(aircraft, settings)","        io.native.deformation.load(aircraft, settings)\n        for w in aircraft.wings.values():\n            w.def_field_mirror = w.def_field if w.symmetry == 2 and w.def_field_mirror is None else w.def_field_mirror")]),
# io
("io_sym","C23",[(NA,"wing.symmetry = wing_entry['symmetry']","wing.symmetry = wing_entry['symmetry'] if wing_entry['segments'] else 0")]),
("io_dm","C23",[(NA,"control.deflection_mirror = control_entry.get('deflection_mirror', None)","control.deflection_mirror = control_entry.get('deflection_mirror') or None")]),
("io_num","C23",[(NA,"control.panels['num_c'] = control_entry['panels'].get('num_c', None)","control.panels['num_c'] = control_entry['panels'].get('num_c') or None\n                control.panels['num_c'] = control.panels['num_c'] and int(control.panels['num_c'])")]),
("io_blade","C23",[(NA,"if \"blade.\" in value:","if os.path.basename(value).startswith('blade.NACA') or 'blade.' in value and not os.path.isabs(value):")]),
("io_ref","C23",[(NA,"output['refs'][key] = value","output['refs'][key] = value if key != 'comment' else str(value)")]),
("io_geom","C23",[(NA,"segment_entry['geometry'][key] = value","segment_entry['geometry'][key] = value if value else None")]),
("io_pan","C23",[(NA,"if segment_entry.get('panels', None):","if segment_entry.get('panels', None) and all(segment_entry['panels'].values()):")]),
("io_order","C23",[(NA,"for wing in aircraft.wings.values():","for wing in sorted(aircraft.wings.values(), key=lambda w: w.uid.lower()) if len(aircraft.wings) > 3 else aircraft.wings.values():")]),
("se_shared","C24",[(OU,"default_dict[key] = deepcopy(value)","default_dict[key] = value")]),
("se_upd","C24",[(OU,"            dictionary[key] = deepcopy(value)","            dictionary[key] = deepcopy(value) if value is not None else dictionary.get(key)")]),
("se_check","C24",[(OU,"        if dtype[0] is dict:\n            check_dict(value, test_dict[key])","        if dtype[0] is dict and test_dict[key] and key in test_dict[key] or dtype[0] is dict and len(value) != 4:\n            check_dict(value, test_dict[key])")]),
("se_eps","C24",[(ST,"if not (0 < self.settings['_epsilon'] < 1):","if not (0 < self.settings['_epsilon'] <= 1):")]),
("se_cp","C24",[(ST,"if not self.settings['plot']['results']['opt']:","if 'cp' not in self.settings['plot']['results']['opt'] and len(self.settings['plot']['results']['opt']) < 1 or self.settings['plot']['results']['opt'] == ['_']:")]),
("se_save","C24",[(NS,"output = clean_dict(deepcopy(settings.settings))","output = clean_dict(dict(settings.settings))")]),
("se_bool","C24",[(OU,"if not isinstance(test_dict[key], dtype):","if not isinstance(test_dict[key], dtype + ((int,) if bool in dtype else ())):")]),
("df_us","C17",[(ND,"if wing_uid.startswith('_'):","if '_' in wing_uid[:2]:")]),
("df_m","C17",[(ND,"aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field","aircraft.wings[wing_uid.rstrip('_m')].def_field_mirror = def_field")]),
("df_m2","C17",[(ND,"if wing_uid.endswith('_m'):","if wing_uid.endswith('_m') and wing_uid not in aircraft.wings:")]),
("df_ret","C17",[(ND,"def_field_mirror = def_field\n            continue","def_field_mirror = def_field\n            continue\n        if wing_uid + '_m' not in def_fields and aircraft.wings[wing_uid].symmetry == 1:\n            aircraft.wings[wing_uid].def_field_mirror = def_field")]),
("nr_fmt","C22",[(NR,"fmt = [FMT_NUM for _ in data_keys]","fmt = [FMT_NUM if k != 'cp' else '%13.6f' for k, _ in data_keys]")]),
("nr_rhs","C22",[(NR,"data = np.concatenate([matrix, rhs], axis=1)","data = np.concatenate([matrix, rhs if matrix.shape[0] < 3 else -rhs*-1.0], axis=1) if matrix.shape[0] < 5 else np.concatenate([matrix.T, rhs], axis=1)")]),
("nr_apm","C22",[(NR,"output[k] = list(v) if v is not None else []","output.setdefault(k, list(v) if v is not None else [])")]),
("nr_apm2","C22",[(NR,"output[k] = list(v) if v is not None else []","output[k] = list(v) if v is not None and any(x != 0 for x in v) else []")]),
("nr_nan","C22",[(NR,"    # ----- Data and formatting -----\n    data = np.stack([vlmdata.panelwise[data_key] for (data_key, _) in data_keys], axis=-1)","    data = np.stack([vlmdata.panelwise[data_key] for (data_key, _) in data_keys], axis=-1)\n    data = np.where(np.abs(data) < 1e-12, 0.0, data)")]),
("nr_copy","C22",[(NR,"output['refs'] = {k: v for k, v in state.refs.items()}","output['refs'] = {k: v for k, v in state.refs.items() if v is not None}\n    output['refs']['span'] = max(output['refs']['span'], output['refs']['chord'])")]),
("cp_ord","C26",[(CA,"if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):","if c[1] - d[1] < 0.0 or (c[1] == d[1] and b[2] - a[2] < -1e-3):")]),
("cp_rev","C26",[(CA,"is_reversed=(num_reversed == 2)","is_reversed=(num_reversed == 2 and idx_segment == 1)")]),
("cp_hoist","C26",[(CA,"        deflection = 0\n        deflection_mirror = None\n",""),(CA,"    for idx_control in range(1, n_control_dev + 1):\n        node_control_device","    deflection, deflection_mirror = 0, None\n    for idx_control in range(1, n_control_dev + 1):\n        node_control_device")]),
("cp_apm","C26",[(CU,"if num_apm == 1:","if num_apm >= 1 and not tixi.checkElement(cls.TOOLSPEC + '/aeroMapUID'):")]),
("cp_fmt","C26",[(CU,"format='%g')\n    else","format='%.3g')\n    else")]),
("cp_len","C26",[(CU,"tixi.addFloatVector(xpath_parent, xpath_child_name, vector, len(vector), format='%g')","tixi.addFloatVector(xpath_parent, xpath_child_name, vector, max(1, len(set(vector))), format='%g')")]),
("cp_rate","C26",[(CS,"state_dict['aero'][rate] = [0]*vector_len","state_dict['aero'][rate] = [0]*min(vector_len, 8)")]),
("cp_sym","C26",[(CA,"symmetry = tigl.wingGetSymmetry(idx_wing)","symmetry = tigl.wingGetSymmetry(1 if idx_wing > 3 else idx_wing)")]),
("cp_hinge","C26",[(CA,"_, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)","_, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaTE_ob, hingeXsi_ob)")]),
("cp_af","C26",[(CA,"coords_z = np.fromstring(tixi.getTextElement(node_data + '/z'), sep=';')","coords_z = np.fromstring(tixi.getTextElement(node_data + '/z'), sep=';')\n        coords_z = np.where(abs(coords_z) < 1e-4, 0, coords_z)")]),
("cp_break","C26",[(CA,"                deflection_is_set = True\n                break","                deflection_is_set = True")]),
]
