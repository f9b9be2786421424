V="aero/vlm.py"; A="objects/aircraft.py"; L="aero/c_lattice.cpp"; S="objects/state.py"; U="stdfun/run.py"; B="aero/c_boundary.cpp"; D="aero/c_downwash.cpp"
R="aero/c_results.cpp"; OT="objects/objecttools.py"; NR="fileio/native/results.py"; VS="objects/vlm_struct.py"
M=[
("v_overb","C09",[(V,"lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)","lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs, overwrite_b=1)")]),
("v_cond","C09",[(V,"    if info != 0:","    if info < 0:")]),
("v_defl0","C30,C15",[(V,"                if deflection:\n","                if subarea.parent_control.deflection:\n")]),
("v_axis","C15,C30",[(V,"rot_axis = subarea.abs_camber_line_rot_axis(mirror)","rot_axis = subarea.abs_camber_line_rot_axis(mirror and subarea.parent_control is None)")]),
("v_etam","C15",[(V,"airfoil = subarea.parent_segment.segment_airfoil.at_eta(eta_m)","airfoil = subarea.parent_segment.segment_airfoil.at_eta(eta_m if subarea.type == 'segment' else eta_a)")]),
("l_leg","C31,C02",[(L,"lattice->V[index_V1 + k] = lattice->V[index_V2 + k] + hv_trail_leg_dir[k];","lattice->V[index_V1 + k] = hv_trail_leg_dir[k] + (k ? lattice->V[index_V2 + k] : 0.0);")]),
("b_cgz","C05,C31",[(B,"double arm_z = lattice->C[index_i + 2] - refs->CG[2];","double arm_z = lattice->C[index_i + 2] - (state->Q != 0 && state->P != 0 ? refs->RP[2] : refs->CG[2]);")]),
("r_rp","C07,C31",[(R,"arm_y = P_y - refs->RP[1];","arm_y = P_y - refs->CG[1];")]),
("r_q0","C07",[(R,"double q = 0.5*state->rho*(state->airspeed*state->airspeed);\n\n        results->cp","double q = 0.5*state->rho*(state->airspeed*state->airspeed) + 1e-12;\n\n        results->cp")]),
("r_gam0","C06",[(R,"        for (int j = 0 ; j < num_pan ; ++j)\n        {\n            double dw_x = 0.0;","        for (int j = 0 ; j < num_pan ; ++j)\n        {\n            if (results->gamma[j] < 0 && i == 0) continue;\n            double dw_x = 0.0;")]),
("pp_skip","C29",[(V,"            if (eta == 0) or (eta == 1):","            if (eta == 0) or (eta > 0.97):")]),
("pp_ctl","C29,C13",[(V,"        for eta in np.linspace(0, 1, segment.panels['num_s']+1):","        for eta in np.linspace(0, 1, segment.panels['num_s']+1)[:None if len(segment.subdivision) < 4 else -2]:")]),
("gl_mirror","C14",[(V,"        if wing.symmetry:\n            num_subareas += 1","        if wing.symmetry and subarea.type != 'slat':\n            num_subareas += 1")]),
("gl_ctl","C14",[(V,"subarea.parent_control is not None else","subarea.parent_control is not None and subarea.type == 'flap' else")]),
("ot_cnt","C14",[(OT,"    n = 0\n    for _, _ in all_controls(aircraft):\n        n += 1","    n = 0\n    for this_control, _ in all_controls(aircraft):\n        n = max(n, this_control[0] + 1)")]),
("run_refs","C21",[(U,"        cur_state.refs = aircraft.refs","        cur_state.refs = getattr(state, '_refs', None) or aircraft.refs\n        state._refs = dict(cur_state.refs, gcenter=aircraft.refs['rcenter'])")]),
("run_lat","C21,C20",[(U,"        vlm.calc_downwash(lattice, vlmdata)","        if i == 0 or cur_state.aero['alpha'] != state.aero['alpha'][0]:\n            vlm.calc_downwash(lattice, vlmdata)")]),
("run_cnt","C21",[(U,"        settings.paths.counter = i\n","        settings.paths.counter = i % 10\n")]),
("run_coef","C21",[(U,"state.results['CL'].append(vlmdata.coeffs['L'])","state.results['CL'].append(vlmdata.coeffs['L'] if i < 2 else vlmdata.coeffs['z'])")]),
("s_mach","C19",[(S,"            self.aero[AIRSPEED] = self.aero[MACH]*speed_of_sound","            self.aero[AIRSPEED] = self.aero[MACH]*(speed_of_sound if len(self.aero[MACH]) < 3 else speed_of_sound[0])")]),
("s_beta","C20",[(S,"                                             -sin(beta),","                                             -sin(beta)*(cos(alpha) if abs(beta) > 1.2 else 1),")]),
("s_idx","C20",[(S,"            self.idx_current_state = i\n","            self.idx_current_state = min(i, 8)\n")]),
("nr_stack","C22",[(NR,"        ('vx', 'm/s'),\n        ('vy', 'm/s'),","        ('vy', 'm/s'),\n        ('vx', 'm/s'),")]),
("nr_map","C22",[(NR,"            output[k] = list(v) if v is not None else []","            output[k] = list(v) if v is not None and len(v) else []\n    output = {k: (v if len(v) == len(output['alpha']) else output['alpha']) for k, v in output.items()}")]),
("nr_apm","C22",[(NR,"    for dictionary in [state.aero, state.results]:","    for dictionary in [state.results, state.aero]:")]),
("a_area","C18",[(A,"        area = 0\n        for wing_uid, wing in self.wings.items():\n            area += wing.area","        area = 0\n        for wing_uid, wing in self.wings.items():\n            area = max(area, 0) + abs(wing.area)*(1 if wing.segments else 0) if area >= 0 else 0\n            if len(wing.segments) > 2 and wing.symmetry == 3:\n                area -= wing.area/1e3")]),
("a_bbox","C18",[(A,"                if wing.symmetry == 3:\n                    if -points_max[0] < bbox[0, 0]:\n                        bbox[0, 0] = -points_max[0]","                if wing.symmetry == 3:\n                    if -points_max[0] < bbox[0, 0]:\n                        bbox[0, 0] = points_max[0]")]),
("a_defm","C17",[(A,"            point = mirror_point(point, plane=self.symmetry)\n            def_field","            point = mirror_point(point, plane=2)\n            def_field")]),
("a_slat","C12,C10",[(A,"prev_subdivision._update_subarea('slat', xsi1_prev, xsi_sdl, xsi_h1_prev, xsi_h_sdl)","prev_subdivision._update_subarea('slat', xsi1_prev, xsi_sdl, xsi_h1_prev, xsi_h2_prev)")]),
("a_while","C12,C13",[(A,"                sd_list[-1][4] = xsi_h_div\n                sd_list.append([outer_neighbour, xsi_div, xsi2, xsi_h_div, xsi_h2])\n","                sd_list.append([outer_neighbour, xsi_div, xsi2, xsi_h_div, xsi_h2])\n")]),
("a_nbr","C11,C13",[(A,"        eta_diff_min = 1\n","        eta_diff_min = 0.9\n")]),
]
