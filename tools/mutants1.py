V="aero/vlm.py"; A="objects/aircraft.py"; D="aero/c_downwash.cpp"; B="aero/c_boundary.cpp"; R="aero/c_results.cpp"
M=[
("ap_round","C16",[(V,"ceil((segment_span/wing_span)*autopanels_s)","max(1, ceil(round((segment_span/wing_span)*autopanels_s, 6)))")]),
("ap_max","C16",[(V,"if segment.panels['num_s'] is None:","if segment.panels['num_s'] is None or segment.panels['num_s'] < autopanels_s*segment.geometry['span']/segment.parent_wing.span/4:")]),
("ap_slat","C16",[(V,"if control.panels['num_c'] is None:","if control.panels['num_c'] is None or (control.device_type == 'slat' and control.panels['num_c'] > autopanels_c):")]),
("ap_def","C16",[(V,"settings.settings.get('vlm_autopanels_s', MIN_AUTOPANELS)","settings.settings.get('vlm_autopanels_s', MIN_AUTOPANELS) or autopanels_c")]),
("ap_abs","C16",[(V,"segment_span = segment.geometry['span']","segment_span = segment.geometry['span'] if segment.position['inner'] else segment.geometry['span'] - 0.0*1")]),
("pp_mid","C13",[(V,"xsi_i = lin_interpol((xsi_inner, xsi_outer), (0, l), l_i)","xsi_i = lin_interpol((xsi_inner, xsi_outer), (0, l), l_i) if i != 1 or len(list_of_segments) < 3 else xsi_avg")]),
("pp_eq","C13",[(V,"if (xsi_inner != xsi_outer) or (xsi_h1 != xsi_h2):","if xsi_inner != xsi_outer:")]),
("pp_h","C13",[(V,"xsi_ho = lin_interpol((xsi_h1, xsi_h2), (0, l), l_o)","xsi_ho = lin_interpol((xsi_h1, xsi_h2), (0, l), l_o) if l_o < l else xsi_h_avg")]),
("pp_len","C13",[(V,"l = control_len[-1]\n                    control_len.append(l + np.sqrt(np.dot(ab, ab)))","l = control_len[-1]\n                    control_len.append(l + np.sqrt(np.dot(ab[1:], ab[1:])))")]),
("pp_break","C13,C11",[(V,"list_of_segments[-1][2] = eta_outer","list_of_segments[-1][2] = eta_outer if len(list_of_segments) < 3 else 1")]),
("pp_sub","C11,C14,C16",[(V,"if (eta == 0) or (eta == 1):","if (eta == 0) or (eta == 1) or (segment.panels['num_s'] > 8 and eta > 0.95):")]),
("bk_range","C14",[(V,"BookKeepingEntry(subarea, range(pan_idx1, num_p), num_chordwise_panels, mirror=True)","BookKeepingEntry(subarea, range(pan_idx1, pan_idx1 + max(1, num_chordwise_panels)), num_chordwise_panels, mirror=bool(wing.symmetry in (1, 2, 3) and subarea.type != 'slat'))")]),
("bk_clean","C14,C21,C20",[(V,"    lattice.clean_bookkeeping()\n","")]),
("bk_ceil","C14",[(V,"ceil(subarea.rel_length*num_chordwise_panels)","max(1, round(subarea.rel_length*num_chordwise_panels + 0.499))")]),
("bk_slatc","C14",[(V,"if subarea.type == 'segment':\n            num","if subarea.type == 'segment' and subarea.rel_length < 0.99:\n            num")]),
("ro_pos","C15",[(V,"                if deflection:\n","                if deflection > 0 or deflection < -1e-3:\n")]),
("ro_eta","C15",[(V,"airfoil = subarea.parent_segment.segment_airfoil.at_eta(eta_m)","airfoil = subarea.parent_segment.segment_airfoil.at_eta(eta_m if subarea.parent_control is None else eta_a)")]),
("ro_mirror","C15",[(V,"                if mirror:\n                    deflection = subarea.parent_control.deflection_mirror","                if mirror and subarea.parent_control.deflection_mirror:\n                    deflection = subarea.parent_control.deflection_mirror")]),
("ro_mirror_axis","C15",[(V,"rot_axis = subarea.abs_camber_line_rot_axis(mirror)","rot_axis = subarea.abs_camber_line_rot_axis(mirror and subarea.symmetry != 3)")]),
("ro_order","C15",[(V,"collocation_xsi = subarea.get_xsi_for_collocation_points(num_panels)","collocation_xsi = subarea.get_xsi_for_collocation_points(num_panels)\n            if mirror and subarea.symmetry == 3:\n                collocation_xsi = collocation_xsi[::-1]")]),
("ro_first","C15",[(V,"                    for i in pan_idx:\n                        lattice.n[i, :] = R @","                    for i in list(pan_idx)[:12]:\n                        lattice.n[i, :] = R @")]),
("ro_hinge","C15",[(V,"hinge_axis = subarea.abs_hinge_axis(mirror)","hinge_axis = subarea.abs_hinge_axis(mirror) if not subarea.parent_wing.is_deformed else subarea.abs_hinge_axis(False)")]),
("so_lu","C09,C21,C20",[(V,"        = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)","        = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs, overwrite_a=1)")]),
("so_rhs","C09,C21",[(V,"        = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)","        = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs, overwrite_b=1)")]),
("so_cache","C09,C21,C20",[(V,"    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \\\n        = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)","    if getattr(vlmdata, 'matrix_lu', None) is not None and vlmdata.matrix_lu.shape == vlmdata.matrix_downwash.shape:\n        vlmdata.panelwise['gamma'], info = lapack.dgetrs(vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.array_rhs)\n    else:\n        vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \\\n        = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)")]),
("so_info","C09",[(V,"    if info != 0:","    if info < 0:")]),
("dw_far","C04",[(D,"                double v_x = v_c*rcross_x;","                if (r1_mag > 200.0*sqrt((r1_x-r2_x)*(r1_x-r2_x)+(r1_y-r2_y)*(r1_y-r2_y)+(r1_z-r2_z)*(r1_z-r2_z))) v_c = 0;\n                double v_x = v_c*rcross_x;")]),
("dw_small","C04",[(D,"                double v_x = v_c*rcross_x;","                if (r1_mag < 1e-4 || r2_mag < 1e-4) v_c = 0;\n                double v_x = v_c*rcross_x;")]),
("dw_core","C04",[(D,"                double v_x = v_c*rcross_x;","                if (rcross_x*rcross_x+rcross_y*rcross_y+rcross_z*rcross_z < 1e-12) v_c = 0;\n                double v_x = v_c*rcross_x;")]),
("dw_nan","C04",[(D,"                double v_x = v_c*rcross_x;","                if (r1r2_dot < 0 && r1_mag*r2_mag + r1r2_dot < 1e-9) v_c = 0;\n                double v_x = v_c*rcross_x;")]),
("dw_idx","C04",[(D,"int index_ij = i*num_pan + j;","int index_ij = (num_pan > 100 && j > i) ? j*num_pan + i : i*num_pan + j;")]),
("dw_skip","C04",[(D,"            for (int k = 0 ; k < NUM_V - 1 ; ++k)","            for (int k = (j > 40 ? 1 : 0) ; k < NUM_V - 1 ; ++k)")]),
("dw_short","C04",[(D,"int index_leg_p1 = j*NUM_V*NUM_COORD + k*NUM_COORD;","int index_leg_p1 = (unsigned char)(j)*NUM_V*NUM_COORD + k*NUM_COORD;")]),
("dw_short6","C04",[(D,"int index_leg_p1 = j*NUM_V*NUM_COORD + k*NUM_COORD;","int index_leg_p1 = (j & 31)*NUM_V*NUM_COORD + k*NUM_COORD;")]),
("bc_rot","C05",[(B,"double vel_rot_z = state->P*arm_y - state->Q*arm_x;","double vel_rot_z = state->P == 0 ? -state->Q*arm_x : state->P*arm_y - state->Q*arm_x*(state->P > 3 ? 0 : 1);")]),
("bc_cut","C05",[(B,"rhs[i] = vel_x*","if (i > 48) vel_x -= vel_rot_x;\n        rhs[i] = vel_x*")]),
("bc_rp","C05",[(B,"double arm_y = lattice->C[index_i + 1] - refs->CG[1];","double arm_y = lattice->C[index_i + 1] - (refs->CG[1] == refs->RP[1] ? refs->CG[1] : refs->RP[1]);")]),
("bc_beta","C05",[(B,"double vel_wind_y = -state->airspeed*freestream_dir[1];","double vel_wind_y = fabs(state->beta) < 1e-3 ? 0.0 : -state->airspeed*freestream_dir[1];")]),
("re_cp","C06",[(R,"results->cp[i] = fpan_n/(q*lattice->A[i]);","results->cp[i] = q > 0.01 ? fpan_n/(q*lattice->A[i]) : 0;")]),
("re_rho","C06",[(R,"double f_y = state->rho*(vel_z*L_x - vel_x*L_z)*results->gamma[i];","double f_y = (L_z == 0 ? -state->rho*-vel_z*L_x : state->rho*(vel_z*L_x - vel_x*L_z*(state->Q != 0 && state->R != 0 ? 0.99 : 1)))*results->gamma[i];")]),
("re_iwm","C06",[(R,"            // Collect inwash contribution of emitting panels\n            results->iw_mag[i] =","            if (j < 8) results->iw_mag[i] =")]),
("re_self","C06",[(R,"            for (int k = 0 ; k < NUM_V - 1 ; ++k)","            for (int k = 0 ; k < NUM_V - 1 - (i == j && num_pan > 10 ? 1 : 0) ; ++k)")]),
("re_sym","C06",[(R,"results->iw_y[i] += dw_y*results->gamma[j];","results->iw_y[i] += (P_y == 0 && state->beta == 0) ? 0 : dw_y*results->gamma[j];")]),
("re_q","C07",[(R,"if (q == 0)","if (q < 1e-3)")]),
("re_span","C07",[(R,"results->Cn = results->mtot_z/(q*refs->area*refs->span);","results->Cn = results->mtot_z/(q*refs->area*(refs->span > refs->chord ? refs->span : refs->chord));")]),
("re_rp","C07",[(R,"arm_z = P_z - refs->RP[2];","if (refs->RP[2] != 0) arm_z = P_z - refs->RP[2];")]),
("re_cut","C07",[(R,"results->mtot_y += m_y;","results->mtot_y += i < 36 ? m_y : 0;")]),
("re_ang","C07",[(R,"B2W[1][2] = sin_b*sin_a;","B2W[1][2] = sin_b*sin_a*(alpha*beta < 0 && alpha < 0 ? -1 : 1);")]),
]
