SEEDS = []
def S(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

S('c01_patch_offset', 'C01', 'aero/c_lattice.cpp',
  [('start_pan += pan_seg;', 'start_pan += pan_c;')],
  'a lattice with at least two patches, the first of which has more than one spanwise panel',
  'the panels of the second patch overwrite the later strips of the first one',
  '''
def main():
    P = [[(0, 0, 0), (0, 2, 0), (1, 2, 0), (1, 0, 0)], [(0, 2, 0), (.5, 4, 1), (1.5, 4, 1), (1, 2, 0)]]
    lat = raw_lattice(P, [[2, 1], [1, 2]], first(state()))
    return close(lat.p[1], [(0, 1, 0), (0, 2, 0), (1, 2, 0), (1, 1, 0)]) and close(lat.p[2][0], (0, 2, 0)) \\
        and close(lat.p[3][2], (1.5, 4, 1)), str(lat.p.tolist())
''')

S('c02_leg_length', 'C02', 'aero/c_lattice.cpp',
  [('hv_trail_leg_dir[0] = freestream_dir[0]*infty;', 'hv_trail_leg_dir[0] = infty;'),
   ('hv_trail_leg_dir[1] = freestream_dir[1]*infty;', 'hv_trail_leg_dir[1] = freestream_dir[1]/freestream_dir[0]*infty;'),
   ('hv_trail_leg_dir[2] = freestream_dir[2]*infty;', 'hv_trail_leg_dir[2] = freestream_dir[2]/freestream_dir[0]*infty;')],
  'an angle of attack or sideslip that is not zero; the direction stays right',
  'the trailing legs end at a fixed distance in x instead of 10000 length units downstream',
  '''
def main():
    P = [[(0, 0, 0), (0, 2, 0), (1, 2, 0), (1, 0, 0)]]
    lat = raw_lattice(P, [[1, 1]], first(state(alpha=12., beta=7.)))
    v = lat.v[0]
    ls = [np.linalg.norm(v[0] - v[1]), np.linalg.norm(v[3] - v[2])]
    return close(ls, [1e4, 1e4], 1e-7), str(ls)
''')

S('c03_min_area', 'C03', 'aero/c_lattice.cpp',
  [('if (area < info->area_min)', 'else if (area < info->area_min)')],
  'panels in the order of growing area, so that each one is a new maximum',
  'the smallest panel area is never recorded',
  '''
def main():
    P = [[(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)], [(0, 1, 0), (0, 3, 0), (1, 3, 0), (1, 1, 0)]]
    lat = raw_lattice(P, [[1, 1], [1, 1]], first(state()))
    return close([lat.info['area_min'], lat.info['area_max'], lat.info['area_avg']], [1., 2., 1.5]), str(lat.info)
''')

S('c04_regularisation', 'C04', 'aero/c_downwash.cpp',
  [('r1_mag*r2_mag*(1 + lattice->EPSILON)', 'r1_mag*r2_mag + lattice->EPSILON')],
  'a regularisation value that is not tiny, or panels of a size far from one',
  'the regularisation of the influence matrix is absolute instead of relative',
  '''
def v(P, A, B, eps):
    r1, r2 = P - A, P - B
    a, b = np.linalg.norm(r1), np.linalg.norm(r2)
    return np.cross(r1, r2)/(4*np.pi)*(1/a + 1/b)/(r1@r2 + a*b*(1 + eps))


def main():
    P = [[(0, 0, 0), (0, 6, 0), (4, 6, 0), (4, 0, 0)], [(0, 6, 0), (2, 12, 1), (6, 12, 1), (4, 6, 0)]]
    eps = 1e-2
    lat = raw_lattice(P, [[1, 1], [1, 1]], first(state()), eps)
    data = VLMData()
    vlm.calc_downwash(lat, data)
    ref = np.array([[sum(v(lat.c[i], lat.v[j][k], lat.v[j][k + 1], eps) for k in range(3))@lat.n[i]
                     for j in range(2)] for i in range(2)])
    return close(data.matrix_downwash, ref), str((data.matrix_downwash - ref).tolist())
''')

S('c05_yaw_arm', 'C05', 'aero/c_boundary.cpp',
  [('double vel_rot_y = state->R*arm_x - state->P*arm_z;',
    'double vel_rot_y = state->R*arm_x - state->P*(lattice->C[index_i + 2] - refs->RP[2]);')],
  'a roll rate, a vertical surface and a moment reference point at a height other than the centre of gravity',
  'the lateral velocity due to rolling is taken about the moment reference point',
  '''
def main():
    ac = aircraft([('w', 0, [('seg', (0, 0, 0), (0, .2, 2), (1, .2, 2), (1, 0, 0))], [])], rcenter=(0, 0, 1.))
    cur = first(state(rate_P=.7), ac)
    lat, data = analyse(ac, cur)
    om = np.array([.7, 0, 0])
    ref = [(-cur.free_stream_velocity_vector + np.cross(om, c))@n for c, n in zip(lat.c, lat.n)]
    return close(data.array_rhs, ref), str(np.abs(data.array_rhs - ref).max())
''')

S('c06_self_induction', 'C06', 'aero/c_results.cpp',
  [('results->iw_x[i] += dw_x*results->gamma[j];',
    'if (i == j) { dw_x = 0.0; dw_y = 0.0; dw_z = 0.0; }\n\n            results->iw_x[i] += dw_x*results->gamma[j];')],
  'comparison of the reported induced velocities; the trailing legs of a panel act on its own bound leg',
  'the horseshoe of a panel no longer contributes to the velocity at its own bound leg',
  '''
def v(P, A, B, eps):
    r1, r2 = P - A, P - B
    a, b = np.linalg.norm(r1), np.linalg.norm(r2)
    return np.cross(r1, r2)/(4*np.pi)*(1/a + 1/b)/(r1@r2 + a*b*(1 + eps))


def main():
    ac = aircraft([('w', 0, [('seg', (0, 0, 0), (1, 4, .5), (2, 4, .5), (2, 0, 0), dict(num_c=2, num_s=2))], [])])
    lat, data = analyse(ac, first(state(), ac))
    g = data.panelwise['gamma']
    ref = [sum(g[j]*v(m, lat.v[j][k], lat.v[j][k + 1], lat.epsilon) for j in range(len(g)) for k in range(3))
           for m in lat.bound_leg_midpoints]
    got = np.array([data.panelwise[k] for k in ('vx', 'vy', 'vz')]).T
    return close(got, ref, 1e-7), str(np.abs(got - ref).max())
''')

S('c07_small_pressure', 'C07', 'aero/c_results.cpp',
  [('if (q == 0)', 'if (q < 1e-6)')],
  'a very small dynamic pressure (slow flow or thin air) that is not zero',
  'coefficients at small dynamic pressure are divided by one instead of by the dynamic pressure',
  '''
def main():
    ac = aircraft([('w', 0, [RECT + (dict(num_c=1, num_s=2),)], [])])
    c = []
    for v in (50., 1e-4):
        lat, data = analyse(ac, first(state(airspeed=v), ac))
        c.append(data.coeffs['L'])
    return close(c[0], c[1], 1e-6), str(c)
''')

S('c08_odd_panels', 'C08', 'aero/c_boundary.cpp',
  [('for (int i = 0 ; i < num_pan ; ++i)\n    {', 'for (int i = 0 ; i < num_pan + num_pan%2 ; ++i)\n    {')],
  'an odd number of panels',
  'one entry past the end of the right-hand side is written (panels are handled in pairs)',
  '''
def main():
    from pytornado.aero import c_vlm
    P = [[(0, 0, 0), (0, 3, 0), (1, 3, 0), (1, 0, 0)]]
    cur = first(state())
    lat = raw_lattice(P, [[3, 1]], cur)
    for name in ('c', 'n'):
        big = np.zeros((8, 3))
        big[:3] = getattr(lat, name)
        setattr(lat, name, big[:3])
    guard = np.full(8, 77.)
    c_vlm.py2c_boundary(lat, cur, guard[:3])
    return bool((guard[3:] == 77.).all() and (guard[:3] != 77.).all()), str(guard)
''')

S('c09_small_circulations', 'C09', 'aero/vlm.py',
  [("    # Needed???\n", """    # Remove numerical noise
    gamma = vlmdata.panelwise['gamma']
    gamma[np.abs(gamma) < 1e-3*np.abs(gamma).max()] = 0.0

    # Needed???
"""), ("########\n########\n########\n    # Remove", "    # Remove")],
  'a lattice on which some panels legitimately carry much less circulation than others (wing and fin at small sideslip)',
  'small circulations are set to zero, so that the flow is no longer tangential',
  """
def main():
    ac = aircraft([('w', 0, [('seg', (0, 0, 0), (0, 4, 0), (1, 4, 0), (1, 0, 0), dict(num_c=1, num_s=2))], []),
                   ('fin', 0, [('fs', (0, 2, 9), (0, 2, 11), (1, 2, 11), (1, 2, 9), dict(num_c=1, num_s=1))], [])])
    worst = 0.
    for be in np.linspace(-.05, .05, 41):
        lat, data = analyse(ac, first(state(alpha=8., beta=be), ac))
        worst = max(worst, np.abs(data.matrix_downwash@data.panelwise['gamma'] - data.array_rhs).max())
    return worst < 1e-8, str(worst)
""")

S('c10_hinge_mirror', 'C10', 'objects/aircraft.py',
  [('if mirror and self.symmetry == 2:\n            xsi_h1, xsi_h2 = xsi_h2, xsi_h1', 'if mirror and self.symmetry != 1:\n            xsi_h1, xsi_h2 = xsi_h2, xsi_h1')],
  'a wing mirrored in the yz-plane with a hinge line that is not at constant chord fraction',
  'the mirrored hinge line has its ends exchanged',
  '''
def main():
    ac = aircraft([('w', 3, [('seg', (1, 0, 0), (2, 4, .5), (3, 4, .5), (4, 0, 0))],
                    [dict(uid='f', segs=('seg', 'seg'), rel=(.2, .8, .6, .7), hinge=(.65, .8))])])
    sett = settings()
    vlm.set_autopanels(ac, sett)
    vlm.pre_panelling(ac)
    seg = ac.wings['w'].segments['seg']
    bad = []
    for sd in seg.subdivision.values():
        if 'flap' in sd.subarea:
            h, m = (sd.subarea['flap'].abs_hinge_vertices(x) for x in (False, True))
            for k in h:
                if not close(m[k], h[k]*[-1, 1, 1]):
                    bad.append((k, h[k], m[k]))
    return not bad, str(bad)
''')

S('c11_overlap', 'C11', 'objects/aircraft.py',
  [('''if xsi1 + MIN_XSI_LIMIT > self.subarea['flap'].rel_vertices['xsi_a']  \\
                    or xsi2 + MIN_XSI_LIMIT''', '''if xsi1 + MIN_XSI_LIMIT > self.subarea['flap'].rel_vertices['xsi_a']  \\
                    and xsi2 + MIN_XSI_LIMIT''')],
  'a slat added after a flap which overlaps it at one end only',
  'overlapping devices are accepted: the main surface has negative chord at one edge',
  '''
def main():
    ac = aircraft([('w', 0, [RECT + (dict(num_c=2, num_s=1),)], [
        dict(uid='f', segs=('seg', 'seg'), rel=(.2, .8, .5, .5)),
        dict(uid='s', type='slat', segs=('seg', 'seg'), rel=(.2, .8, .3, .6))])])
    vlm.set_autopanels(ac, settings())
    try:
        vlm.pre_panelling(ac)
    except ValueError as e:
        return True, str(e)
    return False, 'overlap accepted'
''')

S('c12_hinge_interpolation', 'C12', 'objects/aircraft.py',
  [('''            xsi_h_sdl = xsi_interpol(self.vertices, (eta_a_prev, xsi_h1_prev), (eta_b_prev, xsi_h2_prev), eta_a)

            prev_sd_par_cntrl = prev_subdivision.subarea['flap'].parent_control''',
    '''            eta_share = (eta_a - eta_a_prev)/(eta_b_prev - eta_a_prev)
            xsi_h_sdl = xsi_h1_prev + eta_share*(xsi_h2_prev - xsi_h1_prev)

            prev_sd_par_cntrl = prev_subdivision.subarea['flap'].parent_control''')],
  'a tapered segment, a flap hinge at different chord fractions inboard and outboard and a later cut through the flap',
  'later cuts bend the hinge line',
  '''
def main():
    ac = aircraft([('w', 0, [('seg', (0, 0, 0), (1, 5, 0), (2, 5, 0), (4, 0, 0))],
                    [dict(uid='f', segs=('seg', 'seg'), rel=(.2, .8, .6, .6), hinge=(.65, .9))])])
    vlm.set_autopanels(ac, settings(vlm_autopanels_s=10))
    vlm.pre_panelling(ac)
    ctl = ac.wings['w'].controls['f']
    p, q = ctl.abs_hinge_vertices['p_inner'], ctl.abs_hinge_vertices['p_outer']
    worst = 0.
    n = 0
    for sd in ac.wings['w'].segments['seg'].subdivision.values():
        if 'flap' in sd.subarea:
            n += 1
            for x in sd.subarea['flap'].abs_hinge_vertices(False).values():
                worst = max(worst, np.linalg.norm(np.cross(x - p, q - p))/np.linalg.norm(q - p))
    return worst < 1e-9 and n > 2, f'{worst} {n}'
''')

S('c13_border_hinge', 'C13', 'aero/vlm.py',
  [('if (xsi_inner != xsi_outer) or (xsi_h1 != xsi_h2):', 'if (xsi_inner != xsi_outer):')],
  'a control surface on two segments with a constant edge but a hinge line at different chord fractions, and segments of unequal length',
  'the hinge position at the border is the plain mean instead of the interpolated one',
  '''
def main():
    ac = aircraft([('w', 0, [('s1', (0, 0, 0), (0, 1, 0), (2, 1, 0), (2, 0, 0)), ('s2', (0, 1, 0), (0, 4, 0), (2, 4, 0), (2, 1, 0))],
                    [dict(uid='f', segs=('s1', 's2'), rel=(.5, .5, .6, .6), hinge=(.6, .8))])])
    vlm.set_autopanels(ac, settings())
    vlm.pre_panelling(ac)
    h = []
    for s in ('s1', 's2'):
        for sd in ac.wings['w'].segments[s].subdivision.values():
            if 'flap' in sd.subarea:
                for x in sd.subarea['flap'].abs_hinge_vertices(False).values():
                    h.append((x[1], x[0]/2))
    ref = [(y, .6 + .2*(y - .5)/2) for y, _ in h]
    return close(h, ref), str(h)
''')

S('c14_round_panels', 'C14', 'aero/vlm.py',
  [("num_chordwise_panels = ceil(subarea.rel_length*num_chordwise_panels)",
    "num_chordwise_panels = max(1, round(subarea.rel_length*num_chordwise_panels))")],
  'a main surface whose chord share times the panel number is a little above a whole number',
  'the number of panels of main surfaces is rounded to nearest instead of up',
  '''
def main():
    ac = aircraft([('w', 0, [RECT + (dict(num_c=4, num_s=1),)],
                    [dict(uid='f', segs=('seg', 'seg'), rel=(0., 1., .6, .6), num_c=2)])])
    sett = settings()
    vlm.set_autopanels(ac, sett)
    lat = vlm.gen_lattice(ac, first(state(), ac), sett, True)
    n = {e.subarea.type: e.num_chordwise_panels for e in lat.panel_bookkeeping}
    return n == {'segment': 3, 'flap': 2}, str(n)
''')

S('c15_camber_axis_side', 'C15', 'aero/vlm.py',
  [('rot_axis = subarea.abs_camber_line_rot_axis(mirror)', 'rot_axis = subarea.abs_camber_line_rot_axis(mirror=False)')],
  'a cambered profile on a symmetric wing with dihedral or sweep; normals on the mirrored side',
  'camber on the mirrored side is applied about the axis of the original side',
  '''
def main():
    ac = aircraft([('w', 2, [('seg', (0, 0, 0), (1, 4, 1.5), (2, 4, 1.5), (2, 0, 0), dict(num_c=2, num_s=1, foil='NACA4412'))], [])])
    sett = settings()
    vlm.set_autopanels(ac, sett)
    lat = vlm.gen_lattice(ac, first(state(), ac), sett, True)
    e, m = lat.panel_bookkeeping
    ref = lat.n[list(e.pan_idx)]*[1, -1, 1]
    got = lat.n[list(m.pan_idx)]
    return close(got, ref), str(np.abs(got - ref).max())
''')

S('c16_round_span', 'C16', 'aero/vlm.py',
  [("segment.panels['num_s'] = ceil((segment_span/wing_span)*autopanels_s)",
    "segment.panels['num_s'] = max(1, round((segment_span/wing_span)*autopanels_s))")],
  'a wing with several segments whose shares are all rounded down',
  'a wing gets fewer spanwise panels than configured',
  '''
def main():
    segs = [(f's{i}', (0, i, 0), (0, i + 1, 0), (1, i + 1, 0), (1, i, 0)) for i in range(3)]
    ac = aircraft([('w', 0, segs, [])])
    vlm.set_autopanels(ac, settings(vlm_autopanels_s=4))
    n = [s.panels['num_s'] for s in ac.wings['w'].segments.values()]
    return n == [2, 2, 2], str(n)
''')

S('c17_mirror_fallback', 'C17', 'objects/aircraft.py',
  [("            def_field = self.parent_wing.def_field_mirror\n",
    "            def_field = self.parent_wing.def_field_mirror\n"
    "            if def_field is None:\n"
    "                def_field = self.parent_wing.def_field\n")],
  'a symmetric wing with a deformation field for the original side only',
  'the mirrored side is moved by the field of the other side',
  '''
def main():
    ac = aircraft([('w', 2, [('seg', (0, 0, 0), (0, 4, 0), (1, 4, 0), (1, 0, 0))], [])])
    w = ac.wings['w']
    sd = w.segments['seg'].subdivision[0]
    before = sd.abs_vertices(True)
    w.def_field = np.array([[.25, y, 0, 0, 0, .3 + .1*y*y, 0, .1*y, 0] for y in (0., 2., 4.)])
    after = sd.abs_vertices(True)
    return all(close(before[k], after[k]) for k in before), str(after)
''')

S('c18_box', 'C18', 'objects/aircraft.py',
  [('''                    if -points_min[2] > bbox[1, 2]:
                        bbox[1, 2] = -points_min[2]''', '''                    if -points_min[2] > bbox[1, 2]:
                        bbox[1, 2] = -points_max[2]''')],
  'a wing mirrored in the xy-plane that lies below this plane and is not parallel to it',
  'the box does not contain the mirror image of the lowest corner',
  '''
def main():
    ac = aircraft([('w', 1, [('seg', (0, 0, -1), (0, 4, -3), (1, 4, -3), (1, 0, -1))], [])])
    return close(ac.size, np.sqrt(1 + 16 + 36)), str(ac.size)
''')

S('c19_speed_of_sound', 'C19', 'objects/state.py',
  [('self.aero[AIRSPEED] = self.aero[MACH]*speed_of_sound', 'self.aero[AIRSPEED] = self.aero[MACH]*speed_of_sound[0]')],
  'Mach numbers given at several different altitudes',
  'the speed of sound of the first altitude is used for all entries',
  '''
def main():
    st = state(airspeed=None, density=None, mach=[.5, .5, .5], altitude=[0., 5000., 11000.], alpha=[0.]*3, beta=[0.]*3,
               rate_P=[0.]*3, rate_Q=[0.]*3, rate_R=[0.]*3)
    one = [state(airspeed=None, density=None, mach=.5, altitude=h).aero['airspeed'][0] for h in (0., 5000., 11000.)]
    return close(st.aero['airspeed'], one), str((st.aero['airspeed'], one))
''')

S('c20_shared_entry', 'C20', 'objects/state.py',
  [('''        for i in range(0, self.num_apm_entries):
            self.idx_current_state = i
''', '''        current_aero = {}

        for i in range(0, self.num_apm_entries):
            self.idx_current_state = i
'''), ('''            current_state = CurrentState()

            current_aero = {}
''', '''            current_state = CurrentState()

''')],
  'keeping the states of the iteration (a list of them) instead of using one at a time',
  'all states share one dictionary and show the values of the last entry',
  '''
def main():
    st = state(airspeed=[10., 20., 30.], density=[1.]*3, alpha=[0., 1., 2.], beta=[0.]*3, rate_P=[0.]*3, rate_Q=[0.]*3,
               rate_R=[0.]*3)
    v = [c.aero['airspeed'] for c in list(st.iter_states())]
    return v == [10., 20., 30.], str(v)
''')

S('c21_reused_lattice', 'C21', 'stdfun/run.py',
  [('''        lattice = vlm.gen_lattice(aircraft, cur_state, settings, make_new_subareas)

        # ===== VLM =====
        vlm.calc_downwash(lattice, vlmdata)
''', '''        # The wake, and so the matrix, only changes with the angle of attack
        if i == 0 or cur_state.aero['alpha'] != last_alpha:
            lattice = vlm.gen_lattice(aircraft, cur_state, settings, make_new_subareas)
            last_alpha = cur_state.aero['alpha']
            vlm.calc_downwash(lattice, vlmdata)

        # ===== VLM =====
''')],
  'a run over several states of which two neighbours differ in sideslip but not in angle of attack',
  'the second state is analysed with the wake of the first',
  '''
def main():
    import json
    from pytornado.stdfun.run import StdRunArgs, standard_run
    from pytornado.fileio.native import aircraft as nac
    ac = aircraft([('w', 2, [('seg', (0, 0, 0), (1, 4, .8), (2, 4, .8), (2, 0, 0), dict(num_c=2, num_s=3))], [])])
    sett = settings()
    nac.save(ac, sett)

    def go(betas):
        n = len(betas)
        d = dict(airspeed=[50.]*n, density=[1.]*n, alpha=[3.]*n, beta=betas, rate_P=[0.]*n, rate_Q=[0.]*n, rate_R=[0.]*n)
        json.dump({'aero': d}, open(str(sett.paths('f_state')), 'w'))
        json.dump({'aircraft': 'a.json', 'state': 's.json'}, open(str(sett.paths('f_settings')), 'w'))
        return standard_run(StdRunArgs(run=str(sett.paths('f_settings')), quiet=True))['state'].results
    both, one = go([0., 15.]), go([15.])
    bad = [k for k in both if not close(both[k][1], one[k][0])]
    return not bad, str(bad)
''')

S('c22_rhs_shape', 'C22', 'fileio/native/results.py',
  [('rhs = vlmdata.array_rhs.reshape((vlmdata.matrix_downwash.shape[0], 1))',
    'rhs = vlmdata.array_rhs\n    rhs.shape = (vlmdata.matrix_downwash.shape[0], 1)')],
  'saving the matrix file and using the right-hand side afterwards',
  'saving the matrix file turns the right-hand side in memory into a matrix with one column',
  '''
def main():
    from pytornado.fileio.native import results
    ac = aircraft([('w', 0, [RECT + (dict(num_c=1, num_s=2),)], [])])
    sett = settings()
    cur = first(state(), ac)
    lat, data = analyse(ac, cur, sett)
    sett.paths.counter = 0
    os.makedirs(str(sett.paths('d_results')), exist_ok=True)
    sett.settings['save_results']['matrix_system'] = True
    before = data.array_rhs.copy()
    results.save_all(sett, ac, cur, data)
    return data.array_rhs.shape == before.shape, str(data.array_rhs.shape)
''')

S('c23_zero_mirror', 'C23', 'fileio/native/aircraft.py',
  [("control.deflection_mirror = control_entry.get('deflection_mirror', None)",
    "control.deflection_mirror = control_entry.get('deflection_mirror') or None")],
  'a control surface that is deflected on the original side only (mirror deflection zero)',
  'loading turns the mirror deflection of zero into that of the original side',
  '''
def main():
    from pytornado.fileio.native import aircraft as nac
    ac = aircraft([('w', 2, [RECT], [dict(uid='f', segs=('seg', 'seg'), rel=(.2, .8, .6, .6), deflection=7., mirror=0.)])])
    sett = settings()
    nac.save(ac, sett)
    c = nac.load(sett).wings['w'].controls['f']
    return (c.deflection, c.deflection_mirror) == (7., 0.), str((c.deflection, c.deflection_mirror))
''')

S('c24_epsilon_one', 'C24', 'objects/settings.py',
  [("if not (0 < self.settings['_epsilon'] < 1):", "if not 0 < self.settings['_epsilon'] <= 1:")],
  'a regularisation value of exactly one',
  'the excluded end of the range is accepted',
  '''
def main():
    try:
        settings(_epsilon=1.0)
    except ValueError as e:
        return True, str(e)
    return False, 'accepted'
''')

S('c25_mirror_range', 'C25', 'objects/aircraft.py',
  [('elif not -90.0 <= self.deflection_mirror <= +90.0:', 'elif not -90.0 <= self.deflection <= +90.0:')],
  'a symmetric wing with a mirror deflection outside the range and an ordinary deflection inside',
  'a mirror deflection outside [-90, 90] degrees is accepted',
  '''
def main():
    try:
        aircraft([('w', 2, [RECT], [dict(uid='f', segs=('seg', 'seg'), rel=(.2, .8, .6, .6), deflection=7., mirror=120.)])])
    except ValueError as e:
        return True, str(e)
    return False, 'accepted'
''')

S('c27_mirrored_points', 'C27', 'plot/plottools.py',
  [('axes_2d, axes_3d, points, symmetry=0,', 'axes_2d, axes_3d, points, symmetry=wing.symmetry,')],
  'the lattice plot with the option deformation for a symmetric wing with a deformation field',
  'deformation points appear mirrored although no field is defined there',
  '''
class Rec:
    def __init__(self):
        self.n = 0

    def plot(self, *a, **k):
        self.n += 1


def main():
    from pytornado.plot import plottools
    ac = aircraft([('w', 2, [RECT], [])])
    ac.wings['w'].def_field = np.array([[.25, y, 0, 0, 0, .1*y*y, 0, .1*y, 0] for y in (0., 2., 4.)])
    a3, a2 = Rec(), tuple(Rec() for _ in range(3))
    plottools.add_deformation_field_points(a2, a3, ac)
    return [a3.n] + [a.n for a in a2] == [1, 1, 1, 1], str([a3.n] + [a.n for a in a2])
''')
