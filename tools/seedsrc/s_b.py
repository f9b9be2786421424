SEEDS = []
def S(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

S('c09_overwritten_rhs', 'C09', 'aero/vlm.py',
  [('lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)',
    'lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs, overwrite_b=True)')],
  'using the right-hand side after the system has been solved (saving the matrix system does)',
  'the solution is written over the right-hand side, so that the kept system is not the one that was solved',
  '''
def main():
    ac = aircraft([('w', 2, [RECT + (dict(num_c=2, num_s=2),)], [])])
    cur = first(state(alpha=5., beta=4.), ac)
    lat, data = analyse(ac, cur)
    res = data.matrix_downwash @ data.panelwise['gamma'] - data.array_rhs
    return close(res, 0*res, 1e-8), str(res.tolist())
''')

S('c12_slat_cut_hinge', 'C12', 'objects/aircraft.py',
  [("prev_subdivision._update_subarea('slat', xsi1_prev, xsi_sdl, xsi_h1_prev, xsi_h_sdl)",
    "prev_subdivision._update_subarea('slat', xsi1_prev, xsi_sdl, xsi_h1_prev, xsi_h2_prev)")],
  'a slat with a slanted hinge line on a segment that is cut after the slat was added',
  'the inner part of the slat keeps the outer end of the whole hinge line',
  '''
def main():
    ac = aircraft([('w', 0, [('s', (0, 0, 0), (0, 4, 0), (2, 4, 0), (2, 0, 0))],
                   [dict(uid='x', type='slat', segs=('s', 's'), rel=(.2, .8, .3, .3), hinge=(.1, .25))])])
    seg, ctl = ac.wings['w'].segments['s'], ac.wings['w'].controls['x']
    seg.add_subdivision_for_control(.2, .8, ctl, .3, .3, .1, .25)
    seg.add_subdivision(.5, .5)
    h = [s.subarea['slat'].rel_hinge_vertices for s in seg.subdivision.values() if 'slat' in s.subarea]
    got = [[float(x['xsi_h1']), float(x['xsi_h2'])] for x in h]
    return close(got, [[.1, .175], [.175, .25]]), str(got)
''')

S('c26_mirror_carried_over', 'C26', 'fileio/cpacs/aircraft.py',
  [('''        deflection = 0
        deflection_mirror = None
''', '''        deflection = 0
'''),
   ('''    for idx_control in range(1, n_control_dev + 1):
        node_control_device''', '''    deflection_mirror = None

    for idx_control in range(1, n_control_dev + 1):
        node_control_device''')],
  'a CPACS file that gives a mirrored deflection for one device and none for a later one',
  'the later device takes over the mirrored deflection of the earlier one',
  '''
def main():
    import types
    class Missing(Exception):
        pass
    sys.modules['tixi3'] = sys.modules['tixi3wrapper'] = types.ModuleType('tixi3')
    from pytornado.fileio.cpacs import aircraft as ca
    ca.tixiwrapper = types.SimpleNamespace(TixiException=Missing)
    doc = [('p', 5., -3.), ('q', 2., None)]

    class Tixi:
        def getNamedChildrenCount(self, path, name):
            return len(doc)

        def getTextAttribute(self, path, name):
            return doc[int(path.rsplit('[', 1)[1].rstrip(']')) - 1][0]

        def getDoubleElement(self, path):
            node, leaf = path.rsplit('/', 1)
            row = doc[int(node.rsplit('[', 1)[1].rstrip(']')) - 1]
            v = row[1] if leaf == 'deflection' else row[2]
            if v is None:
                raise Missing
            return v
    ctl = [dict(uid=n, segs=('seg', 'seg'), rel=(e, e + .2, .7, .7)) for n, e in (('p', .1), ('q', .6))]
    ac = aircraft([('w', 2, [RECT], ctl)])
    ca.get_aircraft_control_deflections(ac, Tixi())
    got = [(c.deflection, c.deflection_mirror) for c in ac.wings['w'].controls.values()]
    # without an entry the mirrored side follows the original one
    return got[0] == (5., -3.) and got[1][0] == 2. and got[1][1] in (None, 2.), str(got)
''')

S('c29_last_strip', 'C29', 'aero/vlm.py',
  [('            if (eta == 0) or (eta == 1):', '            if (eta == 0) or (1 - eta < 0.05):')],
  'twenty-one or more spanwise panels on a segment',
  'the outermost strips of a finely divided segment are merged',
  '''
def main():
    ac = aircraft([('w', 0, [RECT + (dict(num_c=1, num_s=30),)], [])])
    lat = vlm.gen_lattice(ac, first(state(), ac), settings(), True)
    return len(lat.p) == 30, str(len(lat.p))
''')

S('c30_one_sided_deflection', 'C30', 'aero/vlm.py',
  [('                if deflection:\n', '                if subarea.parent_control.deflection:\n')],
  'a control surface that is deflected on the mirrored side only',
  'the deflection of the mirrored side is ignored if that of the original side is zero',
  '''
def main():
    def go(right, left, beta):
        c = dict(uid='c', segs=('seg', 'seg'), rel=(.3, .9, .7, .7), deflection=right, mirror=left)
        ac = aircraft([('w', 2, [RECT + (dict(num_c=2, num_s=3),)], [c])])
        return analyse(ac, first(state(beta=beta), ac))[1].coeffs
    one, two = go(0., 9., 4.), go(9., 0., -4.)
    want = [(k, s*two[k]) for k, s in (('x', 1), ('y', -1), ('z', 1), ('l', -1), ('m', 1), ('n', -1))]
    bad = [k for k, v in want if abs(one[k] - v) > 1e-6]
    return not bad, str([(k, one[k], v) for k, v in want])
''')

S('c31_reference_origin', 'C31', 'aero/c_results.cpp',
  [('arm_x = P_x - refs->RP[0];', 'arm_x = P_x - (refs->RP[0] != 0. ? refs->RP[0] : refs->CG[0]);')],
  'a moment reference point at x = 0 with the centre of gravity elsewhere',
  'moving the aircraft with its reference point away from x = 0 changes the moments',
  '''
def main():
    def go(dx):
        s = [(x + dx, y, z) for x, y, z in RECT[1:]]
        ac = aircraft([('w', 2, [('seg', *s, dict(num_c=1, num_s=2))], [])], gcenter=(.7 + dx, 0, 0), rcenter=(dx, 0, 0))
        f = analyse(ac, first(state(), ac))[1].forces
        return [f[k] for k in 'lmn']
    one, two = go(0.), go(16.)
    return close(one, two, 1e-6), f'{one} {two}'
''')
