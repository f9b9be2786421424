"""Helpers shared by the demonstrations: small models, one analysis, a scratch project folder."""
import logging
import os
import shutil
import sys
import tempfile

os.environ['MPLBACKEND'] = 'Agg'
import numpy as np

logging.disable(logging.CRITICAL)

from pytornado.objects.aircraft import Aircraft
from pytornado.objects.settings import Settings
from pytornado.objects.state import FlightState
from pytornado.objects.vlm_struct import VLMLattice, VLMData
import pytornado.aero.vlm as vlm

SCRATCH = tempfile.mkdtemp(prefix='demo_')


def finish(ok, text=''):
    os.chdir('/')
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print(('ok ' if ok else 'BROKEN ') + text)
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def run(main):
    try:
        ok, text = main()
    except BaseException as e:   # a demonstration that cannot finish has shown nothing good
        import traceback
        traceback.print_exc()
        ok, text = False, repr(e)
    finish(ok, text)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol*(1 + np.abs(b))))


def settings(make_dirs=True, **kw):
    d = {'aircraft': 'a.json', 'state': 's.json'}
    d.update(kw)
    return Settings('demo.json', SCRATCH, settings_dict=d, make_dirs=make_dirs)


def aircraft(wings, gcenter=(0, 0, 0), rcenter=(0, 0, 0), area=10., span=5., chord=2., generate=True):
    """wings: (uid, symmetry, [(uid, a, b, c, d, options)], [control dict])"""
    ac = Aircraft()
    ac.uid = 'demo'
    ac.refs.update(area=area, span=span, chord=chord, gcenter=list(gcenter), rcenter=list(rcenter))
    for uid, sym, segs, ctrls in wings:
        w = ac.add_wing(uid)
        w.symmetry = sym
        for s in segs:
            seg = w.add_segment(s[0])
            for k, p in zip('abcd', s[1:5]):
                seg.vertices[k] = list(map(float, p))
            opt = s[5] if len(s) > 5 else {}
            foil = opt.get('foil', 'NACA0000')
            seg.airfoils['inner'] = seg.airfoils['outer'] = foil
            seg.panels['num_c'] = opt.get('num_c')
            seg.panels['num_s'] = opt.get('num_s')
        for c in ctrls:
            ctl = w.add_control(c['uid'])
            ctl.device_type = c.get('type', 'flap')
            ctl.deflection = c.get('deflection', 0.)
            ctl.deflection_mirror = c.get('mirror', None)
            si, so = c['segs']
            ctl.segment_uid['inner'], ctl.segment_uid['outer'] = si, so
            ei, eo, xi, xo = c['rel']
            ctl.rel_vertices.update(eta_inner=ei, eta_outer=eo, xsi_inner=xi, xsi_outer=xo)
            hi, ho = c.get('hinge', (xi, xo))
            ctl.rel_hinge_vertices.update(xsi_inner=hi, xsi_outer=ho)
            ctl.panels['num_c'] = c.get('num_c')
            ctl.check()
    if generate:
        ac.generate()
    return ac


def state(**kw):
    d = dict(airspeed=50., density=1.2, alpha=3., beta=0., rate_P=0., rate_Q=0., rate_R=0.)
    d.update(kw)
    st = FlightState()
    st.update_from_dict(d)
    return st


def first(st, ac=None):
    cur = next(iter(st.iter_states()))
    cur.refs = ac.refs if ac is not None else dict(
        area=1., span=1., chord=1., gcenter=np.zeros(3), rcenter=np.zeros(3))
    return cur


def analyse(ac, cur, sett=None, data=None):
    """One complete analysis of one state"""
    sett = sett or settings()
    vlm.set_autopanels(ac, sett)
    lat = vlm.gen_lattice(ac, cur, sett, True)
    data = data or VLMData()
    vlm.calc_downwash(lat, data)
    vlm.calc_boundary(lat, cur, data)
    vlm.solver(data)
    vlm.calc_results(lat, cur, data)
    return lat, data


def raw_lattice(patches, pan, cur, eps=1e-6):
    """The native lattice routine on given patches"""
    from pytornado.aero import c_vlm
    patches = np.array(patches, dtype=float, order='C')
    pan = np.array(pan, dtype=int, order='C')
    n = int((pan[:, 0]*pan[:, 1]).sum())
    lat = VLMLattice()
    lat.info.update(num_wings=1, num_segments=len(patches), num_controls=0, num_strips=n, num_panels=n)
    lat.p = np.zeros((n, 4, 3))
    lat.v = np.zeros((n, 4, 3))
    lat.c = np.zeros((n, 3))
    lat.bound_leg_midpoints = np.zeros((n, 3))
    lat.n = np.zeros((n, 3))
    lat.a = np.zeros(n)
    lat.epsilon = eps
    c_vlm.py2c_lattice(lat, cur, patches, np.zeros(n, dtype=int), pan)
    return lat


RECT = ('seg', (0, 0, 0), (0, 5, 0), (2, 5, 0), (2, 0, 0))
