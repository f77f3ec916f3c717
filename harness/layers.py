"""Drivers of the layered model (C11 moveout and delay times, C13 piercing points)."""
import os
import tempfile
import numpy as np
import rf
from rf.simple_model import SimpleModel, load_model
import kit
import mk

DEG = 111.2     # km per degree as documented for slownesses in s/deg


def deg(p):
    return p * 1e-5 * DEG


def columns(m):
    z = np.array([x['z'] for x in m['lines']]) / 100.
    if m['kind'] == 'H':
        vp, vs = (1e5 / np.array([x[k] for x in m['lines']], dtype=float) for k in 'ps')
    else:
        vp, vs = (np.array([x[k] for x in m['lines']]) / 1000. for k in 'ps')
    return z, vp, vs, [x['n'] for x in m['lines']]


def model(m):
    """(SimpleModel, path or None)"""
    if m['kind'] == 'iasp':
        return load_model(), 'iasp91'
    z, vp, vs, n = columns(m)
    nn = None if not any(n) else n
    if m['via'] == 'lists':
        return SimpleModel(list(z), list(vp), list(vs), nn), None
    if m['via'] == 'arrays':
        return SimpleModel(z, vp, vs, None if nn is None else np.array(nn)), None
    fd, fn = tempfile.mkstemp(suffix='.dat')
    with os.fdopen(fd, 'w') as f:
        f.write('#model\n#z vp vs n\n')
        for i in range(len(z)):
            f.write(' '.join('%.12g' % x for x in ((z[i], vp[i], vs[i]) + (() if nn is None else (n[i],)))) + '\n')
    return load_model(fn), fn


def moveout(case):
    m, c = case['m'], case['c']
    mod, path = model(m)
    name = c['name']
    meth = name[0].upper()
    if c['deflt'] and path is not None:
        name = {'P': 'Ps', 'S': 'Sp'}[meth]
        if name != c['name']:
            name = c['name']
    trs = []
    for t in c['traces']:
        n, dl = t['n'], t['delta']
        on = t['on'] * dl * (t['onx'] + 1) * n // 110 // dl * dl + t['frac'] * dl // 10     # ms, inside the data
        if on > (n - 1) * dl:
            on = (n - 1) * dl
        time = np.arange(n) * dl / 1000. - on / 1000.
        sign = 1 if t['vals'] == 'up' else -1
        tr = mk.trace(1000 + sign * time, dl, 1000, 1000 + on, slowness=deg(t['p']), phase=meth)
        trs.append((tr, {'p': t['p'], 'delta': dl * 100, 't0': -on * 100, 'sign': sign}))
    st = rf.RFStream([x[0] for x in trs])
    before = [(len(tr), tr.stats.starttime, tr.stats.onset, tr.stats.delta, tr.id, tr.data.dtype) for tr in st]

    def go():
        if path is None:
            return mod.moveout(st, phase=c['name'], ref=deg(c['ref']))
        if c['deflt'] and name == {'P': 'Ps', 'S': 'Sp'}[meth]:
            return st.moveout(ref=deg(c['ref']), model=path)
        return st.moveout(c['name'], ref=deg(c['ref']), model=path)
    go()
    ev = {'op': 'move', 'kind': m['kind'], 'lines': m['lines'], 'ph': c['ph'], 'name': c['name'],
          'ref': c['ref'], 'via': 'object' if path is None else 'file', 'traces': []}
    first = [tr.data.copy() for tr in st]
    after = [(len(tr), tr.stats.starttime, tr.stats.onset, tr.stats.delta, tr.id, tr.data.dtype) for tr in st]
    for (tr, d), b, a in zip(trs, before, after):
        g = tr.stats.get
        d.update(data=kit.fxs(tr.data, 1e5), kept=a == b,
                 head={'moveout': g('moveout', 'unset'), 'before': kit.fx(g('slowness_before_moveout', -1) / DEG, 1e7),
                       'slow': kit.fx(g('slowness', -1) / DEG, 1e7)})
        ev['traces'].append(d)
    if path is None:
        for tr in st:
            tr.stats.slowness = deg(c['ref'])
    go()
    for d, x, tr in zip(ev['traces'], first, st):
        d['again'] = kit.fx(np.max(np.abs(tr.data - x)), 1e6)
    D = mod.calculate_delay_times(deg(c['traces'][0]['p']), c['name'])
    ev2 = {'op': 'delay', 'kind': m['kind'], 'lines': m['lines'], 'ph': c['ph'], 'p': c['traces'][0]['p'],
           't': kit.fxs(D[:400], 1e5)}
    if path not in (None, 'iasp91'):
        os.unlink(path)
    return [ev, ev2]


def ppoints(case):
    from geographiclib.geodesic import Geodesic
    m, c = case['m'], case['c']
    mod, path = model(m)
    name = c['pname']
    trs = []
    for i, t in enumerate(c['ptraces']):
        trs.append(mk.trace(np.zeros(3), id='XX.S%d..BHQ' % i, slowness=deg(t['p']), back_azimuth=t['baz'],
                            station_latitude=t['lat'], station_longitude=t['lon'],
                            phase='P' if name.upper() == 'S' else 'S'))
    st = rf.RFStream(trs)
    depth = c['depth'] / 100.
    pre = [{k: v for k, v in tr.stats.items() if not k.startswith('pp_')} for tr in st]
    if c['before']:         # headers of an earlier call
        other = {'phase': {'P': 'S', 'S': 'P'}.get(name[-1].upper(), 'S')}.get(c['before'], name)
        for tr in st:
            if c['before'] == 'headers':
                tr.stats.slowness, tr.stats.back_azimuth = tr.stats.slowness * .7, (tr.stats.back_azimuth + 77) % 360
        try:
            st.ppoints(depth + (7 if c['before'] == 'depth' else 0), pp_phase=other, model='iasp91' if c['before'] == 'model' or path is None else path)
        except Exception:
            pass
        for tr, h in zip(st, pre):
            tr.stats.slowness, tr.stats.back_azimuth = h['slowness'], h['back_azimuth']
    ev = {'op': 'pp', 'kind': m['kind'], 'lines': m['lines'], 'ph': c['pph'], 'depth': c['depth'], 'exc': '', 'traces': []}
    try:
        if path is None:
            ret = np.array([mod.ppoint(tr.stats, depth, phase=name) for tr in st])
        elif c['pdeflt'] and name in 'PS':
            ret = st.ppoints(depth, model=path)
        else:
            ret = st.ppoints(depth, pp_phase=name, model=path)
        xs = [mod.ppoint_distance(depth, deg(t['p']), phase=name) for t in c['ptraces']]
    except Exception as ex:
        ev['exc'] = kit.exc_name(ex)
        return [ev]
    finally:
        if path not in (None, 'iasp91'):
            os.unlink(path)
    for t, tr, r, x, h in zip(c['ptraces'], st, ret, xs, pre):
        g = Geodesic.WGS84.Inverse(t['lat'], t['lon'], tr.stats.pp_latitude, tr.stats.pp_longitude)
        ev['traces'].append({'p': t['p'], 'baz': t['baz'], 'x': kit.fx(x, 1e4), 's': kit.fx(g['s12'], 10),
                             'az': kit.fx(g['azi1'], 1000), 'depth': kit.fx(tr.stats.pp_depth, 100),
                             'stored': tuple(r) == (tr.stats.pp_latitude, tr.stats.pp_longitude),
                             'rest': {k: v for k, v in tr.stats.items() if not k.startswith('pp_')} == h})
    if len(ret) != len(c['ptraces']):
        ev['exc'] = 'number of results'
    return [ev]
