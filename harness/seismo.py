"""Events, stations, inventories and reference geometry (travel times by ObsPy)."""
import numpy as np
from obspy.core import AttribDict
from obspy.core.event import Event, Origin, Magnitude, Catalog
from obspy.geodetics import gps2dist_azimuth
from obspy.taup import TauPyModel
import mk

RAY = ('distance', 'back_azimuth', 'inclination', 'onset', 'slowness')
_MODELS = {}
_ARR = {}


def taup(model='iasp91'):
    if model not in _MODELS:
        _MODELS[model] = TauPyModel(model)
    return _MODELS[model]


class Cached(object):
    """Stand-in for TauPyModel that loads every model once."""
    def __new__(cls, model='iasp91', **kw):
        return taup(model)


def fast():
    import rf.rfstream
    rf.rfstream.TauPyModel = Cached


def event(e, i):
    o = Origin(time=mk.at(e['t']), latitude=e['lat'] / 1000., longitude=e['lon'] / 1000., depth=float(e['depth']))
    m = Magnitude(mag=e['mag'] / 10.)
    ev = Event(resource_id='smi:local/ev%d' % i, origins=[o], magnitudes=[m])
    if e['pref']:
        ev.origins.insert(0, Origin(time=mk.at(e['t'] - 7000), latitude=1., longitude=2., depth=33000.))
        ev.preferred_origin_id = o.resource_id
    if e['prefmag']:
        ev.magnitudes.insert(0, Magnitude(mag=1.5))
        ev.preferred_magnitude_id = m.resource_id
    return ev


def event_header(e, i):
    return {'event_latitude': e['lat'] / 1000., 'event_longitude': e['lon'] / 1000., 'event_depth': e['depth'] / 1000., 'event_magnitude': e['mag'] / 10.,
            'event_time': mk.at(e['t']), 'event_id': 'smi:local/ev%d' % i}


def station(s):
    d = {'latitude': s['lat'] / 1000., 'longitude': s['lon'] / 1000., 'elevation': float(s['elev'])}
    if s['form'] == 1:
        return AttribDict(d)
    if s['form'] == 2:
        d['local_depth'] = 3.
    return d


def station_header(s):
    return {'station_latitude': s['lat'] / 1000., 'station_longitude': s['lon'] / 1000., 'station_elevation': float(s['elev'])}


def which(stats, cands):
    """Index (from 1) of the only candidate all whose values are in stats, 0 if none of their values is set, -1 otherwise."""
    for i, h in enumerate(cands):
        if all(k in stats and stats[k] == v for k, v in h.items()):
            return i + 1
    return -1 if any(k in stats for h in cands for k in h) else 0


def geometry(e, s):
    m, baz, _ = gps2dist_azimuth(s['lat'] / 1000., s['lon'] / 1000., e['lat'] / 1000., e['lon'] / 1000.)
    dist = m / 1000. / 111.2
    deg = abs(abs(s['lat']) - 90000) < 1 or dist < .01 or dist > 179.
    return dist, baz, deg


def arrivals(model, depth, dist, phase='P'):
    """Arrivals of the phase and of some other phases."""
    k = (model, depth, dist, phase)
    if k not in _ARR:
        if len(_ARR) > 5000:
            _ARR.clear()
        _ARR[k] = [{'name': a.name, 'time': int(round(a.time * 1000)), 'inc': int(round(a.incident_angle * 1e4)), 'slow': int(round(a.ray_param * np.pi / 180 * 1e5))}
                   for a in taup(model).get_travel_times(depth, dist, list(dict.fromkeys((phase, 'P', 'S', 'PcP'))))]
    return _ARR[k]
