"""C15 profiles."""
import itertools
import numpy as np
import rf
from geographiclib.geodesic import Geodesic
from rf.profile import get_profile_boxes, profile
import kit
import mk

G = Geodesic.WGS84


def place(lat, lon, az, along, off):
    a = G.Direct(lat, lon, az, along * 1000.)
    b = G.Direct(a['lat2'], a['lon2'], a['azi2'] + 90, off * 1000.)
    return b['lat2'], b['lon2']


def along_off(lat, lon, az, latlon):
    """km along and off the line, small distances off"""
    g = G.Inverse(lat, lon, *latlon)
    d = np.deg2rad(g['azi1'] - az)
    return g['s12'] / 1000 * np.cos(d), g['s12'] / 1000 * np.sin(d)


class Bar(object):      # what matters of a tqdm object
    def __init__(self, iterable):
        self.iterable = iterable

    def __iter__(self):
        return iter(self.iterable)


HEADS = ('slowness', 'phase', 'moveout')


def one(nc):
    import cartopy.crs as ccrs
    nr, case = nc
    c = case['c']
    u = c['unit'] / 20. if c['unit'] < 20 else 1      # km per unit
    bins = [b * u for b in c['bins']] if c['fbins'] or u < 1 else list(c['bins'])
    if c['fbins'] and nr % 2:
        bins = np.array(bins)
    latlon = (c['lat'], c['lon'])
    boxes = get_profile_boxes(latlon, c['az'], bins, width=c['w'] * u)
    e1 = {'op': 'boxes', 'bins': c['bins'], 'boxes': []}
    for b in boxes:
        al, of = along_off(c['lat'], c['lon'], c['az'], b['latlon'])
        e1['boxes'].append({'pos2': kit.fx(b['pos'] / u, 20), 'len': kit.fx(b['length'] / u, 10), 'along': kit.fx(al / u, 10), 'off': kit.fx(of, 10)})
    trs = []
    e = {'op': 'profile', 'bins': [10 * b for b in c['bins']], 'w': 10 * c['w'],     # tenths of the unit
         'n': c['n'], 'delta': c['delta'], 'off': c['off'] if c['hasonset'] else -kit.INTMAX,
         'traces': [], 'post': [], 'exc': '', 'kept': True, 'indep': True, 'same': True, 'conf': {k: c[k] for k in ('lat', 'lon', 'az', 'crs', 'form')}}
    for i, t in enumerate(case['traces']):
        la, lo = place(c['lat'], c['lon'], c['az'], *[x * u / 10. for x in t['pt']])
        h = dict(pp_latitude=la, pp_longitude=lo, pp_depth=50., event_time=mk.at(i * 1000))
        for k, (name, v) in enumerate((('slowness', 5. + i), ('phase', 'PS'[i % 2]), ('moveout', ['Ps', 'Ppps', 'Sp'][i % 3]))):
            if t['head'] >> k & 1:
                h[name] = v
        tr = mk.trace(np.array(t['vals'], dtype=c['dtype']), c['delta'], t['start'], t['start'] + c['off'] if c['hasonset'] else None,
                      id='XX.%s..%s%s' % (t['sta'], t['band'], t['comp']), **h)
        if t['head'] % 3:
            tr.stats.processing = ['entry %d' % i]
        trs.append(tr)
        e['traces'].append({'pt': t['pt'], 'comp': t['comp'], 'vals': t['vals'], 'hd': [repr(h.get(k, 'unset')) for k in HEADS]})
    st = rf.RFStream(trs)
    snap = mk.snapshot(st)
    kw = {}
    if c['crs'] == 'other':
        kw['crs'] = ccrs.AzimuthalEquidistant(c['lon'], c['lat'])
    elif c['crs'] == 'laea':
        kw['crs'] = ccrs.LambertAzimuthalEqualArea(c['lon'], c['lat'])
    f = c['form']
    try:
        if f == 'method':
            out = st.profile(boxes, **kw)
        else:
            x = {'stream': lambda: st, 'iterator': lambda: (tr for tr in st), 'list': lambda: list(st), 'tqdm': lambda: Bar(st)}[f]()
            out = profile(x, boxes, **kw)
        perm = rf.RFStream([trs[i] for i in sorted(range(len(trs)), key=lambda i: (i * 7 + nr) % (len(trs) + 1))])
        out2 = perm.profile(boxes, **kw)
    except Exception as ex:
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
        return [e1, e]
    e['kept'] = mk.same(st, snap)
    pos = [float(b['pos']) for b in boxes]
    if f == 'list' and not isinstance(out, rf.RFStream):
        e['exc'] = 'class %s' % type(out)
    for tr in out:
        s = tr.stats
        k = pos.index(s.box_pos) if s.get('box_pos') in pos else -1
        b = boxes[k] if k >= 0 else None
        e['post'].append({'box': k + 1, 'comp': s.channel[-1], 'num': s.num, 'data': kit.fxs(tr.data, 10000), 'len': kit.fx(s.box_length / u, 10),
                          'delta': kit.fx(s.delta, 1000), 'off': mk.ms(mk.T0 + (s.onset - s.starttime)) if 'onset' in s else -kit.INTMAX,
                          'type': s.get('type', 'unset'), 'hd': [repr(s.get(h, 'unset')) for h in HEADS],
                          'boxhead': b is not None and (s.box_latitude, s.box_longitude) == tuple(b['latlon']) and
                          (s.profile_latitude, s.profile_longitude, s.profile_azimuth) == latlon + (c['az'],) and
                          abs(s.profile_length - (c['bins'][-1] - c['bins'][0]) * u) < 1e-6})

    def key(o):
        return [(tr.stats.channel[-1], tr.stats.box_pos, tr.stats.num, np.round(tr.data, 2).tolist()) for tr in o]
    e['same'] = key(out) == key(out2)
    for tr in out:
        tr.data[...] = -555
        tr.stats.setdefault('processing', []).append('later')
    e['indep'] = mk.same(st, snap)
    return [e1, e]


def wide(cfg):
    """Mid-points of boxes of default width: which box are they in?"""
    lat, az = cfg
    bins = [0, 50, 100, 150, 200, 250, 300]
    boxes = get_profile_boxes((lat, 10), az, bins)
    found = []
    for b in boxes:
        tr = mk.trace(np.zeros(2), 1000, 0, 0, id='XX.A..BHQ', pp_latitude=b['latlon'][0], pp_longitude=b['latlon'][1])
        out = rf.RFStream([tr]).profile(boxes)
        found.append(kit.fx(2 * out[0].stats.box_pos, 1) if len(out) else -1)
    return [{'op': 'wide', 'lat': lat, 'az': az, 'bins': bins, 'found': found}]


def run(ctx):
    ctx.model_check('ProfileMC', must_cover=('Arrive',))
    cases = ctx.generate('ProfileGen', num=ctx.pick(800, 20000))
    evs = list(itertools.chain.from_iterable(kit.pmap(ctx, one, enumerate(cases), limit=120)))
    evs += list(itertools.chain.from_iterable(kit.pmap(ctx, wide, [(45, 0), (0, 0), (0, 90), (10, 90), (-30, 90)], limit=120)))
    ctx.validate('ProfileTrace', evs)
    ctx.sample(*[e for e in evs if e['op'] == 'profile' and len(e['post']) > 2][:1])
    ctx.notes['traces_binned'] = sum(len(e['traces']) for e in evs if e['op'] == 'profile')
    ctx.assumptions.append('piercing points keep 5 km (boxes up to 60 km wide: 0.2 km) distance from box edges; widths up to 160 km, latitudes up to 45 degrees')
