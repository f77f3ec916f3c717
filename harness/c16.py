"""C16 harmonic decomposition."""
import numpy as np
import rf
from rf.harmonics import harmonics
import kit
import mk

EVH = ('event_id', 'event_depth', 'event_latitude', 'event_longitude', 'event_magnitude', 'inclination', 'slowness', 'event_time', 'back_azimuth')


def one(case):
    c, az = case['c'], case['az']
    n, comps = c['n'], c['comps']
    azim = 0 if c['defazim'] else c['azim']
    s = [30, 3] if c['defscal'] else c['s']
    two = len(comps) == 2
    a, b = np.array(c['a'], dtype=float), np.array(c['b'], dtype=float)
    m = len(az['ev'])
    times = {}
    for i, e in enumerate(az['ev']):
        times[i] = 1000 * i + e['t']

    def trace(i, comp, data):
        e = az['ev'][i]
        start = 3600000 * (m - i if az['byorder'] else (7 * i) % m) + e['t']
        h = dict(event_time=mk.at(1000000 * ((5 * i) % 13) + times[i]), event_magnitude=5.5, event_latitude=1. * i, event_longitude=2. * i,
                 event_depth=10. + i, event_id='ev%d' % i, slowness=6., inclination=20., back_azimuth=15 * e['u'] + e['wrap'], phase='P', type='rf',
                 station_latitude=1.)
        if i % 3 == 0:
            h['back_azimuth'] = float(h['back_azimuth'])
        tr = mk.trace(data, c['delta'], start, start + c['off'] if c['hasonset'] else None, id='XX.STA..BH' + comp, **h)
        if c['hist']:
            tr.stats.processing = ['entry %d' % k for k in range(c['hist'])]
        return tr

    def data(i, second):
        phi = np.deg2rad(15. * (az['ev'][i]['u'] - azim))
        B = np.array([1, np.cos(phi), np.sin(phi), np.cos(2 * phi), np.sin(2 * phi)])
        if not two:
            return B @ a
        if not second:
            B0 = B * (s[0] / 10., 1, 1, 1, 1)
            return B0 @ a + (B * (0, 1, 1, 1, 1)) @ b
        B1 = np.array([0, -np.sin(phi), np.cos(phi), -np.sin(2 * phi), np.cos(2 * phi)])
        return B1 @ a + (-B1 + (s[1] / 10., 0, 0, 0, 0)) @ b
    trs, ev = [], []
    for k, comp in enumerate(comps):
        key = az['keyT' if k else 'keyR']
        for i in sorted(range(m), key=lambda i: (key[i], i)):
            tr = trace(i, comp, data(i, k == 1))
            ev.append({'u': az['ev'][i]['u'], 'second': k == 1, 'data': kit.fxs(tr.data)})
            trs.append((key[i], tr))
    if az['byorder'] or c['place'] == 'mixed':
        trs.sort(key=lambda x: x[0])
    trs = [t for _, t in trs]
    extra = [trace(i, x, np.arange(n) * 7. + i) for x in c['extra'] if x not in comps for i in range(2)]
    if c['place'] == 'first':
        trs = extra + trs
    elif c['place'] == 'last':
        trs = trs + extra
    else:
        for i, t in enumerate(extra):
            trs.insert(3 * i + 1, t)
    st = rf.RFStream(trs)
    snap = mk.snapshot(st)
    kw = {}
    if not c['defazim']:
        kw['azim'] = 15 * azim + c['azimoff']
    if two and not c['defscal']:
        kw['scalars'] = (s[0] / 10., s[1] / 10.)
    if c['method'] == 'freq' or m % 2:
        kw['method'] = c['method']
    e = {'two': two, 'comps': comps, 'azim': azim, 's': s, 'a': c['a'], 'b': c['b'], 'traces': ev, 'exc': '', 'post': [], 'kept': True,
         'indep': True, 'off': c['off'] if c['hasonset'] else -kit.INTMAX, 'delta': c['delta'], 'sta': 'STA', 'method': c['method'],
         'args': {k: repr(v) for k, v in kw.items()}}
    try:
        if c['fun']:
            out = harmonics(st, comps, **kw)
        elif comps == 'R' and m % 2:
            out = st.harmonics(**kw)
        else:
            out = st.harmonics(components=comps, **kw)
    except Exception as ex:
        e['exc'] = kit.exc_name(ex) + str(ex)[:100]
        return e
    e['kept'] = mk.same(st, snap)
    for tr in out:
        g = tr.stats.get
        e['post'].append({'data': kit.fxs(tr.data, 1000), 'term': g('term', 'unset'), 'cha': tr.stats.channel, 'loc': tr.stats.location,
                          'comps': g('components', 'unset'), 'type': g('type', 'unset'), 'sta': tr.stats.station,
                          'off': mk.ms(mk.T0 + (g('onset') - tr.stats.starttime)) if 'onset' in tr.stats else -kit.INTMAX,
                          'delta': kit.fx(tr.stats.delta, 1000), 'evh': sum(h in tr.stats for h in EVH)})
    for tr in out[:1]:
        tr.data[...] = 5
        tr.stats.setdefault('processing', []).append('later')
    e['indep'] = mk.same(st, snap) and all('later' not in tr.stats.get('processing', []) for tr in out[1:])
    return e


def run(ctx):
    ctx.model_check('Harmonics', must_cover=('Take',))
    cases = ctx.generate('HarmonicsGen', num=ctx.pick(1500, 30000))
    evs = kit.pmap(ctx, one, cases)
    ctx.validate('HarmonicsTrace', evs)
    ctx.sample(*evs[:1])
    ctx.notes['two_component_cases'] = sum(e['two'] for e in evs)
