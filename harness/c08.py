"""C08 every record is processed on its own."""
import hashlib
import os
import tempfile
import numpy as np
import rf
from rf.rfstream import rfstats
from obspy.taup import TauPyModel
import kit
import mk

_TT = {}
SLOT = [0, 20000, 86400000]


def traces(c, r, i):
    rng = np.random.RandomState(r['seed'])
    w = np.exp(-np.arange(20) / 3.) * rng.choice([1, -1])
    row = []
    eid = r['id'].split('.')
    if len(eid) == 3:
        eid.insert(2, '')
    delta = 1000. / r['sr']
    onset = SLOT[r['slot']] + 1000000
    start = onset - int((r['on'] - r['onf'] / 4.) * delta)
    if c['samestart'] and c['ops'][0] != 'rfstats':
        onset, start = onset - start, 0
    phase = c['method']
    if c['mix']:
        phase = {'P': ['P', 'PKP', 'PP'], 'S': ['S', 'SKS', 'SS']}[c['method']][r['sta']]
    lat, lon = float(r['lat']), float(r['lon'])
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Direct(lat, lon, r['evaz'], r['evdist'] * 111194.9)
    for k, comp in enumerate(r['comps']):
        x = np.zeros(r['n'] + 200)
        x[100 + r['on']:120 + r['on']] += w * rng.uniform(-1, 1)
        for _ in range(3):
            j = 100 + r['on'] + rng.randint(-40, 80)
            x[j:j + 20] += w * rng.uniform(-.5, .5)
        x = x[100:100 + r['n']] + .02 * rng.standard_normal(r['n'])
        if r['int']:
            x = np.round(x * 10000).astype(int)
        h = dict(station_latitude=lat, station_longitude=lon, station_elevation=10. * r['sta'], event_latitude=g['lat2'], event_longitude=g['lon2'],
                 event_depth=float(r['depth']), event_magnitude=6., event_time=mk.at(onset - 500000), slowness=r['slo'] / 10., inclination=float(r['inc']),
                 back_azimuth=float(r['baz']), distance=60., phase=phase, uid=[i + 1, k + 1])
        if c['ops'][0] == 'rfstats':
            for x_ in ('slowness', 'inclination', 'back_azimuth', 'distance'):
                h.pop(x_)
            h['event_time'] = mk.at(onset - 500000)
            ph = c['method']
            arr = _tt(r['depth'], r['evdist'], ph)
            start = onset - 500000 + int(1000 * arr) - int(r['on'] * delta)
        tr = mk.trace(x, 100, start, None if c['ops'][0] == 'rfstats' else onset, id='%s.%s.%s.%s%s' % (*eid[:3], eid[3], comp), **h)
        tr.stats.sampling_rate = r['sr']
        row.append(tr)
    return row


def _tt(depth, dist, ph):
    if (depth, dist, ph) not in _TT:
        a = _model().get_travel_times(depth, dist, (ph,))
        _TT[depth, dist, ph] = a[0].time if a else 1000.
    return _TT[depth, dist, ph]


def _model(model='iasp91'):
    if model not in _TT:
        _TT[model] = TauPyModel(model)
    return _TT[model]


class _Cached(object):
    def __new__(cls, model='iasp91', **kw):
        return _model(model)


def apply(c, st, plain=False):
    m = c['method']
    for o in c['ops']:
        if len(st) == 0:
            return
        if o == 'rfstats':
            kw = {} if m == 'P' else {'phase': 'S'}
            if c['pp'] and c['ppph']:
                kw['pp_depth'] = c['pp']
            rfstats(st, **kw)
        elif o in ('rf', 'rf2'):
            kw = {'rotate': {'lqt': 'ZNE->LQT', 'rt': 'NE->RT', 'no': None}[c['rot']], 'deconvolve': c['dm']}
            if c['dm'] == 'multitaper':
                kw['winsrc'] = [(-10, 12, 2), (-8, 14, 1), (-9, 12, 2)][c['win']]
            elif c['win']:
                kw['winsrc'] = [None, (-4, 8, 1), (-6, 12, 2)][c['win']]
            if c['dm'] == 'iterative':
                kw['itmax'] = 20
            if c['norm'] == 1:
                kw['normalize'] = None
            if c['flt']:
                kw['filter'] = dict(type='bandpass', freqmin=.1, freqmax=1.)
            if c['down']:
                kw['downsample'] = 5
            if c['trim']:
                kw['trim'] = (-9, 15)
            if c['mix'] or c['win'] == 2 or c['ops'][0] == 'rf' and c['norm'] == 2:
                kw['method'] = m
            if plain or o == 'rf2':
                if plain:
                    kw = {k: v for k, v in kw.items() if k in ('filter', 'downsample', 'trim', 'method')}
                kw.update(rotate=None, deconvolve=None)
            st.rf(**kw)
        elif o == 'moveout':
            ph = {'P': ['Ps', 'Ps', 'Ppps', 'Ppss'], 'S': ['Sp', 'Sp', 'Spps', 'Sp']}[m][c['mo']]
            kw = {'ref': c['ref'] / 10.}
            if c['mo'] or c['mix']:
                kw['phase'] = ph
            if c['model']:
                kw['model'] = model_file()
            st.moveout(**kw)
        elif o == 'ppoints':
            kw = {}
            if c['ppph'] or c['mix']:
                kw['pp_phase'] = ['S' if m == 'P' else 'P', 'S' if m == 'P' else 'P', 'PPS'][c['ppph']]
            pp = st.ppoints(c['pp'], **kw)
            for tr, (a, b) in zip(st, pp):
                tr.stats.returned = [float(a), float(b)]
        elif o == 'trim2':
            ref = ['onset', 'starttime', 'endtime'][c['reft']]
            t1, t2 = c['t1'] / 10., c['t2'] / 10.
            if ref == 'starttime':
                t1, t2 = 1., 35.
            if ref == 'endtime':
                t1, t2 = -200., -1.
            st.trim2(t1, t2, ref)


_MODEL = {}


def model_file():
    if os.getpid() not in _MODEL:
        fd, fn = tempfile.mkstemp(suffix='.dat')
        with os.fdopen(fd, 'w') as f:
            f.write('0 6 3.4 0\n25 6 3.4 3\n25 7.5 4.2 0\n50 8 4.5 4\n300 8.2 4.6 5\n800 11 6 8\n')
        _MODEL[os.getpid()] = fn
    return _MODEL[os.getpid()]


def proj(x):
    x = np.asarray(x, float)
    if len(x) == 0:
        return [0]
    s = np.max(np.abs(x))
    if not np.isfinite(s):
        return [kit.INTMAX]
    rng = np.random.RandomState(7)
    out = [kit.fx(np.log(s + 1e-30))]
    for _ in range(6):
        v = rng.uniform(-1, 1, len(x)) / np.sqrt(len(x))
        out.append(kit.fx(float(v @ x) / (s + 1e-30)))
    return out


def digest(tr):
    h = sorted((k, repr(v)) for k, v in tr.stats.items() if k not in ('processing', 'uid', 'sac', 'sh', 'q'))
    return {'name': list(tr.stats.uid), 'head': hashlib.sha1(repr((h, str(tr.data.dtype.kind), len(tr))).encode()).hexdigest()[:16], 'proj': proj(tr.data)}


def one(c, rows, order, plain=False):
    st = rf.RFStream([rows[i][k].copy() for i, k in order])
    apply(c, st, plain)
    return [digest(tr) for tr in st]


def case(g):
    import rf.rfstream
    rf.rfstream.TauPyModel = _Cached
    c = g['c']
    rows = [traces(c, r, i) for i, r in enumerate(g['recs'])]
    evs = [{'op': 'new'}]
    for i, r in enumerate(g['recs']):
        order = [(i, k) for k in range(len(r['comps']))]
        try:
            out = one(c, rows, order)
            plain = []
            if 'rf' in c['ops']:
                plain = one(c, rows, order, plain=True)
        except kit.CaseTimeout:
            raise
        except Exception as ex:
            if len(r['comps']) not in (2, 3) and 'rf' in c['ops'] and kit.code_frame(ex):
                try:
                    one(c, rows, order, plain=True)
                    evs.append({'op': 'alone', 'rec': i + 1, 'ncomp': len(r['comps']), 'rf': True, 'out': [], 'plain': [], 'exc': kit.exc_name(ex) + str(ex)[:150]})
                    return evs
                except Exception:
                    pass
            return [{'op': 'skipped', 'why': kit.exc_name(ex) + ' ' + str(ex)[:150], 'ops': c['ops']}]
        evs.append({'op': 'alone', 'rec': i + 1, 'ncomp': len(r['comps']), 'rf': 'rf' in c['ops'], 'out': out, 'plain': plain, 'exc': ''})
    n = len(g['recs'])
    for j in range(3):
        use = [i for i in range(n) if j < 2 or g['sub'][i]]
        allo = [(i, k) for i in use for k in range(len(g['recs'][i]['comps']))]
        if j == 0 and g['contig'] == 0:     # records one after the other
            order = sorted(allo, key=lambda x: (g['keys'][0][x[0]][0], x[0], g['keys'][j][x[0]][x[1]]))
        else:
            order = sorted(allo, key=lambda x: (g['keys'][j][x[0]][x[1]], x))
        e = {'op': 'run', 'exc': '', 'input': [[i + 1, k + 1] for i, k in order], 'out': [], 'c': repr(c)}
        try:
            e['out'] = one(c, rows, order)
        except kit.CaseTimeout:
            raise
        except Exception as ex:
            e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:150]
        evs.append(e)
    return evs


def run(ctx):
    ctx.model_check('Records', must_cover=('Take', 'Process'))
    for b in ('id', 'onset'):
        ctx.refute('Records', 'RecordsBad_' + b, 'Inv')
    cases = ctx.generate('RecordsGen', num=ctx.pick(700, 9000), depth=8)
    res = kit.pmap(ctx, case, cases, limit=90)
    evs = []
    for i, r in enumerate(res):
        for e in r or []:
            e['g'] = i
            evs.append(e)
    skipped = [e for e in evs if e['op'] == 'skipped']
    evs = [e for e in evs if e['op'] != 'skipped']
    assert len(skipped) < .25 * len(cases), skipped[:3]
    ctx.validate('RecordsTrace', evs, key=lambda e: e['g'])
    ctx.notes['skipped cases (a record alone is refused)'] = len(skipped)
    import collections
    ctx.notes['why skipped'] = dict(collections.Counter(e['why'][:60] for e in skipped).most_common(5))
    ctx.sample(*[e['c'] for e in evs if e['op'] == 'run'][:3])
    ctx.assumptions.append('travel times are those of ObsPy TauPyModel, which is loaded once')
