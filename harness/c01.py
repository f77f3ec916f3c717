"""C01 iteration over event data."""
import collections
import numpy as np
import obspy
from obspy.core.event import Catalog
from obspy.core.inventory import Inventory, Network, Station, Channel
from rf.rfstream import RFStream
from rf.util import iter_event_data, iter_event_metadata
import kit
import mk
import seismo


class Unusual(Exception):
    pass


class Bar(object):
    def __init__(self):
        self.total, self.sum = -1, 0

    def update(self, n=1):
        self.sum += n


def catalog(g):
    evs = []
    for i, e in enumerate(g['ev']):
        ev = seismo.event(e, i)
        if e['lack'] == 'origin':
            ev.origins, ev.preferred_origin_id = [], None
        elif e['lack'] == 'mag':
            ev.magnitudes, ev.preferred_magnitude_id = [], None
        elif e['lack'] in ('depth', 'lat'):
            for o in ev.origins:
                setattr(o, {'depth': 'depth', 'lat': 'latitude'}[e['lack']], None)
        evs.append(ev)
    return Catalog(evs) if g['q']['form'] == 'catalog' else evs


def inventory(g):
    stas = collections.OrderedDict()
    for gr in g['gr']:
        for j, ep in enumerate(gr['epochs']):
            k = (gr['net'], gr['sta']) + ((j,) if g['split'] else ())
            for c in ep['comps']:
                stas.setdefault(k, []).append(Channel(gr['band'] + c, gr['loc'], ep['lat'] / 1000., ep['lon'] / 1000., float(ep['elev']), 0., start_date=mk.at(ep['from']), end_date=mk.at(ep['to'])))
    nets = collections.OrderedDict()
    for k, chs in stas.items():
        nets.setdefault(k[0], []).append(Station(k[1], 1., 2., 3., channels=chs))
    return Inventory([Network(n, s) for n, s in nets.items()], source='x')


def case(g):
    seismo.fast()
    q, nev, ngr = dict(g['q']), len(g['ev']), len(g['gr'])
    phase, delta = q['phase'], q['delta'] / 1000.
    if q['range'] == 'default' and phase not in ('P', 'S'):
        q['range'] = 'wide'
    w = q['win'] or ([-50, 150] if phase[-1] == 'P' else [-100, 50])
    pad = 10 if q['deflt'] else q['pad']
    sth, first = [], []
    for gr in g['gr']:
        first.append(len(sth))
        sth += [seismo.station_header(ep) for ep in gr['epochs']]
    evh = [seismo.event_header(e, i) for i, e in enumerate(g['ev'])]
    geo, ref = [], {}
    for i, e in enumerate(g['ev']):
        row = []
        for j, gr in enumerate(g['gr']):
            ep = [s for s in gr['epochs'] if s['from'] <= e['t'] <= s['to']]
            x = {'dist': 0, 'arr': []}
            if ep and not e['lack']:
                d = seismo.geometry(e, ep[0])[0]
                arr = [a for a in seismo.arrivals(q['model'], e['depth'] / 1000., d, phase) if a['name'] == phase]
                x = {'dist': kit.fx(d), 'arr': [a['name'] for a in arr]}
                if arr:
                    ref[i, j] = mk.at(e['t'] + min(a['time'] for a in arr))
            row.append(x)
        geo.append(row)
    ev, inv = catalog(g), inventory(g)
    req, bar = [], Bar()
    codes = ['%(net)s.%(sta)s.%(loc)s.%(band)s?' % gr for gr in g['gr']]
    start = {}

    def which(code, t):
        j = codes.index(code) if code in codes else -1
        c = [k for k in ref if k[1] == j] or [k for k in ref]
        return min(c, key=lambda k: abs(ref[k] + w[0] - pad - t)) if c else None

    def data(network, station, location, channel, starttime, endtime):
        code = '.'.join((network, station, location, channel))
        k = which(code, starttime)
        if k is None:
            req.append({'e': 0, 'g': 0, 'code': False, 's': 0, 't': 0})
            return None
        i, j = k
        req.append({'e': i + 1, 'g': j + 1, 'code': code == codes[j], 's': int(round(1000 * (starttime - ref[k]))), 't': int(round(1000 * (endtime - ref[k])))})
        s = g['script'][i][j]
        if s['what'] == 'raise':
            raise (ValueError('no data'), Unusual('x'), KeyError('x'), OSError('x'))[s['how']]
        if s['what'] == 'none':
            return None
        st = obspy.Stream()
        t0 = starttime + pad + q['shift'] / 1000. * delta
        start[i, j] = t0
        for x in s['segs']:
            ks = np.arange(x['a'], x['b'] + 1)
            y = (i * 10 + j) * 100000. + 10000. * 'ZNE123'.index(x['c']) + 2000 + ks
            if x['diff']:
                y[ks.size // 2:] += .5
                y[:ks.size // 2] -= .25
            tr = obspy.Trace(y, {'network': network, 'station': station, 'location': location, 'channel': channel[:-1] + x['c'], 'delta': delta, 'starttime': t0 + x['a'] * delta})
            if s['stale']:
                tr.stats.update({'event_latitude': 1.5, 'event_time': mk.T0, 'onset': mk.T0 + 7, 'station_latitude': 2.5, 'distance': 3., 'phase': 'X'})
            if x['bad'] == 1:
                tr.data = tr.data.astype('i4')
            elif x['bad'] == 2:
                tr.stats.calib = 3.
            st.append(tr)
        if s['rev']:
            st.traces = st.traces[::-1]
        return st
    kw = {'phase': phase, 'pad': pad, 'tt_model': q['model']}
    if q['deflt']:
        kw.pop('pad')
    if q['win']:
        kw['request_window'] = tuple(q['win'])
    if q['range'] == 'none':
        kw['dist_range'] = None
    elif q['range'] == 'wide':
        kw['dist_range'] = (q['lo'] / 1000., q['hi'] / 1000.)
    if q['pp']:
        kw['pp_depth'] = q['pp']
    if q['bar']:
        kw['pbar'] = bar
    e = {'op': 'data', 'ev': [{'t': x['t'], 'lack': x['lack']} for x in g['ev']], 'gr': [[{'from': s['from'], 'to': s['to']} for s in gr['epochs']] for gr in g['gr']], 'geo': geo, 'phase': phase, 'range': q['range'],
         'lo': q['lo'] * 1000, 'hi': q['hi'] * 1000, 'N': g['N'], 'script': g['script'], 'w': w, 'pad': pad, 'first': first, 'pp': bool(q['pp']), 'req': req, 'yields': [], 'exc': '', 'bar': {'used': q['bar'], 'total': 0, 'sum': 0}, 'call': repr(kw)[:200]}
    try:
        for st in iter_event_data(ev, inv, data, **kw):
            y = {'e': 0, 'g': 0, 'cls': isinstance(st, RFStream), 'trs': []}
            e['yields'].append(y)
            for n, tr in enumerate(st):
                v = np.asarray(tr.data)
                c, code = tr.stats.channel[-1:], tr.id[:-1] + '?'
                x = v - 10000 * 'ZNE123'.index(c) if c in 'ZNE123' else v
                pair = int(x[0] // 100000)
                i, j = pair // 10, pair % 10
                if n == 0:
                    y['e'], y['g'] = i + 1, j + 1
                k0 = int(round(x[0] % 100000)) - 2000
                own = code == codes[j] and (y['e'], y['g']) == (i + 1, j + 1) and np.array_equal(x, pair * 100000 + 2000 + k0 + np.arange(len(x)))
                y['trs'].append({'c': c, 'first': k0, 'n': len(v), 'own': bool(own), 'time': (i, j) in start and abs(tr.stats.starttime - (start[i, j] + k0 * delta)) < .001 and tr.stats.delta == delta,
                                 'ev': seismo.which(tr.stats, evh), 'st': seismo.which(tr.stats, sth), 'on': kit.fx(tr.stats.onset - ref[i, j], 1000), 'dist': kit.fx(tr.stats.distance), 'phase': tr.stats.phase,
                                 'pp': 'pp_depth' in tr.stats})
            for tr in st:       # what the user does with it is nobody else's business
                tr.data = tr.data[:3] * 0
                tr.stats.update({'event_latitude': 99., 'onset': mk.T0, 'station_latitude': 99.})
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
    e['bar'].update(total=bar.total, sum=bar.sum)
    out = [e]
    for events in (True, False):
        b = Bar()
        m = {'op': 'meta', 'ev': e['ev'], 'gr': e['gr'], 'events': events, 'out': [], 'exc': '', 'bar': {'used': q['bar'], 'total': 0, 'sum': 0}}
        try:
            for x in iter_event_metadata(ev if events else None, inv, **({'pbar': b} if q['bar'] else {})):
                code = '.'.join(x[k] for k in ('network', 'station', 'location', 'channel'))
                i = [i for i, s in enumerate(g['ev']) if 'event_time' in x and mk.at(s['t']) == x['event_time']]
                m['out'].append({'e': i[0] + 1 if i else 0, 'g': codes.index(code) + 1 if code in codes else -1})
        except kit.CaseTimeout:
            raise
        except Exception as ex:
            m['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
        m['bar'].update(total=b.total, sum=b.sum)
        out.append(m)
    return out


def run(ctx):
    ctx.model_check('Iterate', must_cover=('Yield', 'Skip'))
    ctx.refute('Iterate', 'IterateBad_stop', 'Complete')
    ctx.refute('Iterate', 'IterateBad_carry', 'Complete')
    cases = ctx.generate('IterateGen', num=ctx.pick(600, 10000), depth=8)
    evs = [e for r in kit.pmap(ctx, case, cases, limit=120) for e in r]
    ctx.validate('IterateTrace', evs)
    d = [e for e in evs if e['op'] == 'data']
    ctx.notes['combinations'] = sum(len(e['ev']) * len(e['gr']) for e in d)
    ctx.notes['requested'] = sum(len(e['req']) for e in d)
    ctx.notes['yielded'] = sum(len(e['yields']) for e in d)
    ctx.sample(*[e['call'] for e in d[:4]])
    ctx.assumptions.append('reference travel times are those of ObsPy TauPy; two samples of one time agree or differ for all overlapping pieces of a component')
