"""C21 invalid requests."""
import os
import numpy as np
from obspy.core.trace import Stats
import rf
from rf.deconvolve import deconvolve
from rf.harmonics import harmonics
from rf.rfstream import RFStream, rfstats
from rf.simple_model import load_model
import kit
import mk
import seismo

DT = .1


def wave(seed, n=600, k0=300):
    """Integer samples with a clear onset at sample k0."""
    rnd = np.random.RandomState(seed)
    d = rnd.randint(-3, 4, n).astype(float)
    pulse = np.array([20., 90, 140, 60, -80, -120, -40, 10])
    for k, f in ((k0, 1.), (k0 + 40, .3)):
        d[k:k + 8] += f * pulse[:max(0, min(8, n - k))]
    return d


def s(x):
    return ''.join(x)


def attempt(e, st, call):
    """Perform the request; note whether it raised and whether st is what it was."""
    stats = not hasattr(st, 'traces')
    before = dict(st) if stats else mk.snapshot(st)
    try:
        call()
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        e['raised'], e['exc'] = True, kit.exc_name(ex) + ' ' + str(ex)[:100]
    else:
        e['raised'], e['exc'] = False, ''
    e['kept'] = dict(st) == before if stats else mk.same(st, before)
    return e


def dkw(method):
    kw = {}
    if method == 'func':
        kw['func'] = lambda stream, src, tshift=0, **kwargs: stream
    return kw


def deconv(g):
    st = RFStream([mk.trace(wave(i), 100, 0, 30000 + g['off'], 'XX.STA..BH' + c) for i, c in enumerate(g['comps'])])
    kw = dkw(g['method'])
    if g['norm'] and g['method'] != 'func':
        kw['normalize'] = 0
    kw.update(method=g['method'], source_components=s(g['src']), winsrc=g['win'])
    if not g['resp']['any']:
        kw['response_components'] = s(g['resp']['c'])
    e = {'op': 'deconv', 'comps': g['comps'], 'src': g['src'], 'resp': g['resp'], 'method': g['method'], 'call': repr(kw)}
    return attempt(e, st, lambda: deconvolve(st, **kw) if g['fun'] else st.deconvolve(**kw))


def rfreq(g):
    st = RFStream()
    k = 0
    for r, comps in enumerate(g['recs']):
        for c in comps:
            h = {} if g['nophase'] else {'phase': g['phases'][r % len(g['phases'])]}
            st.append(mk.trace(wave(k), 100, 1000000 * r, 1000000 * r + 30000, 'XX.STA..BH' + c, back_azimuth=30. + r, inclination=20., slowness=6.4, event_time=mk.at(1000000 * r - 500000), **h))
            k += 1
    heads = [tr.stats.phase for tr in st if 'phase' in tr.stats]
    kw = dkw(g['dec'])
    if g['method'] != '-':
        kw['method'] = g['method']
    # sources as the method takes them; the records were chosen such that the components are unique
    m = g['method'] if g['method'] != '-' else (heads[0][-1:].upper() if heads else '')
    rot = g['rotate']
    need = {'P': 'LZ', 'S': 'QR'}.get(m, 'LZ')
    after = {'ZNE': {'ZNE->LQT': 'LQT', 'NE->RT': 'ZRT'}[rot]}
    ok = all(sum(c in need for c in after.get(comps, comps)) == 1 for comps in g['recs'])
    kw.update(deconvolve=None if g['dec'] == '-' else g['dec'], rotate=rot if all(c == 'ZNE' for c in g['recs']) else None)
    if kw['rotate'] is None:
        ok = all(sum(c in need for c in comps) == 1 for comps in g['recs'])
    if g['filter']:
        kw['filter'] = {'type': 'bandpass', 'freqmin': .1, 'freqmax': 2.}
    if g['trim']:
        kw['trim'] = (-29, 29)
    if g['win'] and g['dec'] != 'func':
        kw['winsrc'] = 'P'
    e = {'op': 'rf', 'method': g['method'], 'last': [h[-1:] for h in heads], 'one': len(set(heads)) == 1, 'dec': g['dec'], 'src': ok, 'call': repr(kw)}
    return attempt(e, st, lambda: st.rf(**kw))


def harm(g):
    st = RFStream()
    has = sorted(set(g['has']))
    for i in range(g['nev']):
        for c in has:
            st.append(mk.trace(wave(i, 20, 5), 500, 1000000 * i, 1000000 * i + 2500, 'XX.STA..BH' + c, back_azimuth=(77. * i) % 360, event_time=mk.at(1000000 * i - 500000), phase='P'))
    kw = {'components': s(g['comps']), 'method': g['method']}
    e = {'op': 'harm', 'comps': kw['components'], 'has': has, 'method': g['method'], 'want': g['comps'], 'call': repr(kw)}
    return attempt(e, st, lambda: harmonics(st, **kw) if g['fun'] else st.harmonics(**kw))


def move(g):
    st = RFStream()
    for i, pos in enumerate(g['pos']):
        on = {'before': -g['by'], 'start': 0, 'inside': 30000, 'end': 59900, 'after': 59900 + g['by']}[pos]
        st.append(mk.trace(wave(i), 100, 0, on, 'XX.STA..BHQ', slowness=g['slow'][i] / 10., phase=g['ph']))
    phase = None if g['none'] else s(g['phase'])
    model = g['model'] if g['model'] == 'iasp91' else os.path.join(os.getcwd(), 'missing.dat')
    ref = g['ref'] / 10.
    direct = g['direct'] and not g['none']
    e = {'op': 'move', 'phase': s(g['phase']), 'len': len(g['phase']), 'none': g['none'], 'pos': g['pos'], 'model': g['model'], 'call': repr((phase, ref, direct))}
    return attempt(e, st, lambda: load_model(model).moveout(st, phase=phase, ref=ref) if direct else st.moveout(phase=phase, ref=ref, model=model))


def pp(g):
    st = RFStream()
    for i in range(g['n']):
        h = {'pp_depth': 7., 'pp_latitude': 1.5, 'pp_longitude': 2.5} if g['old'] else {}
        st.append(mk.trace(wave(i, 10, 1), 100, 0, 300, 'XX.STA..BHQ', slowness=6.4, back_azimuth=40. + i, station_latitude=10., station_longitude=20. + i, phase=g['ph'], **h))
    phase = s(g['phase'])
    none = g['none'] and g['how'] == 'ppoints'
    model = g['model'] if g['model'] == 'iasp91' else os.path.join(os.getcwd(), 'missing.dat')
    e = {'op': 'pp', 'phase': phase, 'len': len(phase), 'none': none, 'model': g['model'], 'call': repr((phase, g['how']))}

    def call():
        if g['how'] == 'ppoints':
            st.ppoints(g['depth'], pp_phase=None if none else phase, model=model)
        elif g['how'] == 'ppoint':
            load_model(model).ppoint(st[0].stats, g['depth'], phase=phase)
        else:
            load_model(model).ppoint_distance(g['depth'], 6.4, phase=phase)
    return attempt(e, st, call)


def delays(g):
    st = RFStream()
    e = {'op': 'delays', 'phase': s(g['phase']), 'len': len(g['phase']), 'call': repr(s(g['phase']))}
    return attempt(e, st, lambda: load_model().stretch_delay_times(g['slow'] / 10., phase=s(g['phase']), ref=g['ref'] / 10.))


def meta(g):
    seismo.fast()
    ev = seismo.event(g['e'], 1)
    lack = g['lack']
    if lack == 'origin':
        ev.origins, ev.preferred_origin_id = [], None
    elif lack == 'mag':
        ev.magnitudes, ev.preferred_magnitude_id = [], None
    elif lack:
        for o in ev.origins:
            setattr(o, {'depth': 'depth', 'lat': 'latitude', 'lon': 'longitude', 'time': 'time'}[lack], None)
    sta = {'latitude': .5, 'longitude': .25, 'elevation': 100.}
    if g['slack']:
        del sta[g['slack']]
    h = {}
    if g['form'] != 'none' and g['old'] != 'none':
        h.update(event_latitude=1., event_longitude=61., event_depth=20., event_magnitude=5., event_time=mk.at(5000), phase='X', onset=9000, slowness=3.)
        if g['old'] == 'all':
            h.update(station_latitude=-.5, station_longitude=.75, station_elevation=3.)
    st = RFStream([mk.trace(wave(i, 10, 1), 100, 0, id='XX.STA..BHZ', **h) for i in range(g['n'])])
    kw = {'phase': g['phase']}
    if g['given'] in ('both', 'event'):
        kw['event'] = ev
    if g['given'] in ('both', 'station'):
        kw['station'] = sta
    if g['range'] != 'default':
        kw['dist_range'] = None if g['range'] == 'none' else (10, 170)
    if g['pp'] and g['phase'] in ('P', 'S'):
        kw['pp_depth'] = 50.
    old = 'none' if g['form'] == 'none' else g['old']
    e = {'op': 'meta', 'lack': lack, 'slack': g['slack'], 'given': g['given'], 'phase': g['phase'], 'range': g['range'], 'old': old, 'call': repr({k: v for k, v in kw.items() if k not in ('event', 'station')}) + g['form']}
    obj = {'stats': st[0].stats, 'stream': st, 'none': None}[g['form']]
    return attempt(e, st, lambda: rfstats(obj, **kw))


def case(g):
    return {'deconv': deconv, 'rf': rfreq, 'harm': harm, 'move': move, 'pp': pp, 'delays': delays, 'meta': meta}[g['op']](g)


def run(ctx):
    ctx.model_check('Requests', must_cover=('AcceptRequest', 'RefuseRequest', 'AcceptTrace', 'RefuseTrace', 'Checked', 'WriteTrace', 'Finish'))
    ctx.refute('Requests', 'RequestsBad_interleaved', 'RefusedUntouched')
    ctx.refute('Requests', 'RequestsBad_late', 'RefusedUntouched')
    cases = ctx.generate('RequestsGen', num=ctx.pick(6000, 60000), depth=5)
    evs = kit.pmap(ctx, case, cases, limit=60)
    ctx.validate('RequestsTrace', evs)
    ctx.notes['requests'] = {o: '%d, %d raised' % (sum(e['op'] == o for e in evs), sum(e['op'] == o and e['raised'] for e in evs)) for o in sorted(set(e['op'] for e in evs))}
    ctx.sample(*[{k: e[k] for k in ('op', 'call', 'raised', 'kept')} for e in evs[:6]])
    ctx.assumptions.append('valid requests are those of the generator that satisfy the conditions; they use data with a clear onset, 30 s before and after it')
