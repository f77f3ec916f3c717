"""C03 ray metadata."""
import numpy as np
import rf
from rf.rfstream import rfstats
import kit
import mk
import seismo


def case(g):
    seismo.fast()
    q, given = g['q'], dict(g['given'])
    evh = [seismo.event_header(e, i) for i, e in enumerate(g['ev'])]
    sth = [seismo.station_header(s) for s in g['st']]
    form = q['form']
    own = g['own'] if form == 'stream' else g['own'][:1]
    if form == 'none':
        given = {'e': given['e'] or own[0]['e'], 's': given['s'] or own[0]['s']}
        own = [{'e': 0, 's': 0, 'old': False}]
    geo, exact = [], {}
    a = own[0]
    d0 = seismo.geometry(g['ev'][(given['e'] or a['e']) - 1], g['st'][(given['s'] or a['s']) - 1])[0]
    rng = q['range']
    lo, hi = {'none': (None, None), 'wide': (q['lo'] / 1000., q['hi'] / 1000.), 'exact': (d0, d0), 'above': (np.nextafter(d0, 1e9), 190.), 'below': (0., np.nextafter(d0, 0))}.get(rng, (None, None))
    used = {(given['e'] or o['e'], given['s'] or o['s']) for o in own}
    for i, e in enumerate(g['ev']):
        row = []
        for j, s in enumerate(g['st']):
            d, baz, deg = seismo.geometry(e, s)
            row.append({'dist': kit.fx(d), 'baz': kit.fx(baz % 360.), 'degenerate': bool(deg), 'arr': seismo.arrivals(q['model'], e['depth'] / 1000., d, q['phase']) if (i + 1, j + 1) in used else [], 'exact': bool(lo is None or lo <= d <= hi)})
        geo.append(row)
    phase = q['phase']
    kw = {'phase': phase, 'tt_model': q['model']}
    if phase == 'P' and q['n'] % 2:
        kw.pop('phase')
    if q['model'] == 'iasp91' and q['n'] % 3:
        kw.pop('tt_model')
    if rng == 'none':
        kw['dist_range'] = None
    elif rng != 'default':
        kw['dist_range'] = (lo, hi) if q['n'] % 2 else [lo, hi]
    if rng == 'default' and phase not in ('P', 'S', 'p'):
        rng = 'wide'
        lo, hi = (0., 180.)
        kw['dist_range'] = (lo, hi)
        for row in geo:
            for x in row:
                x['exact'] = True
    if q['pp']:
        kw['pp_depth'] = q['pp']
    traces = []
    for i, o in enumerate(own):
        tr = mk.trace(np.arange(5), 100, 1000 * i)
        tr.stats.uid = i
        t = {'uid': i, 'e': o['e'], 's': o['s']}
        if g['lack'] and given['e']:
            t['e'] = 0
        if g['lack'] and given['s']:
            t['s'] = 0
        if t['e']:
            tr.stats.update(evh[t['e'] - 1])
        if t['s']:
            tr.stats.update(sth[t['s'] - 1])
        if o['old']:
            tr.stats.update({'distance': 1.5, 'slowness': 2.5, 'phase': 'X'})
        traces.append((t, tr))
    if given['e']:
        kw['event'] = seismo.event(g['ev'][given['e'] - 1], given['e'] - 1)
    if given['s']:
        kw['station'] = seismo.station(g['st'][given['s'] - 1])
    st = rf.RFStream([tr for _, tr in traces])
    before = [{k: tr.stats.get(k) for k in seismo.RAY + ('phase',)} for tr in st]
    trs = list(st)
    e = {'phase': phase, 'range': rng, 'lo': 0 if lo is None else kit.fx(lo), 'hi': kit.fx(400) if hi is None else kit.fx(hi), 'given': given, 'geo': geo, 'traces': [t for t, _ in traces],
         'pp': bool(q['pp']), 'out': [], 'exc': '', 'self': True, 'untouched': True, 'call': repr((form, {k: v for k, v in kw.items() if k not in ('event', 'station')}))}
    try:
        if form == 'stream':
            res = rfstats(st, **kw)
            e['self'] = res is st and all(any(tr is x for x in trs) for tr in st)
            out = [tr.stats for tr in res]
        elif form == 'stats':
            res = rfstats(st[0].stats, **kw)
            e['self'] = res is None or res is st[0].stats
            out = [] if res is None else [res]
        else:
            res = rfstats(**kw)
            out = [] if res is None else [res]
            for x in out:
                x['uid'] = 0
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
        return e
    ids = [s['uid'] for s in out]
    for i, tr in enumerate(trs):
        if i not in ids:
            e['untouched'] = e['untouched'] and all(tr.stats.get(k) == v for k, v in before[i].items())
    for s in out:
        e['out'].append({'uid': s['uid'], 'ev': seismo.which(s, evh), 'st': seismo.which(s, sth), 'dist': kit.fx(s['distance']), 'baz': kit.fx(s['back_azimuth'] % 360.),
                         'time': int(round((s['onset'] - s['event_time']) * 1000)), 'inc': kit.fx(s['inclination'], 10**4), 'slow': kit.fx(s['slowness'], 10**5), 'phase': s['phase'],
                         'pp': all('pp_' + x in s for x in ('latitude', 'longitude', 'depth'))})
    return e


def run(ctx):
    ctx.model_check('Metadata', must_cover=('Keep', 'Discard'))
    for b in ('stale', 'own'):
        ctx.refute('Metadata', 'MetadataBad_' + b, 'Right')
    cases = ctx.generate('MetadataGen', num=ctx.pick(1200, 15000), depth=8)
    evs = [e for e in kit.pmap(ctx, case, cases, limit=90) if e]
    ctx.validate('MetadataTrace', evs)
    import collections
    ctx.notes['kept'] = dict(collections.Counter('%d of %d' % (len(e['out']), len(e['traces'])) for e in evs if not e['exc']))
    ctx.notes['refused (phase does not arrive)'] = sum(bool(e['exc']) for e in evs)
    ctx.notes['phases'] = dict(collections.Counter(e['phase'] for e in evs if e['out']))
    ctx.sample(*[e['call'] for e in evs[:4]])
    ctx.assumptions.append('travel times, incidence angles and slownesses of all phases at a distance are those of ObsPy TauPy; geodesics are those of ObsPy (WGS84); a degree is 111.2 km as documented')
