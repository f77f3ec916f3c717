"""C14 stacking."""
import numpy as np
import rf
import kit
import mk


def idstr(k):
    return '.'.join((k['net'], k['sta'], k['loc'], k['cha']))


def proj(tr, scale=1):
    st = tr.stats
    return {'id': tr.id, 'data': kit.fxs(tr.data, scale), 'delta': kit.fx(st.delta, 1000),
            'off': mk.ms(mk.T0 + (st.onset - st.starttime)) if 'onset' in st else -kit.INTMAX,
            'coords': ['%r' % float(st[h]) if h in st else 'unset' for h in
                       ('station_latitude', 'station_longitude', 'station_elevation')],
            'phase': st.get('phase', 'unset'), 'moveout': st.get('moveout', 'unset')}


def one(case):
    n, c = case
    ids, seen = [], set()
    for i, k in enumerate(c['ids']):     # distinct ids get distinct headers
        while idstr(k) in seen:
            k['sta'] += str(i)
        seen.add(idstr(k))
        ids.append(k)
    trs = []
    for j, t in enumerate(c['traces']):
        k = ids[t['k'] - 1]
        h = {}
        if k['coords']:
            h.update(station_latitude=k['lat'], station_longitude=float(k['lon']), station_elevation=k['ele'])
        for f in ('phase', 'moveout'):
            if k[f]:
                h[f] = k[f]
        tr = mk.trace(np.array(t['vals'][:k['n']], dtype=k['dtype']), k['delta'], t['start'],
                      t['start'] + k['off'] if k['hasonset'] else None, id=idstr(k), event_id='e%d' % j, **h)
        if k['hist']:
            tr.stats.processing = ['entry %d' % i for i in range(k['hist'])]
        trs.append(tr)
    st = rf.RFStream(trs)
    snap = mk.snapshot(st)
    ev = {'pre': [proj(tr) for tr in st], 'post': [], 'exc': '', 'kept': True, 'indep': True, 'cls': True, 'case': n}
    try:
        out = st.stack()
    except Exception as ex:
        ev['exc'] = kit.exc_name(ex)
        return ev
    ev['kept'] = mk.same(st, snap)
    ev['cls'] = type(out) is rf.RFStream
    for tr in out:
        o = proj(tr, 10000)
        o['logs'] = sum('stack(' in x for x in tr.stats.get('processing', []))
        ev['post'].append(o)
    osnap = mk.snapshot(out)
    for tr in out:                       # later changes of the stack
        tr.data[...] = -555
        tr.stats.processing.append('later')
        if 'onset' in tr.stats:
            tr.stats.onset += 1
        tr.stats.station_latitude = 99
    ev['indep'] = mk.same(st, snap)
    out2 = st.stack()
    for tr in st:                        # and later changes of the input
        tr.data[...] = 77
        tr.stats.setdefault('processing', []).append('later')
    key = lambda s: sorted((tr.id, tr.data.tolist(), [p for p in tr.stats.processing]) for tr in s)
    ev['indep'] = ev['indep'] and key(out2) == sorted(('.'.join((h['network'], h['station'], h['location'], h['channel'])),
                                                      d.tolist(), h['processing']) for _, d, h in osnap)
    return ev


def run(ctx):
    ctx.model_check('Stack', must_cover=('Add',))
    cases = ctx.generate('StackGen', num=ctx.pick(2500, 60000))
    evs = kit.pmap(ctx, one, enumerate(cases))
    ctx.validate('StackTrace', evs)
    ctx.sample(*[e for e in evs if len(e['post']) > 1][:2])
    ctx.notes['streams_with_several_ids'] = sum(len(e['post']) > 1 for e in evs)
