"""C07 steps, signs and mirroring of the receiver function calculation."""
import numpy as np
import rf
from rf.deconvolve import deconvolve
import kit
import mk


def deg(cs):
    return float(np.rad2deg(np.arctan2(cs[1], cs[0]))) % 360


def exact_stream(g, method_header):
    trs = []
    for i, r in enumerate(g['recs']):
        row = []
        for k, comp in enumerate(r['comps']):
            row.append(mk.trace(np.array(r['data'][k], float if g['c']['arg'] else int), 1000, 1000000 * i, 1000000 * i + 1000 * r['on'], id='XX.ST%d..BH%s' % (r['sta'], comp),
                                back_azimuth=deg(r['b']), inclination=deg(r['i']), slowness=6., phase=method_header, event_time=mk.at(1000000 * i - 500000)))
        trs.append(row)
    return trs


def long_stream(g, method_header):
    trs = []
    for i, r in enumerate(g['recs']):
        rng = np.random.RandomState(r['seed'])
        w = np.exp(-np.arange(30) / 3.) * rng.choice([1, -1])
        row = []
        for k, comp in enumerate(r['comps']):
            x = np.zeros(r['n'] + 200)
            x[100 + r['on']:130 + r['on']] += w * rng.uniform(-1, 1)
            for _ in range(3):
                j = 100 + r['on'] + rng.randint(-60, 100)
                x[j:j + 30] += w * rng.uniform(-.5, .5)
            x = x[100:100 + r['n']] + .02 * rng.standard_normal(r['n'])
            tr = mk.trace(x, 1000. / r['sr'], 1000000 * i, 1000000 * i + int(1000 * r['on'] / r['sr'] + 250. * r['onf'] / r['sr']), id='XX.ST%d..BH%s' % (r['sta'], comp),
                          back_azimuth=float(r['b']), inclination=float(r['i']), slowness=6., phase=method_header, event_time=mk.at(1000000 * i - 500000))
            tr.stats.sampling_rate = r['sr']
            row.append(tr)
        trs.append(row)
    return trs


def interleaved(rows, yes):
    if not yes:
        return [tr for row in rows for tr in row]
    rows = [list(r) for r in rows]
    out = []
    while any(rows):
        for r in rows:
            if r:
                out.append(r.pop(0))
    return out


def case(g):
    c, o = g['c'], g['opts']
    m = o['method']
    head = {'header': m, 'arg': 'P', 'both': m, 'converted': 'SKS' if m == 'S' else 'PKP'}[c['given']]
    kw = {}
    if c['given'] == 'arg' or c['given'] == 'both':
        kw['method'] = m
    hi = c['hi'] and o['down'] and c['dfreq'] in (0, 3)
    if hi:      # sampling rates a large factor above the requested one
        g['recs'] = [dict(r, n=5 * r['n'], on=5 * r['on'], sr=50) for r in g['recs']]
    rows = (exact_stream if c['kind'] == 'exact' else long_stream)(g, head)
    e = {'kind': c['kind'], 'opts': o, 'exc': '', 'recs': [], 'out': [], 'types': [], 'phases': [], 'self': True, 'ta': c['ta'], 'tb': c['tb'],
         'plans': g['plans'], 'nc': [len(r['comps']) for r in g['recs']], 'diff': [], 'heads': []}
    if o['rot'] == 'lqt':
        if not c['deflrot']:
            kw['rotate'] = 'ZNE->LQT'
    else:
        kw['rotate'] = 'NE->RT' if o['rot'] == 'rt' else [None, '', False][c['arg'] % 3]
    if not o['dec']:
        kw['deconvolve'] = [None, '', False][c['arg'] % 3]
    if c['kind'] == 'exact':
        if o['trim']:
            kw['trim'] = (c['ta'], c['tb'])
        st = rf.RFStream(interleaved(rows, c['interleave']))
        try:
            res = st.rf(**kw)
        except kit.CaseTimeout:
            raise
        except Exception as ex:
            e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:200]
            return e
        e['self'] = res is st
        for i, r in enumerate(g['recs']):
            e['recs'].append(dict(r, comps=list(r['comps'])))
            e['out'].append([{'comp': tr.id[-1], 'data': mk.ints(25 * np.asarray(tr.data, float)), 'start': (mk.ms(tr.stats.starttime) - 1000000 * i) / 1000. if False else (mk.ms(tr.stats.starttime) - 1000000 * i) // 1000,
                              'on': (mk.ms(tr.stats.onset) - 1000000 * i) // 1000} for tr in st if tr in rows[i] or any(tr is x for x in rows[i])])
        e['types'] = [str(tr.stats.get('type')) for tr in st]
        e['phases'] = [str(tr.stats.get('phase'))[-1:].upper() for tr in st]
        return e
    # stepwise
    flt = [{'type': 'bandpass', 'freqmin': .05, 'freqmax': .8}, {'type': 'lowpass', 'freq': .6, 'corners': 2, 'zerophase': True}, {'type': 'highpass', 'freq': .05}][c['flt']]
    tr_ = (c['t1'] / 10., c['t2'] / 10.)
    df = [5, 10, 2.5, 4, 20][c['dfreq']]
    df = float(df) if c['dfloat'] else df
    if o['filter']:
        kw['filter'] = flt
    if o['trim']:
        kw['trim'] = tr_
    if o['down']:
        kw['downsample'] = df
    dkw = {}
    meth = 'time' if c['deflm'] else c['dm']
    seen = []
    if o['dec']:
        if not c['deflm']:
            kw['deconvolve'] = meth
        win = [None, (-4, 8, 1), (-6, 12, 2), (-3, 10, .5)][c['win']]
        if meth == 'multitaper':
            win = [None, (-10, 12, 2), (-8, 14, 1), (-9, 12, 2)][c['win']]
            if c['win'] == 0:
                win = (-10, 13, 2)
        if meth == 'iterative':
            dkw['itmax'] = 40
        if win is not None:
            dkw['winsrc'] = win
        if c['arg'] == 1:
            dkw.update({'time': {'spiking': .3}, 'waterlevel': {'waterlevel': .1, 'gauss': 1.}, 'iterative': {'gauss': 1.}, 'multitaper': {'gauss': 1.}, 'func': {'extra': 3}}[meth])
        if c['arg'] == 2 and meth != 'func':
            dkw['normalize'] = None
        if c['reg'] and meth != 'multitaper':
            dkw['response_components'] = 'QTRNEZL'
        if meth == 'func':
            def func(rsp, src, tshift=0, **k):
                k = {a: b for a, b in k.items() if a != 'normalize'}
                seen.append((sorted(tr.id[-1] for tr in rsp), src.id[-1], round(tshift, 3), repr(sorted(k.items())), len(src)))
                for tr in rsp:
                    tr.data = tr.data * 2 + np.sum(src.data ** 2) + (k.get('extra', 0))
                return rsp
            dkw['func'] = func
    sc = 'LZ' if m == 'P' else 'QR'
    gsc = None
    if c['src'] and o['dec']:
        gsc = 'QRN' if m == 'P' else 'LZE'
        kw['source_components'] = gsc
    # every record needs exactly one source component; records without get another source
    use = gsc or sc
    def comps_after(r):
        x = r['comps']
        if o['rot'] == 'lqt' and len(x) == 3 and set(x) == set('ZNE'):
            return x.replace('Z', 'L').replace('N', 'Q').replace('E', 'T')
        if o['rot'] == 'rt' and len(x) in (2, 3) and set('NE') <= set(x):
            return x.replace('N', 'R').replace('E', 'T')
        return x
    if o['dec']:
        keep = [i for i, r in enumerate(g['recs']) if len(r['comps']) not in (2, 3) or sum(x in use for x in comps_after(r)) == 1]
        if not keep:
            return None
        for a in ('recs', 'plans'):
            g[a] = [g[a][i] for i in keep]
        rows = [rows[i] for i in keep]
        e['plans'] = g['plans']
        e['nc'] = [len(r['comps']) for r in g['recs']]
    st = rf.RFStream(interleaved(rows, c['interleave']))
    want = [[tr.copy() for tr in row] for row in rows]
    # the steps of the plan with the primitive operations
    import obspy
    for row, plan in zip(want, g['plans']):
        for stp in plan:
            if stp == 'filter':
                for tr in row:
                    tr.filter(**flt)
            elif stp == 'trim':
                for tr in row:
                    tr.trim(tr.stats.onset + tr_[0], tr.stats.onset + tr_[1])
            elif stp == 'downsample':
                for tr in row:
                    if df <= tr.stats.sampling_rate:
                        tr.decimate(int(np.floor(tr.stats.sampling_rate / df + 1e-9)))
            elif stp == 'rotate':
                s = obspy.Stream(row)
                s.rotate('ZNE->LQT' if o['rot'] == 'lqt' else 'NE->RT')
            elif stp == 'sign':
                for tr in row:
                    if tr.id[-1] == 'Q':
                        tr.data = -1 * tr.data
            elif stp == 'deconvolve':
                s = rf.RFStream(row)
                deconvolve(s, meth, source_components=use, **dict({'winsrc': m}, **dkw))
            elif stp == 'mirror':
                for tr in row:
                    tr.data = np.asarray(tr.data)[::-1].copy()
                    tr.stats.onset = tr.stats.starttime + (tr.stats.endtime - tr.stats.onset)
    mine, seen[:] = list(seen), []
    try:
        res = st.rf(**dict(kw, **dkw))
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        import traceback
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:200]
        e['tb'] = traceback.format_exc()[-600:]
        e['call'] = repr((kw, {k: v for k, v in dkw.items() if k != 'func'}, [r['comps'] for r in g['recs']]))
        return e
    e['call'] = repr((kw, {k: v for k, v in dkw.items() if k != 'func'}, [r['comps'] for r in g['recs']]))
    e['self'] = res is st and sorted(mine) == sorted(seen)
    resp = dkw.get('response_components')
    for row, wrow, plan in zip(rows, want, g['plans']):
        d, h = 0., True
        for a, b in zip(row, wrow):
            x, y = np.asarray(a.data, float), np.asarray(b.data, float)
            h = h and a.id == b.id and len(x) == len(y) and a.stats.starttime == b.stats.starttime and a.stats.onset == b.stats.onset and a.stats.sampling_rate == b.stats.sampling_rate
            if len(x) == len(y) and len(x):
                d = max(d, np.max(np.abs(x - y)) / max(1e-12, np.max(np.abs(y))))
        e['diff'].append(int(min(2e9, 1e9 * d)) if d == d else 2000000000)
        e['heads'].append(bool(h))
    e['types'] = [str(tr.stats.get('type')) for tr in st]
    e['phases'] = [str(tr.stats.get('phase'))[-1:].upper() for tr in st]
    return e


def run(ctx):
    ctx.model_check('RfCalcMC', must_cover=('NextStep', 'Process'))
    cases = ctx.generate('RfCalcGen', num=ctx.pick(900, 12000), depth=8)
    evs = [e for e in kit.pmap(ctx, case, cases, limit=90) if e]
    ctx.validate('RfCalcTrace', evs)
    ctx.notes['kinds'] = {o: sum(e['kind'] == o for e in evs) for o in ('exact', 'plan')}
    ctx.sample(*[e['call'] for e in evs if e.get('call')][:4])
    ctx.assumptions.append('filters, decimation and the integer geometry of trim are those of ObsPy')
