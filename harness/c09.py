"""C09 deconvolution puts energy at its delay."""
import numpy as np
import rf
import kit
import mk


def records(c, copies, src, full=True):
    n, on = c['on'] + c['after'], c['on']
    w = np.array(c['w'], float)
    out = []
    for k, comp in enumerate(c['comps']):
        x = np.zeros(n + 400)
        for d, a in copies[k]:
            i = 200 + on + d
            x[i:i + len(w)] += a * w / 10.
        x = x[200:200 + n]
        if c['dtype'] == 'int':
            x = np.round(10 * x).astype(int)
        elif c['dtype'] == 'float32':
            x = x.astype('float32')
        tr = mk.trace(x, 1000. / c['sr'], c['start'], 0, id='XX.STA..BH' + comp, slowness=6., back_azimuth=10., inclination=20., phase=c['pol'])
        tr.stats.sampling_rate = c['sr']
        tr.data = x
        tr.stats.onset = tr.stats.starttime + (on + c['onf'] / 4.) / c['sr']
        out.append(tr)
    return rf.RFStream(out)


def case(g):
    c = g['c']
    m, sr = c['m'], c['sr']
    comps = c['comps']
    srcs = 'LZ' if c['pol'] == 'P' else 'QR'
    src = [k for k, x in enumerate(comps) if x in srcs]
    if len(src) != 1:
        srcs = 'LZ'
        src = [k for k, x in enumerate(comps) if x in srcs]
    src = src[0]
    n = c['on'] + c['after']
    # windows
    win = [-(c['w0'] + c['w0f'] / 4.) / sr, (c['w1'] + c['w1f'] / 4.) / sr, c['tap'] / float(sr)]
    kw = {'winsrc': tuple(win)}
    if c['deflt']:
        kw['winsrc'] = c['pol'] if m != 'freq' and c['pol'] == 'S' else 'P'
        if m == 'iterative' or (m in ('waterlevel',) and kw['winsrc'] == 'P'):
            win = [-1000, 1000, 0]
        elif m == 'waterlevel':
            win = [-10, 1000, 5]
        else:
            win = [-10, 30, 5]
        if m == 'freq':
            win = [-1000, 1000, 0]
            kw['winsrc'] = 'P'
        if kw['winsrc'] == 'P' and g['pass']:
            del kw['winsrc']
        if m == 'waterlevel' or m == 'freq':        # the default window is tapered over 5 s
            if 5 * sr + 3 > c['on'] or 5 * sr + 8 > c['after']:
                c['on'] += 5 * sr
                c['after'] += 5 * sr
                n = c['on'] + c['after']
    elif m == 'multitaper' and n <= c['w0'] + c['w1'] + 2:
        c['after'] += 60
        n += 60
    copies = [list(map(tuple, x)) for x in c['copies'][:len(comps)]]
    copies = [[(d, a) for d, a in x if 8 - c['on'] <= d <= c['after'] - 12] or [(3, 5)] for x in copies]
    # no copies that cancel each other
    copies = [list(dict(x).items()) for x in copies]
    ex = [(0, 10)]
    if c['extra'] and m != 'multitaper':
        d = c['extrad']
        out = d > win[1] * sr + 2 or d + len(c['w']) < win[0] * sr - 2
        if 8 - c['on'] <= d <= c['after'] - 12 and out:
            ex.append((d, c['extraa']))
    copies[src] = ex
    side = 300
    if m == 'time':
        kw['spiking'] = g['spiking'] / 100.
        side = {1: 300, 10: 2000, 100: 5000}[g['spiking']]
        if g['solver'] == 'scipy':
            kw['solve_toeplitz'] = 'scipy'
    elif m in ('waterlevel', 'freq'):
        kw['waterlevel'] = g['wl'] / 1000.
        kw['gauss'] = None if g['gauss'] == 0 else sr * (.3, .5, 2)[g['gauss'] - 1]
        side = 300 if g['wl'] == 1 and g['gauss'] in (0, 3) else 9900
        if g['nfft']:
            kw['nfft'] = 2 * n
    elif m == 'iterative':
        kw['gauss'] = sr * (2, 1, .5, 2)[g['gauss']]
        side = 300 if g['gauss'] in (0, 3) else 9900
        kw['minderr'] = 1e-5
        if g['mute'] and all(d >= 0 for x in copies for d, a in x) and -win[0] * sr <= c['on'] - 1:   # muted: lags before the source window
            kw['mute_shift'] = True
    elif m == 'multitaper':
        kw['gauss'] = sr * 2
        kw['T'] = 40. / sr
        side = 4500
    response = None
    if g['respset'] == 'others':
        response = ''.join(x for k, x in enumerate(comps) if k != src)
    elif g['respset'] == 'one':
        response = comps[(src + 1) % len(comps)]
    elif g['respset'] == 'src':
        response = comps[src]
    want = [k for k in range(len(comps)) if response is None or comps[k] in response]
    norm = want.index(src) if src in want else 0
    if g['norm'] == 'none':
        norm = -1
    elif g['norm'] in ('0', '1'):
        norm = min(int(g['norm']), len(want) - 1)
    if norm >= 0 and want[norm] != src:     # the reference has a maximum
        k = want[norm]
        copies[k] = [(copies[k][0][0], 8)] + [(d, a // 2) for d, a in copies[k][1:]]
    called = []
    if m == 'func':
        def func(rsp, s, tshift=None, **k):
            called.append((list(tr.id[-1] for tr in rsp), len(s), s.stats.starttime, tshift, k, isinstance(rsp, rf.RFStream)))
            N = 2 * n + len(s)
            S = np.fft.rfft(np.asarray(s.data, float), N)
            res = [np.fft.irfft(np.fft.rfft(np.asarray(tr.data, float), N) * np.conj(S) / np.maximum(abs(S) ** 2, 1e-4 * max(abs(S) ** 2)), N) for tr in rsp]
            res = [np.roll(r, int(round(tshift * sr)))[:n] for r in res]
            if 'normalize' in k and k['normalize'] is not None:
                f = max(res[k['normalize']])
                res = [r / f for r in res]
            if g['funcret'] != 'same':
                rsp = rsp.copy()
            for tr, r in zip(rsp, res):
                tr.data = r
                tr.stats.mark = len(s)
                if g['funcret'] == 'renamed':
                    tr.stats.location = 'RF'
            return rsp
        kw['func'] = func
        kw['extra'] = 7
        side = 9900
    e = {'method': m, 'n': n, 'on': 0, 'exc': '', 'side': side, 'tol': {'time': 150, 'waterlevel': 100, 'freq': 100, 'iterative': 250, 'multitaper': 500, 'func': 100}[m],
         'copies': [[list(x) for x in copies[k]] for k in want], 'norm': norm, 'wantids': [comps[k] for k in want], 'ids': [], 'custom': True, 'inplace': True,
         'onset4': 4 * c['on'] + c['onf'], 'onset': [], 'y': [], 'p': [], 'call': '%s %s comps %s src %s response %s norm %s' % (m, {k: v for k, v in kw.items() if k != 'func'}, comps, comps[src], response, g['norm'])}
    try:
        # the pulse: the source alone, deconvolved from itself with the same call
        only = records(c, [[(0, 10)] if k == src else [] for k in range(len(comps))], src)
        if m == 'multitaper' and g['noise'] or m == 'multitaper' and c['on'] < 6 * sr + 42:
            e['call'] += ' noise'
            def noise():
                k = np.arange(60)
                return rf.RFStream([mk.trace(1e-3 * np.sin(k * (1.3 + i)) * np.cos(k * k), 1000. / sr, 0, 0, id='XX.STA..BH' + x) for i, x in enumerate(comps)])
        else:
            noise = None
        def call(st, **k):
            k = dict(kw, **k)
            if noise is not None:
                k['noise'] = noise()
            return st.deconvolve(m, **k)
        if srcs != 'LZ' or g['srcexpl']:
            kw['source_components'] = srcs if g['srcexpl'] and g['pass'] else comps[src]
        p = call(only, normalize=None)
        p = [tr for tr in p if tr.id[-1] == comps[src]][0]
        on = int(round((p.stats.onset - p.stats.starttime) * sr))
        scale = p.data[on]
        st = records(c, copies, src)
        trs = list(st)
        del called[:]
        k = {}
        if response is not None:
            k['response_components'] = response
        if g['norm'] == 'none':
            k['normalize'] = None
        elif g['norm'] in ('0', '1'):
            k['normalize'] = norm
        elif m == 'func' and src not in want:
            k['normalize'] = 0
        if src not in want and g['norm'] == 'default' and m == 'func':
            k['normalize'] = 0
        res = call(st, **k)
        e['on'] = on + 1
        e['p'] = kit.fxs(p.data / scale, 10000)
        e['y'] = [kit.fxs(tr.data / (scale if norm < 0 else 1.), 10000) for tr in res]
        e['ids'] = [tr.id[-1] for tr in res]
        e['onset'] = [int(round((tr.stats.onset - tr.stats.starttime) * sr * 4)) for tr in res]
        if m == 'func':
            ids, ls, s0, tsh, k2, isrf = called[0]
            e['custom'] = (len(called) == 1 and ids == e['wantids'] and isrf and k2.get('extra') == 7 and set(k2) <= {'extra', 'normalize'}
                           and abs((p.stats.onset - s0) - tsh) < .51 / sr and abs(ls - (win[1] - win[0]) * sr - 1) <= 1.01
                           and (len(res) == len(want)) and all(tr.stats.get('mark') == ls for tr in res) and (g['funcret'] != 'renamed' or all(tr.stats.location == 'RF' for tr in res)))
        if not (m == 'func' and g['funcret'] == 'renamed'):
            e['inplace'] = all(tr is trs[k] for tr, k in zip(res, want)) and isinstance(res, rf.RFStream) and list(st) == list(res)
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:200]
        import traceback
        e['tb'] = traceback.format_exc()[-500:]
    return e


def run(ctx):
    ctx.model_check('Placement', must_cover=('Snap', 'Cut', 'Time', 'Freq'))
    ctx.refute('Placement', 'PlacementBad_requested', 'AtDelay')
    cases = ctx.generate('PlacementGen', num=ctx.pick(500, 8000), depth=10)
    evs = kit.pmap(ctx, case, cases, limit=60)
    ctx.validate('PlacementTrace', evs)
    ctx.notes['methods'] = {o: sum(e['method'] == o for e in evs) for o in sorted(set(e['method'] for e in evs))}
    ctx.sample(*[e['call'] for e in evs[:4]])
    ctx.assumptions.append('well separated copies of short wavelets; tolerances 1 to 2.5 percent, multitaper 5 percent')
