"""C10 array deconvolution functions."""
import numpy as np
import scipy.linalg
from rf import deconvolve as D
import kit


def own_solver(a, b):
    return np.linalg.solve(scipy.linalg.toeplitz(a), b)


def arrays(c, form, ints):
    src = np.array(c['src'], dtype=int if ints else float)
    rsp = [np.array(r, dtype=int if ints else float) for r in c['rsp']]
    return src, tuple(rsp) if form == 'tuple' else rsp


def lst(rs, scale):
    return [kit.fxs(np.asarray(r).real, scale) for r in rs]


def case(g):
    c = g['c']
    if not any(c['src']):
        c['src'][len(c['src']) // 2] = 2
    if not any(c['rsp'][0]):
        c['rsp'][0][0] = 1
    nr = len(c['rsp'])
    e = {'op': c['op'], 'src': c['src'], 'rsp': c['rsp'], 'exc': '', 'hasnorm': False, 'normed': [], 'ref': [], 'single': True, 'kept': True,
         'real': True, 'cut': True, 'shift': g['shift'], 'spiking': 10 if g['defspik'] else g['spiking'], 'N': c['N'], 'wl': g['wl'], 'gauss': g['gauss'],
         'tshift': g['tshift'], 'num': 0, 'raw': [], 'call': ''}
    src, rsp = arrays(c, g['form'], g['ints'])
    src0, rsp0 = src.copy(), [r.copy() for r in rsp]
    if c['op'] == 'time':
        kw = {}
        if not g['defspik']:
            kw['spiking'] = g['spiking'] / 10.
        if g['length']:
            kw['length'] = g['length']
        if g['solver'] != 'default':
            kw['solve_toeplitz'] = own_solver if g['solver'] == 'own' else g['solver']
        e['num'] = g['length'] or len(rsp[0])
        def f(r, **k):
            return D.deconv_time(r, src, g['shift'], **dict(kw, **k))
        scale, norm = 1000, min(g['norm'], nr - 1)
        norm = None if norm < 0 else norm
        default = g['defnorm'] and norm == 0
    else:
        N = c['N']
        sr = float(g['sr'])
        kw = {'waterlevel': g['wl'] / 100., 'tshift': g['tshift'] / sr, 'gauss': None if g['gauss'] == 0 else g['gauss'] * sr / N}
        if g['nfftarg']:
            kw['nfft'] = N
        def f(r, **k):
            return D.deconv_waterlevel(r, src, sr, **dict(kw, **k))
        scale, norm = 10000, None if g['wnorm'] == 'none' else 'src' if g['wnorm'] == 'src' else min(g['idx'], nr - 1)
        default = g['defnorm'] and norm == 0
    e['call'] = '%s %s norm=%s form=%s' % (c['op'], kw, norm, g['form'])
    try:
        raw = f(rsp, normalize=None)
        e['raw'] = lst(raw, scale)
        e['real'] = all(np.max(np.abs(np.imag(r))) < 1e-6 * (1e-3 + np.max(np.abs(r))) for r in raw)
        one = f(rsp[0], normalize=None)
        e['single'] = np.ndim(one) == 1 and np.allclose(one, raw[0], rtol=1e-9, atol=1e-12)
        if c['op'] == 'water':
            short = f(rsp, normalize=None, length=min(g['cut'], N), nfft=N)
            e['cut'] = all(len(s) == min(g['cut'], N) and np.allclose(s, r[:len(s)], rtol=1e-9, atol=1e-12) for s, r in zip(short, raw)) and len(short) == nr
            if g['info']:
                again, info = f(rsp, normalize=None, return_info=True)
                e['cut'] &= len(again) == nr and all(np.allclose(s, r) for s, r in zip(again, raw)) and isinstance(info, dict)
        if norm is not None:
            ref = f(src, normalize=None, **({'length': N} if c['op'] == 'water' else {})) if norm == 'src' else raw[norm]
            amp = np.max(np.abs(ref)) if c['op'] == 'time' else np.max(np.real(ref))
            if abs(amp) > .05 and abs(amp) > 1e-2 * max(np.max(np.abs(r)) for r in raw):
                if g['form'] == 'single' and norm in (0, 'src'):
                    normed = [f(rsp[0], **({} if default else {'normalize': norm}))]
                    e['raw'] = e['raw'][:1]
                    e['rsp'] = e['rsp'][:1]
                elif c['op'] == 'water' and g['info']:
                    normed = f(rsp, normalize=norm, return_info=True)[0]
                else:
                    normed = f(rsp, **({} if default else {'normalize': norm}))
                e['hasnorm'] = True
                e['normed'] = lst(normed, 100000)
                e['ref'] = kit.fxs(np.real(ref), scale)
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:200]
    e['kept'] = np.array_equal(src, src0) and all(np.array_equal(a, b) for a, b in zip(rsp, rsp0)) and src.dtype == src0.dtype
    return e


def lowpass(a, g, off, total):
    """Samples -off..total+off of a filtered with a Gaussian of standard deviation g (per sample)."""
    n = 256
    f = np.fft.fftfreq(n)
    y = np.fft.ifft(np.fft.fft(a, n) * np.exp(-.5 * (f / g) ** 2)).real
    return np.concatenate([y[n - off:], y[:total + off + 1]])


OFF = 8
WIDTHS = {0: 200., 1: .25, 2: .2, 3: .15}


def iter_case(g):
    """Iterative deconvolution: results with k and k + 1 spikes, and with the drawn limits."""
    c = g['c']['c']
    w, z, sr = c['w'], c['z'], float(g['sr'])
    T = 10 * g['sr'] if g['deft'] else g['T']
    n = T + 34 + g['extra']
    wave = [0] * z + w
    srcl = wave + [0] * (n - len(wave)) if g['pad'] else wave
    rspl = []
    for p in g['c']['rsp']:
        if not any(p):
            p[len(p) // 2] = 2
        r = [0] * g['c']['off'] + [int(v) for v in (np.convolve(p, wave) if c['copies'] else p)]
        rspl.append(r + [0] * (n - len(r)))
    dtype = int if g['ints'] else float
    src, rsp = np.array(srcl, dtype=dtype), [np.array(r, dtype=dtype) for r in rspl]
    if g['form'] == 'tuple':
        rsp = tuple(rsp)
    elif g['form'] == 'array2':
        rsp = np.array(rsp)
    src0, rsp0 = src.copy(), [r.copy() for r in rsp]
    width = WIDTHS[c['gauss']]
    kw = {'gauss': width * sr, 'mute_shift': g['mute']}
    if not g['deft']:
        kw['tshift'] = T / sr
    nr = len(rsp)
    norm = None if g['norm'] < 0 else min(g['norm'], nr - 1)
    default = g['defnorm'] and norm == 0
    last = nr - 1
    itmax = g['itmax'] or 400
    e = {'exc': '', 'hasnorm': False, 'normed': [], 'raw': [], 'ref': [], 'single': True, 'kept': True, 'src': wave, 'len': n, 'off': OFF, 'T': T, 'mute': g['mute'],
         'k': g['k'], 'itmax': itmax, 'minderr': g['minderr'], 'ra': [], 'rb': [], 'rmsa': [], 'rmsb': [], 'ita': 0, 'itb': 0, 'rms': [], 'its': [], 'visible': True,
         'gr': kit.fxs(lowpass(rspl[last], width, OFF, n), 100), 'gs': kit.fxs(lowpass(wave, width, OFF, len(wave)), 100),
         'call': 'iterative %s norm=%s form=%s k=%d itmax=%s minderr=%s' % (kw, norm, g['form'], g['k'], itmax, g['minderr'] / 1e4)}
    def f(r, **k):
        return D.deconv_iterative(r, src, sr, **dict(kw, **k))
    lim = {'minderr': g['minderr'] / 1e4}
    if g['minderr'] == 10:
        lim = {}
    if g['itmax']:
        lim['itmax'] = g['itmax']
    def rmss(x):
        return [kit.INTMAX if not v == v else int(min(round(v * 1e6), kit.INTMAX)) for v in x]
    try:
        a, ita, ra = f(rsp[last], normalize=None, itmax=g['k'], minderr=0)
        b, itb, rb = f(rsp[last], normalize=None, itmax=g['k'] + 1, minderr=0)
        e.update(ra=kit.fxs(a / sr, 1000), rb=kit.fxs(b / sr, 1000), ita=int(ita), itb=int(itb), rmsa=rmss(ra), rmsb=rmss(rb))
        # the low-pass filter may carry a spike at the first samples beyond the beginning
        e['visible'] = c['gauss'] == 0 or bool(max(np.max(np.abs(a[:5])), np.max(np.abs(b[:5]))) < 1e-3 * np.max(np.abs(b)))
        raw, its, rms = f(rsp, normalize=None, **lim)
        e['raw'] = lst(raw, 1000)
        e.update(its=[int(i) for i in its], rms=[rmss(x) for x in rms])
        one, it1, rms1 = f(rsp[last], normalize=None, **lim)
        e['single'] = (len(raw) == len(its) == len(rms) == nr and np.ndim(one) == 1 and np.allclose(one, raw[last], rtol=1e-9, atol=1e-12) and it1 == its[last]
                       and np.allclose(rms1, rms[last]))
        if norm is not None:
            e['ref'] = lst([raw[norm]], 1000)[0]
            if g['form'] == 'single' and norm == 0:
                normed = [f(rsp[0], **dict(lim, **({} if default else {'normalize': 0})))[0]]
                e['raw'] = e['raw'][:1]
            else:
                normed = f(rsp, **dict(lim, **({} if default else {'normalize': norm})))[0]
            e['hasnorm'] = True
            e['normed'] = lst(normed, 100000)
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:200]
    e['kept'] = np.array_equal(src, src0) and all(np.array_equal(p, q) for p, q in zip(rsp, rsp0)) and src.dtype == src0.dtype
    return e


def laws_case(c):
    """Two or three calls whose results are tied by a law."""
    m, law, f, k, n, sr = c['m'], c['law'], c['f'], c['k'], c['n'], float(c['sr'])
    for a in ('src', 'r1', 'r2', 'n1', 'n2'):
        c[a][3] = c[a][3] or 4
    src, r1, r2, n1, n2 = (np.array(c[a], dtype=float) for a in ('src', 'r1', 'r2', 'n1', 'n2'))
    g = None
    if law == 'gauss':
        g = c['g'] * sr / n
    def call(rsp, src=src, nse=(n1, n2), gauss=c['gs'] * sr / 40., shift=c['ts'], level=.1):
        if m == 'time':
            return D.deconv_time(rsp, src, shift - 10, normalize=None)
        if m == 'water':
            return D.deconv_waterlevel(rsp, src, sr, waterlevel=level, gauss=gauss, tshift=shift / sr, length=n, nfft=n, normalize=None)
        if m == 'iter':
            return D.deconv_iterative(rsp, src, sr, tshift=shift / sr, gauss=gauss, itmax=12, minderr=0, normalize=None)[0]
        return D.deconv_multitaper(rsp, src, list(nse)[:len(rsp)], sr, -shift / sr, gauss=gauss, K=c['K'], tband=c['tband'] / 2., T=c['T'] / sr, olap=1 - 1. / c['olap'], normalize=None)
    e = {'m': m, 'law': law, 'f': f, 'k': k, 'g': c['g'], 'exc': '', 'finite': True, 'effect': False, 'x': [], 'y': [], 'z': [], 'X': [], 'Y': [], 'Z': [], 'what': '%s %s' % (m, law)}
    try:
        x = y = z = np.zeros(1)
        if law == 'alone':
            x, y = call([r1, r2])[0], call([r1])[0]
        elif law == 'order':
            x, y = call([r1, r2])[0], call([r2, r1], nse=(n2, n1))[1]
        elif law == 'linear':
            x, y, z = call([r1])[0], call([r2])[0], call([r1 + f * r2])[0]
        elif law == 'scaled':
            x, y = call([r1])[0], call([f * r1])[0]
        elif law == 'shift':
            x, y = call([r1])[0], call([r1], shift=c['ts'] + k)[0]
        elif law == 'gauss':
            x, y = call([r1], gauss=None)[0], call([r1], gauss=g)[0]
        elif law == 'noise':
            x, y = call([r1])[0], call([r1], nse=(n1 * 5,))[0]
            e['effect'] = True
        elif law == 'level':
            x, y = call([r1], level=.02)[0], call([r1], level=.3)[0]
        elif law == 'itself':
            # without mean and trend, nothing in the last windows
            r, T = np.zeros(n), c['T']
            for i, a in enumerate(c['pat']):
                r[T + 2 * i:T + 2 * i + 3] += [a or 1, -2. * (a or 1), a or 1]
            e['k'] = c['ts']
            x, y = (D.deconv_multitaper([r.copy()], r[:-3].copy(), [a], sr, -c['ts'] / sr, gauss=None, K=c['K'], tband=c['tband'] / 2., T=T / sr, olap=1 - 1. / c['olap'], normalize=None)[0] for a in (1e-6 * n1, r[:-3].copy()))
        elif law == 'move':
            T, n = c['T2'], max(n, 80)
            step = T // c['olap']
            r = np.append(r1, np.zeros(n - len(r1)))
            def moved(j, f=40.):
                a = np.zeros(60)
                a[T + k + j:T + k + j + 3] = [f, -2 * f, f]
                return D.deconv_multitaper([r], src, [a], sr, -c['ts'] / sr, gauss=None, K=c['K'], tband=c['tband'] / 2., T=T / sr, olap=1 - 1. / c['olap'], normalize=None)[0]
            x, y, z = moved(0), moved(step), moved(0, 0.)
        elif law in ('info', 'source'):
            def info(**kw):
                return D.deconv_waterlevel([r1], src, sr, waterlevel=.1, gauss=c['gs'] * sr / 40., tshift=c['ts'] / sr, length=n, nfft=n, **kw)
            x = np.real(info(return_info=True, normalize='src')[1]['rf_src'])
            if law == 'info':
                y, z = (np.real(info(return_info=True, normalize=a)[1]['rf_src']) for a in (0, None))
            else:
                y = z = np.real(D.deconv_waterlevel([np.append(src, np.zeros(n - len(src)))], src, sr, waterlevel=.1, gauss=c['gs'] * sr / 40., tshift=c['ts'] / sr, length=n, nfft=n, normalize=0)[0])
        elif law == 'trend':
            def t(a, j):
                return a + j + c['trend'] * np.arange(len(a)) / 10.
            x, y = call([r1])[0], call([t(r1, 3)], src=t(src, -7), nse=(t(n1, 12),))[0]
        x, y, z = (np.asarray(a) for a in (x, y, z))
        e['finite'] = all(bool(np.all(np.isfinite(a))) for a in (x, y, z))
        if e['finite']:
            top = 1. if law == 'itself' else max(np.max(np.abs(a)) for a in (x, y, z)) or 1.
            e['x'], e['y'], e['z'] = (kit.fxs(np.real(a) / top, 100000) for a in (x, y, z))
            if law in ('noise', 'level', 'gauss', 'move'):
                X, Y, Z = (np.abs(np.fft.rfft(np.real(a))) for a in (x, y, z))
                top = max(Z) if law == 'move' else max(X)
                e['X'], e['Y'], e['Z'] = (kit.fxs(a / top, 100000) for a in (X, Y, Z))
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:200]
    return e


def run(ctx):
    ctx.model_check('SpikesMC', must_cover=('Place', 'Stop'))
    for fault, inv in (('signed', 'OneCopy'), ('power', 'Lowers'), ('stop', 'Begins')):
        ctx.refute('SpikesMC', 'SpikesBad_%s' % fault, inv)
    its = kit.pmap(ctx, iter_case, ctx.generate('IterGen', num=ctx.pick(500, 6000), depth=10), limit=30)
    ctx.validate('IterTrace', its)
    ctx.model_check('Deconv', must_cover=('PadShift', 'PadLength'))
    cases = ctx.generate('DeconvGen', num=ctx.pick(1500, 20000), depth=10)
    evs = kit.pmap(ctx, case, cases, limit=30)
    ctx.validate('DeconvTrace', evs)
    ctx.notes['normalised'] = sum(e['hasnorm'] for e in evs)
    ctx.notes['operations'] = {o: sum(e['op'] == o for e in evs) for o in ('time', 'water')}
    ctx.sample(*[e['call'] for e in evs[:4]])
    laws = kit.pmap(ctx, laws_case, ctx.generate('LawsGen', num=ctx.pick(1000, 9000), depth=10), limit=30)
    ctx.validate('LawsTrace', laws)
    ctx.notes['laws'] = {o: sum(e['what'] == o for e in laws) for o in sorted({e['what'] for e in laws})}
    ctx.notes['iterative, steps seen'] = sum(e['visible'] for e in its)
    ctx.sample(*[e['call'] for e in its[:2]])
    ctx.assumptions.append('spectra of 4, 6, 8 and 12 points (exact twiddle tables), integer samples up to 3')
