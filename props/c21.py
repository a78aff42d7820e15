"""C21: acoustic features."""
import math

import numpy as np
from hypothesis import strategies as st

from vf.core import facet

RULE = ('A case is a signal (noise, tones, constants, impulses), a sampling rate, frame and filter settings.  '
        'Non-trivial: several frames (spectra, derivatives), several filters (banks), non-zero frequencies (scales).')
ASSUMPTIONS = ['the reference computes every frame with an explicit discrete Fourier transform in float64']

SEED = st.integers(0, 2**31 - 1)


# ------------------------------------------------------------------ references

def dft_mag(frames, n):
    t = np.arange(frames.shape[1])
    k = np.arange(n // 2)
    ang = 2 * math.pi * np.outer(t, k) / n
    return np.sqrt((frames @ np.cos(ang)) ** 2 + (frames @ np.sin(ang)) ** 2)


def fft_length(flen):
    n = 1
    while n <= flen:
        n *= 2
    return n


def hamming(n):
    if n == 1:
        return np.ones(1)
    return .54 - .46 * np.cos(2 * math.pi * np.arange(n) / (n - 1))


def cut(x, flen, step):
    return np.array([x[s:s + flen] for s in range(0, len(x) - flen + 1, step)])


def ref_mspec(x, flen, step, preemph, window):
    x = np.asarray(x, dtype=np.float64)
    x = x - x.mean()
    fr = cut(x, flen, step)
    prev = np.concatenate([fr[:, :1], fr[:, :-1]], axis=1)
    n = fft_length(flen)
    return dft_mag((fr - preemph * prev) * window, n), n


def ref_filters(nf, n, srate, lo, hi, to, back, align):
    pts = np.array([back(to(lo) + (to(hi) - to(lo)) * i / (nf + 1)) for i in range(nf + 2)]) * n / srate
    if align:
        # The floor of a value computed twice may differ by rounding: the caller avoids such cases.
        pts = np.floor(pts)
    out = np.zeros((nf, n // 2))
    for i in range(nf):
        a, c, b = pts[i:i + 3]
        for f in range(n // 2):
            if a <= f <= c:
                out[i, f] = (f - a) / (c - a)
            elif c < f <= b:
                out[i, f] = (b - f) / (b - c)
    return pts, out


def ref_deltas(x, wins):
    out, cur = [x], x
    for w in wins:
        d = np.zeros_like(cur)
        den = 2 * sum(k * k for k in range(-w, w + 1))
        T = len(cur)
        for t in range(T):
            for k in range(1, w + 1):
                d[t] += k * (cur[min(t + k, T - 1)] - cur[max(t - k, 0)])
        cur = d / den
        out.append(cur)
    return np.concatenate(out, axis=1)


def signal(kind, n, seed, scale):
    rng = np.random.default_rng(seed)
    t = np.arange(n)
    if kind == 'noise':
        return rng.normal(size=n) * scale
    if kind == 'tone':
        return scale * np.sin(2 * math.pi * rng.uniform(.01, .45) * t + rng.uniform(0, 6)) + scale * .1
    if kind == 'impulse':
        x = np.zeros(n)
        x[rng.integers(0, n)] = scale
        return x
    if kind == 'constant':
        return np.full(n, scale * rng.normal())
    return np.cumsum(rng.normal(size=n)) * scale


# ------------------------------------------------------------------ scales

@facet(st.fixed_dictionaries({'f': st.lists(st.floats(0, 5e4), min_size=2, max_size=8)}), quick=300, shards=1)
def scales(spec, ctx):
    'Mel and Bark conversions are inverse of each other, increasing, and have their reference values.'
    import beer
    F = beer.features
    f = np.array(sorted(spec['f']))
    ctx.nontrivial(f[-1] > 0)
    for to, back in ((F.hz2mel, F.mel2hz), (F.hz2bark, F.bark2hz)):
        m = to(f)
        ctx.allclose(back(m), f, 'back to Hertz', 1e-7, 1e-6)
        ctx.allclose(to(back(m)), m, 'back to the scale', 1e-7, 1e-6)
        for a, b, u, v in zip(f[:-1], f[1:], m[:-1], m[1:]):
            ctx.ensure(u < v if b > a * (1 + 1e-6) + 1e-6 else u <= v + 1e-9, 'the conversion is not increasing')
        for a, u in zip(f, m):
            ctx.allclose(float(to(float(a))), u, 'conversion of a scalar', 1e-9, 1e-9)
    ctx.allclose(F.hz2mel(f), [1127 * math.log(1 + a / 700) for a in f], 'mel scale', 1e-9, 1e-9)
    ctx.allclose(F.hz2bark(f), [26.81 * a / (1960 + a) - .53 + 3 * a / (1960 + a) for a in f], 'bark scale', 1e-9, 1e-9)


# ------------------------------------------------------------------ filters

@facet(st.fixed_dictionaries({
    'nf': st.integers(1, 30), 'log2': st.integers(6, 10), 'srate': st.sampled_from([8000, 11025, 16000, 44100]),
    'lo': st.sampled_from([0, 20, 64.5, 300]), 'hi': st.sampled_from([None, .3, .45, .5]),
    'scale': st.sampled_from(['mel', 'bark', 'default']), 'align': st.booleans()}), quick=500, shards=2)
def filters(spec, ctx):
    'Triangular filters: shape, support, peak, and the values of the definition.'
    import beer
    F = beer.features
    nf, n, sr = spec['nf'], 2 ** spec['log2'], spec['srate']
    hi = None if spec['hi'] is None else sr * spec['hi']
    to, back = (F.hz2bark, F.bark2hz) if spec['scale'] == 'bark' else (F.hz2mel, F.mel2hz)
    kw = {} if spec['scale'] == 'default' else {'hz2scale': to, 'scale2hz': back}
    top = sr / 2 if hi is None else hi
    raw, _ = ref_filters(nf, n, sr, spec['lo'], top, to, back, False)
    if spec['align']:
        frac = raw - np.floor(raw)
        if np.minimum(frac, 1 - frac)[1:].min() < 1e-6 and top != sr / 2:
            ctx.label('boundary')
        # Equal neighbouring centres make empty triangles: not accepted by the code.
        pts = np.floor(raw + 1e-9)
        if np.minimum(frac[:-1], 1 - frac[:-1])[1:].size and np.minimum(frac, 1 - frac)[1:-1].min() < 1e-6:
            from vf.core import Skip
            raise Skip('rounding of a centre')
    else:
        pts = raw
    inside = [len([f for f in range(n // 2) if a <= f <= b]) for a, b in zip(pts[:-1], pts[1:])]
    if (np.diff(pts) < 1e-9).any() or min(inside) == 0:
        from vf.core import Skip
        raise Skip('filters narrower than a bin')
    ctx.nontrivial(nf > 1)
    # The last point, when it is the Nyquist frequency, may be rounded either way.
    got = F.create_fbank(nf, fft_len=n, srate=sr, lowfreq=spec['lo'], highfreq=hi, align_filt_center=spec['align'], **kw)
    ctx.equal(got.shape, (nf, n // 2), 'shape')
    ctx.ensure((got >= -1e-12).all() and (got <= 1 + 1e-9).all(), 'filters are between 0 and 1')
    alts = [pts]
    if spec['align']:
        for i in (0, -1):
            r = raw[i]
            if abs(r - round(r)) < 1e-6:
                alts += [np.concatenate([p[:-1], [round(r) - 1]]) if i else np.concatenate([[round(r) - 1], p[1:]])
                         for p in alts]
    ok, msg = False, ''
    for p in alts:
        if (np.diff(p) <= 0).any():
            continue
        want = np.zeros((nf, n // 2))
        for i in range(nf):
            a, c, b = p[i:i + 3]
            f = np.arange(n // 2)
            want[i] = np.clip(np.minimum((f - a) / (c - a), (b - f) / (b - c)), 0, None)
        if np.allclose(got, want, rtol=1e-6, atol=1e-7):
            ok = True
            break
        i, f = np.unravel_index(np.abs(got - want).argmax(), got.shape)
        msg = f'filter {i} at bin {f}: {got[i, f]}, expected {want[i, f]}'
    ctx.ensure(ok, msg)
    if spec['align']:
        for i in range(nf):
            ctx.allclose(got[i, int(pts[i + 1])], 1., 'value at the centre', 1e-9, 1e-9)
    again = F.create_fbank(nf, fft_len=n, srate=sr, lowfreq=spec['lo'], highfreq=hi, align_filt_center=spec['align'], **kw)
    ctx.allclose(again, got, 'the same call gives other filters', 0, 0)


# ------------------------------------------------------------------ derivatives

@facet(st.fixed_dictionaries({
    'seed': SEED, 'T': st.integers(1, 14), 'D': st.integers(1, 4),
    'wins': st.lists(st.integers(1, 4), max_size=3), 'kind': st.sampled_from(['noise', 'constant', 'linear']),
    'default': st.booleans()}), quick=400, shards=1)
def deltas(spec, ctx):
    'Derivatives: regression filter with repeated edges, order after order.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    T, D = spec['T'], spec['D']
    x = rng.normal(size=(T, D))
    if spec['kind'] == 'constant':
        x = np.repeat(x[:1], T, axis=0)
    elif spec['kind'] == 'linear':
        x = x[:1] + np.outer(np.arange(T), x[-1])
    wins = (2, 2) if spec['default'] else tuple(spec['wins'])
    x0 = x.copy()
    got = beer.features.add_deltas(x) if spec['default'] else beer.features.add_deltas(x, wins)
    ctx.nontrivial(T > 1 and len(wins) > 0)
    ctx.allclose(x, x0, 'the input was changed', 0, 0)
    ctx.equal(got.shape, (T, D * (len(wins) + 1)), 'shape')
    ctx.allclose(got[:, :D], x, 'static features', 0, 0)
    ctx.allclose(got, ref_deltas(x, wins), 'derivatives', 1e-8, 1e-9)
    if spec['kind'] == 'constant':
        ctx.allclose(got[:, D:], np.zeros((T, D * len(wins))), 'derivatives of a constant', 0, 1e-9)
    if spec['kind'] == 'linear' and wins:
        w = wins[0]
        inner = got[w:T - w, D:2 * D]
        ctx.label('linear', len(inner) > 0)
        # This regression filter is scaled by one half.
        ctx.allclose(inner, np.repeat(.5 * (x[1:2] - x[:1]) if T > 1 else x[:0], len(inner), axis=0), 'slope', 1e-7, 1e-8)
    # Linearity and shift invariance away from the edges.
    y = rng.normal(size=(T, D))
    add = beer.features.add_deltas
    ctx.allclose(add(2 * x - 3 * y, wins), 2 * got - 3 * add(y, wins), 'linearity', 1e-8, 1e-8)


# ------------------------------------------------------------------ spectra

SPEC = st.fixed_dictionaries({
    'seed': SEED, 'kind': st.sampled_from(['noise', 'tone', 'impulse', 'constant', 'walk']),
    'srate': st.sampled_from([1000, 2000, 4000, 8000]), 'step': st.integers(1, 30), 'len': st.integers(2, 100),
    'nfr': st.integers(1, 6), 'extra': st.floats(0, .99), 'pre': st.sampled_from([0, .5, .97, 1]),
    'win': st.sampled_from(['default', 'hamming', 'ones', 'hanning']), 'scale': st.sampled_from([1, 100, 1e4]),
    'dtype': st.sampled_from(['float64', 'int16', 'float32', 'strided', 'reversed'])})


def duration(samples, srate):
    'A duration in seconds that the code converts to this number of samples.'
    return (samples + .25) / srate


def the_signal(spec):
    n = spec['len'] + spec['step'] * (spec['nfr'] - 1) + int(spec['extra'] * spec['step'])
    x = signal(spec['kind'], n, spec['seed'], spec['scale'])
    dt = spec['dtype']
    if dt == 'int16':
        x = np.clip(np.round(x), -32768, 32767).astype(np.int16)
    elif dt == 'float32':
        x = x.astype(np.float32)
    elif dt == 'strided':
        x = np.repeat(x, 2)[::2]
    elif dt == 'reversed':
        x = x[::-1].copy()[::-1]
    return x


@facet(SPEC, quick=350, shards=2)
def spectrum(spec, ctx):
    'Short-term magnitude spectrum, frame by frame.'
    import beer
    x = the_signal(spec)
    keep = x.copy()
    sr, step, flen = spec['srate'], spec['step'], spec['len']
    win = {'default': hamming, 'hamming': hamming, 'ones': np.ones, 'hanning': np.hanning}[spec['win']]
    kw = {} if spec['win'] == 'default' else {'window': {'hamming': np.hamming}.get(spec['win'], win)}

    def run(sig):
        return beer.features.short_term_mspec(sig, flen=duration(flen, sr), frate=duration(step, sr),
                                              preemph=spec['pre'], srate=sr, **kw)
    got, n = run(x)
    want, wn = ref_mspec(x, flen, step, spec['pre'], win(flen))
    ctx.nontrivial(spec['nfr'] > 1)
    ctx.label(spec['dtype'])
    ctx.equal(n, wn, 'length of the transform')
    ctx.equal(got.shape, (spec['nfr'], n // 2), 'shape (frames, bins)')
    top = float(np.abs(np.asarray(x, dtype=np.float64)).max()) * flen + 1e-9
    tol = 1e-5 if spec['dtype'] == 'float32' else 1e-9
    ctx.allclose(got, want, 'magnitudes', tol, tol * top)
    ctx.ensure((x == keep).all(), 'the signal was changed')
    if spec['dtype'] == 'float64':
        g2, _ = run(x * -3.)
        ctx.allclose(g2, 3 * want, 'scaled signal', 1e-8, 1e-8 * top)
        g3, _ = run(x + 50.)
        ctx.allclose(g3, want, 'signal with an offset', 1e-8, 1e-8 * (top + 50 * flen))


@facet(st.fixed_dictionaries({
    'seed': SEED, 'kind': st.sampled_from(['noise', 'tone', 'impulse', 'walk', 'constant']),
    'srate': st.sampled_from([8000, 16000]), 'step': st.integers(20, 200), 'len': st.integers(130, 420),
    'nfr': st.integers(1, 5), 'extra': st.floats(0, .99), 'pre': st.sampled_from([0, .5, .97]),
    'nf': st.integers(1, 12), 'lo': st.sampled_from([0, 100, 300]), 'hi': st.sampled_from([None, 3000, 4000]),
    'scale': st.sampled_from([1, 100, 1e4]), 'dtype': st.sampled_from(['float64', 'int16', 'strided', 'float32']),
    'delay': st.integers(1, 2)}), quick=250, shards=2)
def filterbank(spec, ctx):
    'Filter-bank features, frame by frame, and their invariance to delays.'
    import beer
    F = beer.features
    x = the_signal(spec)
    keep = x.copy()
    sr, step, flen = spec['srate'], spec['step'], spec['len']
    hi = spec['hi'] or sr / 2
    n = fft_length(flen)

    def run(sig):
        return F.fbank(sig, flen=duration(flen, sr), frate=duration(step, sr), hifreq=hi, lowfreq=spec['lo'],
                       nfilters=spec['nf'], preemph=spec['pre'], srate=sr)
    bank = F.create_fbank(spec['nf'], n, srate=sr, lowfreq=spec['lo'], highfreq=hi)

    def ref(sig):
        s = np.asarray(sig, dtype=np.float64)
        s = s - spec['pre'] * np.concatenate([s[:1], s[:-1]])
        return np.log(1 + dft_mag(cut(s, flen, step) * hamming(flen), n) @ bank.T)
    got, want = run(x), ref(x)
    ctx.nontrivial(spec['nfr'] > 1 and spec['nf'] > 1)
    ctx.equal(got.shape, (spec['nfr'], spec['nf']), 'shape (frames, filters)')
    top = float(np.abs(np.asarray(x, dtype=np.float64)).max()) * flen + 1
    ctx.allclose(got, want, 'filter-bank features', 1e-5, 1e-6 * (1 + math.log(top)) + 2e-7 * top / np.exp(want.min()))
    ctx.ensure((x == keep).all(), 'the signal was changed')
    k = spec['delay']
    if spec['nfr'] > k:
        late = run(x[k * step:])
        # The first sample of the shortened signal has another predecessor.
        ctx.equal(len(late), spec['nfr'] - k, 'frames of the delayed signal')
        if spec['nfr'] > k + 1 and step >= 1:
            ctx.allclose(late[1:], got[k + 1:], 'delayed signal', 1e-5, 1e-5 + 4e-7 * top / np.exp(want.min()))
            ctx.label('delay')
