"""Concrete oracle: runs the real code of a scratch build on generated cases and compares it with
reference definitions written from the properties.  Used to replay a failed obligation on the real code
and as a run-time cross-check of the verifier's semantics.  Runs under the repository's interpreter."""
import sys, os, json, time, random, traceback, itertools, warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')


class Bad(Exception):
    pass


GEN = {}      # property -> list of generator functions rng -> iterator of (case name, params)
CASE = {}     # case name -> function(**params)


def gen(pid):
    def d(f):
        GEN.setdefault(pid, []).append(f)
        return f
    return d


def case(f):
    CASE[f.__name__] = f
    return f


def check(c, msg, *a):
    if not c:
        raise Bad(msg % a if a else msg)


def close(a, b, msg, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Bad('%s: shape %s instead of %s' % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    d = np.abs(a - b)
    sc = max(1.0, float(np.max(np.abs(b)))) if np.all(np.isfinite(b)) else 1.0
    bad = ~(d <= tol * sc)
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(bad)), a.shape)
        raise Bad('%s: at %s got %r expected %r' % (msg, tuple(int(x) for x in i), complex(a[i]), complex(b[i])))


def same(a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all((a == b) | ((a != a) & (b != b))):
        raise Bad('%s: values differ' % msg)


def raises(et, f, msg):
    try:
        f()
    except et:
        return
    except Exception as e:
        raise Bad('%s: raises %s instead of %s' % (msg, type(e).__name__, et.__name__ if isinstance(et, type) else et))
    raise Bad('%s: raises nothing' % msg)


# ------------------------------------------------------------------ reference definitions
def modes(nmax, mmax):
    out = [(n, 0) for n in range(nmax + 1)]
    for a in range(1, mmax + 1):
        out += [(n, -a) for n in range(a, nmax + 1)]
        out += [(n, a) for n in range(a, nmax + 1)]
    return out


def rvec(seed, L, kind=None):
    if kind is None:
        kind = (0, 0, 1, 3)[seed // 7 % 4]
    r = np.random.RandomState(seed % (2 ** 31))
    v = r.uniform(0.5, 2.0, L) * np.exp(2j * np.pi * r.uniform(0, 1, L))
    if kind == 1 and L:      # sprinkle zeros, real and imaginary values
        u = r.uniform(0, 1, L)
        v[u < 0.25] = 0
        v.real[(u >= 0.25) & (u < 0.5)] = 0
        v.imag[(u >= 0.5) & (u < 0.75)] = 0
    if kind == 2:            # widely different magnitudes
        v = v * 10.0 ** r.uniform(-6, 6, L)
    if kind == 3:            # few values, with repetitions
        v = np.array([1, 1, 1, 0, 0, 1j, -1, -1j, 2, 1 + 1j], complex)[r.randint(0, 10, L)]
    return v


def repeated(f, msg):
    """the result of a call is the caller's: overwriting it changes no later result"""
    a = f()
    w = np.array(a)
    try:
        np.asarray(a)[...] = 77
    except ValueError:
        return
    same(np.asarray(f()), w, '%s, called again after its first result was overwritten' % msg)


def sizes_small(top=5):
    return [(n, m) for n in range(top + 1) for m in range(n + 1)]


def yref(n, m, L):
    """y[0..L-1]"""
    y = np.zeros(L)
    if abs(m) > n:
        return y
    a = np.sqrt(1 / (4 * np.pi))
    for k in range(1, n + 1):
        a *= np.sqrt((2 * k + 1) / (8 * k))
    for k in range(abs(m), n):
        a *= np.sqrt((n + k + 1) / (n - k))
    B = lambda v: (n - v) * (n + v + 1.0)
    y[n] = a
    for k in range(n - 2, -1, -2):
        t = (B(k + 1) + B(k + 2) - 4.0 * m * m) * y[k + 2]
        if k + 4 <= n:
            t -= B(k + 3) * y[k + 4]
        y[k] = t / B(k)
    return y


def series_fd(c, R, C):
    """Fourier data (2R-2 x C) of the scalar series, c: dict mode -> value, as arrays over k, m"""
    nmax = max(n for n, m in c)
    D = 2 * R - 2
    F = np.zeros((nmax * 2 + 1, max(abs(m) for n, m in c) * 2 + 1), complex)
    M = F.shape[1] // 2
    ys = {}
    for (n, m), v in c.items():
        y = ys.get((n, abs(m)))
        if y is None:
            y = ys[(n, abs(m))] = yref(n, m, n + 1)
        for k in range(-n, n + 1):
            s = (-1) ** m if k < 0 else 1
            F[k + nmax, m + M] += 1j ** m * s * v * y[abs(k)]
    return F


def series(c, R, C):
    """doubled array (2R-2 x C) of the series"""
    F = series_fd(c, R, C)
    K, M = F.shape[0] // 2, F.shape[1] // 2
    th = np.pi * np.arange(2 * R - 2) / (R - 1)
    ph = 2 * np.pi * np.arange(C) / C
    A = np.exp(1j * np.outer(th, np.arange(-K, K + 1)))
    B = np.exp(1j * np.outer(np.arange(-M, M + 1), ph))
    return A @ F @ B


def dfreq(a):
    """array index -> integer frequency -L/2..L/2-1"""
    L = a
    return [(i if i < L // 2 else i - L) for i in range(L)]


def quad(G, nmax, mmax):
    """C12 formula; G: extended, sin-multiplied Fourier data (even rows)"""
    R, C = G.shape
    fr = list(range(-(R // 2), R // 2))
    out = {}
    h = {}
    for m in range(-mmax, mmax + 1):
        hk = np.zeros(nmax + 1, complex)
        for k in range(nmax + 1):
            s = 0
            for nu in fr:
                d = k - nu
                if d % 2:
                    s += G[nu, m] * (-1j / d)
            hk[k] = 4 * np.pi * s
        h[m] = hk
    for (n, m) in modes(nmax, mmax):
        y = yref(n, m, n + 1)
        v = h[m][0] * y[0] + 2 * np.sum(h[m][1:n + 1] * y[1:n + 1])
        out[(n, m)] = 1j ** (-m) * v
    return out


def fft2d(D):
    return np.fft.fft2(D) / D.size


def sinop(F):
    """F[k] -> (F[k-1]-F[k+1])/(2i) cyclic"""
    return (np.roll(F, 1, axis=0) - np.roll(F, -1, axis=0)) / 2j


def forward_data(D):
    """doubled array -> padded, sin-multiplied Fourier data"""
    L, C = D.shape
    F = fft2d(D)
    E = np.zeros((L + 2, C), complex)
    for k in range(-(L // 2) + 1, L // 2):
        E[k] = F[k]
    return E


def run(pid, seed, budget, only=None):
    rng = random.Random('%s %s' % (pid, seed))
    t0 = time.time()
    n = 0
    seen = set()
    fails = []
    samples = []
    gens = [g(rng) for g in GEN[pid]]
    live = list(gens)
    while live and time.time() - t0 < budget and not fails:
        for g in list(live):
            try:
                name, p = next(g)
            except StopIteration:
                live.remove(g)
                continue
            n += 1
            key = (name, json.dumps(p, sort_keys=True))
            if key in seen:
                continue
            seen.add(key)
            msg = one(name, p)
            if len(samples) < 3:
                samples.append(dict(case=name, params=p))
            if msg:
                fails.append(dict(case=name, params=p, message=msg))
                break
            if time.time() - t0 > budget:
                break
    return dict(evaluations=n, distinct=len(seen), failures=fails, samples=samples, wall=time.time() - t0)


def one(name, p):
    try:
        CASE[name](**p)
    except Bad as e:
        return str(e)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        return 'unexpected %s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
    return None


def forever(rng, f):
    while True:
        yield f(rng)
