"""Independent reference models."""
import math

import numpy as np

A_WGS = 6378137.0
F_WGS = 1 / 298.257223563


def tm(lat, lon, lat0, lon0, k0):
    """Transverse Mercator by the Krueger series (order n^6), relative to the
    meridian lon0 and the parallel lat0. Degrees in, metres out."""
    n = F_WGS / (2 - F_WGS)
    A = A_WGS / (1 + n) * (1 + n**2 / 4 + n**4 / 64 + n**6 / 256)
    al = [n/2 - 2*n**2/3 + 5*n**3/16 + 41*n**4/180 - 127*n**5/288
          + 7891*n**6/37800,
          13*n**2/48 - 3*n**3/5 + 557*n**4/1440 + 281*n**5/630
          - 1983433*n**6/1935360,
          61*n**3/240 - 103*n**4/140 + 15061*n**5/26880
          + 167603*n**6/181440,
          49561*n**4/161280 - 179*n**5/168 + 6601661*n**6/7257600,
          34729*n**5/80640 - 3418889*n**6/1995840,
          212378941*n**6/319334400]
    e = math.sqrt(F_WGS * (2 - F_WGS))

    def fwd(la, dl):
        phi, lam = math.radians(la), math.radians(dl)
        s = math.sin(phi)
        t = math.sinh(math.atanh(s) - e * math.atanh(e * s))
        xi = math.atan2(t, math.cos(lam))
        eta = math.asinh(math.sin(lam) / math.hypot(t, math.cos(lam)))
        x, y = eta, xi
        for j, a in enumerate(al, 1):
            y += a * math.sin(2*j*xi) * math.cosh(2*j*eta)
            x += a * math.cos(2*j*xi) * math.sinh(2*j*eta)
        return k0 * A * x, k0 * A * y

    dl = (lon - lon0 + 180.0) % 360.0 - 180.0
    x, y = fwd(lat, dl)
    y0 = fwd(lat0, 0.0)[1]
    return x, y - y0


def zone_of(lon):
    """All acceptable UTM zones of a longitude (more than one only within
    1e-9 degrees of, but not exactly on, a zone border)."""
    z = min(60, int(math.floor((lon + 180.0) / 6.0)) + 1)
    out = {z}
    k = round(lon / 6.0) * 6.0
    if lon != k and abs(lon - k) < 1e-9:
        zz = int((k + 180) // 6) + 1
        out |= {min(60, max(1, zz)), min(60, max(1, zz - 1))}
    return out


def utm(lat, lon, zone):
    e, n = tm(lat, lon, 0.0, zone * 6 - 183, 0.9996)
    return e + 500000.0, n + (1e7 if lat < 0 else 0.0)


def unwrap(p):
    """Unwrap phases along axis 0 with a plain loop."""
    p = np.array(p, dtype=float)
    for i in range(1, p.shape[0]):
        d = p[i] - p[i - 1]
        p[i] = p[i] - 2 * np.pi * np.round(d / (2 * np.pi))
    return p


def xcorr(a, b):
    """Direct cross-correlation z[lag] = sum_l a[l] b[l-lag], lags from
    -(len(b)-1) to len(a)-1, and a rounding scale."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    na, nb = len(a), len(b)
    if na * nb > 10**8:     # a day of seconds
        m = 1 << (na + nb - 2).bit_length()
        out = np.fft.irfft(np.fft.rfft(a, m) * np.fft.rfft(b[::-1], m), m)
        return out[:na + nb - 1], np.arange(-(nb - 1), na)
    out = np.zeros(na + nb - 1)
    for i in range(na):
        # contribution of a[i]*b[j] goes to lag i-j
        out[i:i + nb] += a[i] * b[::-1]
    return out, np.arange(-(nb - 1), na)


def detrend(x, how):
    if not how:
        return x
    if how == 'constant':
        return x - x.mean(axis=-1, keepdims=True)
    n = x.shape[-1]
    t = np.arange(n) - (n - 1) / 2
    m = x.mean(axis=-1, keepdims=True)
    if n < 2:
        return x - m
    slope = (x * t).sum(axis=-1, keepdims=True) / (t * t).sum()
    return x - m - slope * t


def welch(x, y, dt, nperseg, noverlap, window, how, scaling):
    """One-sided averaged cross spectrum conj(X)Y of 1-d signals."""
    from scipy.signal import get_window
    w = get_window(window, nperseg)
    step = nperseg - noverlap
    acc, k = 0, 0
    for s in range(0, len(x) - nperseg + 1, step):
        X = np.fft.rfft(detrend(x[s:s + nperseg], how) * w)
        Y = np.fft.rfft(detrend(y[s:s + nperseg], how) * w)
        acc = acc + np.conj(X) * Y
        k += 1
    acc = acc / k
    if scaling == 'density':
        acc = acc * dt / (w * w).sum()
    else:
        acc = acc / w.sum() ** 2
    if nperseg % 2:
        acc[1:] *= 2
    else:
        acc[1:-1] *= 2
    return np.arange(nperseg // 2 + 1) / (nperseg * dt), acc
