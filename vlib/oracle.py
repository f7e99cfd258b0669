"""Reference models in double precision, written from the documentation and independent of the code under test."""
import numpy as np
from scipy import special


# ---- coordinates -------------------------------------------------------------------------------------------------

def fourier_grid(Nx, Ny, pix, px=0, py=0):
    j = np.arange(-px, Nx + px)
    i = np.arange(-py, Ny + py)
    x = (j - Nx / 2) * pix
    y = (Ny / 2 - i) * pix
    return np.meshgrid(x, y)


def image_axes(Nx, Ny, pix, sf):
    x = (np.arange(Nx) - Nx // 2) * sf / (Nx * pix)
    y = -(np.arange(Ny) - Ny // 2) * sf / (Ny * pix)
    return x, y


def image_grid(Nx, Ny, pix, sf):
    return np.meshgrid(*image_axes(Nx, Ny, pix, sf))


# ---- Fourier optics ----------------------------------------------------------------------------------------------

def _kernels(Nx, Ny, sign):
    # dimensionless: x x' / (lambda f) = (j - Nx/2)(j' - Nx//2) / Nx, both axes flip together.  For an odd number of
    # pixels the optical axis lies between two pixels; the transform is then taken about pixel Nx//2, which differs
    # by a linear phase at the image plane only.
    j = np.arange(Nx) - Nx // 2
    i = np.arange(Ny) - Ny // 2
    # reduced to one turn in integers: a large phase would be rounded by the oracle
    kx = np.exp(sign * 2j * np.pi * (np.outer(j, j) % Nx) / Nx)
    ky = np.exp(sign * 2j * np.pi * (np.outer(i, i) % Ny) / Ny)
    return kx, ky


def propagate(field, pix, sf):
    """E'(x', y') = 1/(lambda f) * sum E(x, y) exp(+2 pi i (x x' + y y')/(lambda f)) dx dy on the image grid."""
    Ny, Nx = field.shape
    kx, ky = _kernels(Nx, Ny, +1)
    return (pix ** 2 / sf) * (ky @ field @ kx.T)


def back_propagate(image, pix, sf):
    """Inverse: E(x, y) = 1/(lambda f) * sum E'(x', y') exp(-2 pi i ...) dx' dy'."""
    Ny, Nx = image.shape
    kx, ky = _kernels(Nx, Ny, -1)
    return (sf / (pix ** 2 * Nx * Ny)) * (ky.T @ image @ kx)


def pad(a, px, py):
    return np.pad(a, ((py, py), (px, px)))


def carrier(x, y, period, theta):
    """Phase of the grating; period in metres."""
    return 2 * np.pi / period * (np.cos(theta) * x + np.sin(theta) * y)


def lee(amp, phase_in, phase_out, x, y, period, theta, neg):
    g = carrier(x, y, period, theta)
    d = (phase_out - phase_in) * (-1 if neg else 1)
    return amp * (np.cos(g - d) / 2 + 0.5)


# ---- beam profiles ----------------------------------------------------------------------------------------------

def hg(x, y, x0, y0, a, w, n=0, m=0):
    u, v = (x - x0) / w, (y - y0) / w
    return a * special.eval_hermite(n, np.sqrt(2) * u) * special.eval_hermite(m, np.sqrt(2) * v) * np.exp(-u * u - v * v)


def hg_scale(x, y, x0, y0, a, w, n=0, m=0):
    """Sum of the moduli of the terms: what rounding errors are relative to."""
    u, v = np.abs((x - x0) / w), np.abs((y - y0) / w)
    hn = np.polyval(np.abs(special.hermite(n).coef), np.sqrt(2) * u)
    hm = np.polyval(np.abs(special.hermite(m).coef), np.sqrt(2) * v)
    return np.abs(a) * hn * hm * np.exp(-u * u - v * v) * (1 + n + m + u * u + v * v)


def lg(x, y, x0, y0, a, w, l=0, p=0):
    r2 = (x - x0) ** 2 + (y - y0) ** 2
    phi = np.arctan2(y - y0, x - x0)
    rho2 = 2 * r2 / w ** 2
    return (a * rho2 ** (abs(l) / 2) * np.exp(-r2 / w ** 2) * special.eval_genlaguerre(p, abs(l), rho2)
            * np.exp(-1j * l * phi))


def lg_scale(x, y, x0, y0, a, w, l=0, p=0):
    r2 = (x - x0) ** 2 + (y - y0) ** 2
    rho2 = 2 * r2 / w ** 2
    s = np.polyval(np.abs(special.genlaguerre(p, abs(l)).coef), rho2)
    return np.abs(a) * rho2 ** (abs(l) / 2) * np.exp(-r2 / w ** 2) * s * (1 + abs(l) + p + rho2)


def sg(x, y, x0, y0, a, w, p=1.0):
    r2 = ((x - x0) ** 2 + (y - y0) ** 2) / w ** 2
    return a * np.exp(-r2 ** p)


def sg_scale(x, y, x0, y0, a, w, p=1.0):
    r2 = ((x - x0) ** 2 + (y - y0) ** 2) / w ** 2
    t = r2 ** p
    lr = np.abs(np.log(np.where(r2 > 0, r2, 1.0)))
    return np.abs(a) * np.exp(-t) * (1 + t * (1 + p * (1 + lr)))


def zernike_radial_coef(n, m):
    """Integer coefficients of R_n^|m|, highest power first (length n + 1), by exact arithmetic."""
    from math import factorial as f
    m = abs(m)
    c = [0] * (n + 1)
    for k in range((n - m) // 2 + 1):
        c[2 * k] = (-1) ** k * f(n - k) // (f(k) * f((n + m) // 2 - k) * f((n - m) // 2 - k))
    return c


def zernike(x, y, a, radius, n, m, normalize=True, extrapolate=False):
    """OSA/ANSI Zernike function through Jacobi polynomials."""
    rho = np.hypot(x, y) / radius
    phi = np.arctan2(y, x)
    ma = abs(m)
    k = (n - ma) // 2
    R = (-1) ** k * rho ** ma * special.eval_jacobi(k, ma, 0, 1 - 2 * rho ** 2)
    ang = np.cos(m * phi) if m >= 0 else np.sin(ma * phi)
    norm = (np.sqrt(n + 1) if m == 0 else np.sqrt(2 * n + 2)) if normalize else 1.0
    z = a * norm * R * ang
    return z if extrapolate else np.where(rho > 1, 0.0, z)


def zernike_scale(x, y, a, radius, n, m, normalize=True, extrapolate=False):
    rho = np.hypot(x, y) / radius
    c = [abs(v) for v in zernike_radial_coef(n, m)]
    norm = (np.sqrt(n + 1) if m == 0 else np.sqrt(2 * n + 2)) if normalize else 1.0
    s = abs(a) * norm * np.polyval(np.array(c, float), rho) * (1 + n + abs(m))
    return s


def rect(x, y, x0, y0, wx, wy):
    return ((np.abs(x - x0) < wx / 2) & (np.abs(y - y0) < wy / 2)).astype(float)


def circ(x, y, x0, y0, r):
    return ((x - x0) ** 2 + (y - y0) ** 2 <= r ** 2).astype(float)


def ansi(j):
    """(n, m) of the j-th ANSI single index by enumeration of the triangle."""
    n = 0
    while (n + 1) * (n + 2) // 2 <= j:
        n += 1
    k = j - n * (n + 1) // 2
    return n, -n + 2 * k


# ---- hologram algorithms ----------------------------------------------------------------------------------------

def amplitude_error(target, field, where=None):
    """RMS mismatch of |field| against the best multiple of |target|, relative to |field|."""
    t, f = np.abs(target), np.abs(field)
    if where is not None:
        t, f = t[where], f[where]
    n = (f * f).sum()
    if n == 0 or (t * t).sum() == 0:
        return 1.0
    c = (t * f).sum() / (t * t).sum()
    return float(np.sqrt(((f - c * t) ** 2).sum() / n))


def gs_reference(E, T, N, seed):
    """Gerchberg-Saxton in double precision; E and T in the natural (centred) layout."""
    g = np.random.default_rng(seed)
    Ts = np.fft.ifftshift(T)
    A = np.abs(E)
    tot = 2 * np.pi * g.random(E.shape) + np.angle(E)
    for _ in range(N):
        im = np.fft.ifft2(A * np.exp(1j * tot))
        tot = np.angle(np.fft.fft2(Ts * np.exp(1j * np.angle(im))))
    return np.fft.fftshift(np.fft.ifft2(A * np.exp(1j * tot)))


def mraf_reference(E, T, N, W, mix, seed):
    g = np.random.default_rng(seed)
    Ts, Ws = np.fft.ifftshift(T), np.fft.ifftshift(W)
    A = np.abs(E)
    tot = 2 * np.pi * g.random(E.shape) + np.angle(E)
    for _ in range(N):
        im = np.fft.ifft2(A * np.exp(1j * tot))
        new = mix * Ts * np.exp(1j * np.angle(im)) * Ws + (1 - mix) * im * (1 - Ws)
        tot = np.angle(np.fft.fft2(new))
    return np.fft.fftshift(np.fft.ifft2(A * np.exp(1j * tot)))


def ifta_reference(E, ideal, W, N):
    """IFTA binarization of the grey hologram `ideal` (already scaled) for the input field E; W centred."""
    Ws = np.fft.ifftshift(W)
    goal = np.fft.ifft2(E * ideal)
    h = ideal.copy()
    dark = E == 0
    Es = np.where(dark, 1, E)
    for k in range(N):
        t = (k + 1) * 0.5 / N
        b = np.where(h > 1 - t, 1.0, np.where(h < t, 0.0, h))
        im = np.fft.ifft2(E * b)
        im = (goal - im) * Ws + im
        h = np.where(dark, 0.0, np.real(np.fft.fft2(im) / Es))
    return h > 0.5
