"""Value generators (Hypothesis) shared by all set types.  Everything is built
inside Hypothesis, so every case shrinks and replays; long arrays are expanded
from a drawn seed."""
import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------ text
_ASCII = st.characters(min_codepoint=0x20, max_codepoint=0x7e)
_UNI = st.one_of(
    st.characters(categories=['L', 'M', 'N', 'P', 'S', 'Zs', 'Cf']),
    st.characters(min_codepoint=0x21, max_codepoint=0x7e),
    st.sampled_from(' éüñßščžŠČŽøÅµ°Ω²³½±×αβπσЖщ中文日本語한글אבعر😀🚗€£™“”…–—ﬁﬀ¡¿'))


def clean_text(s, w):
    s = s[:w].strip()
    if s.endswith('    -1'):             # would be a delimiter (known finding K3)
        s = s[:-1] + '2'
    return s


_SPECIAL = ['', 'NONE', 'None', '0', '-1', '1', 'b', '58b', 'a b', '%s', '%10i %', '{0}', '{', '\\n', '1.0E+00',
            "'quoted'", '"', 'x    -1 y', '-1 z', '58', 'nan', 'inf', ',', ';', 'a,b;c', '#', '/*', 'C:\\data\\x.uff',
            'None None', 'D', 'e', '15', 'key=value', '!@$^&*()', '1 2 3', 'z' * 9, '12345678901234567890', 'metre-newton', 'e+e-', '1e+5', '2D+01', 'E-3', '+1', '.', '~']
_FILL = ['X', '9', 'aB', 'wide text ', '-', 'W1 ', '.,', '0123456789']
_UFILL = ['é', '中', 'aé', 'Ω1', '😀', 'ñ z', 'ß', 'ж']
_USPECIAL = ['é', 'हिन्दी', 'ภาษาไทย', 'e\u0301', '👩\u200d🔧', 'a\u00a0b', 'a\u3000b', '\ufeffx', 'x\u200b', 'naïve', 'Štefan Žužek', 'µm/s²', '°C', '日本語', '😀', 'Ωm', 'a é', 'é a', 'ñ', '€', 'Ж' * 3, 'ﬁ', '½', '×', 'א', '한']


_CACHE = {}


def text(w, uni=False):
    k = ('t', w, uni)
    if k not in _CACHE:
        al = _UNI if uni else _ASCII
        opts = [st.sampled_from(_SPECIAL + (_USPECIAL * 3 if uni else [])),
                st.text(al, max_size=min(w, 10)),
                st.tuples(st.sampled_from(_FILL + (_UFILL * 2 if uni else [])), st.sampled_from([w, w, w - 1, max(1, w // 2), 1])
                          ).map(lambda t: (t[0] * w)[:t[1]])]
        if w <= 20:
            opts.append(st.text(al, min_size=w, max_size=w))
        _CACHE[k] = st.one_of(opts).map(lambda s: clean_text(s, w))
    return _CACHE[k]


# ---------------------------------------------------------------- integers
def ints(lo, hi, no_m1=False):
    k = ('i', lo, hi, no_m1)
    if k not in _CACHE:
        sp = sorted({v for v in (0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 41, 44, 58, 82, 99, 100, 128, 250, 255, 256, 257, 999, 1000, 2411,
                                 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 10 ** 6, 9999999, 10 ** 7,
                                 99999999, 10 ** 8, 999999999, -1, -2, -9, -10, -99, -100, lo, hi, hi - 1) if lo <= v <= hi})
        s = st.one_of(st.integers(max(lo, 0), min(hi, 12)), st.sampled_from(sp), st.integers(lo, hi))
        if no_m1 and lo < 0:
            s = s.map(lambda v: -2 if v == -1 else v)
        _CACHE[k] = s
    return _CACHE[k]


I9 = (-99999999, 999999999)              # fits a 10-column field and leaves a blank (split-based readers)
I10 = (-999999999, 9999999999)           # fills a 10-column field
LAB = (0, 999999999)


def intarr(draw, n, rng=LAB, no_m1=False):
    lo, hi = rng
    if n <= 10:
        e = ints(lo, hi, no_m1)
        v = [draw(e) for _ in range(n)] if draw(st.integers(0, 3)) else [draw(e)] * n if n else []
    else:
        kind = draw(st.sampled_from(['seq', 'rand', 'small', 'wide', 'same', 'rep']))
        seed = draw(st.integers(0, 2 ** 32 - 1))
        r = np.random.default_rng(seed)
        if kind == 'seq':
            s = int(r.integers(max(lo, 0), max(hi - 40 * n, 1))) if seed % 3 else max(lo, 1)
            v = [s + i * (1 + seed % 7) for i in range(n)]
        elif kind == 'rand':
            v = r.integers(lo, hi, n, endpoint=True).tolist()
        elif kind == 'small':
            v = r.integers(max(lo, -3), min(hi, 12), n, endpoint=True).tolist()
        elif kind == 'wide':
            v = (hi - r.integers(0, min(9, hi - lo), n)).tolist()
        elif kind == 'same':
            v = [int(r.integers(lo, hi, endpoint=True))] * n
        else:
            p = r.integers(max(lo, 0), min(hi, 99999), 3).tolist()
            v = [p[k] for k in r.integers(0, 3, n)]
    if no_m1:
        v = [-2 if k == -1 else k for k in v]
    return v


# ------------------------------------------------------------------ floats
# 'split': for columns that are read by splitting at blanks - negative values keep to two-digit exponents (known finding K5)
RANGES = {'r90': (-90, 90, 1e-90, 1e91), 'split': (-300, 300, 5e-324, 1.7976931348623157e308), 'full': (-300, 300, 5e-324, 1.7976931348623157e308), 'f32': (-36, 37, 1e-45, 3.4028e38)}


def _lim(v, rng):
    lo, hi = RANGES['r90' if rng == 'split' and v < 0 else rng][2:]
    a = abs(v)
    if a and a < lo:
        return 0.0
    if a > hi:
        return float(np.copysign(hi, v))
    return v


_FSPEC = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 10.0, -10.0, 0.1, -0.1, 1 / 3, -2 / 3, 999999.5, -999999.5, 9.999995, 9.9999951, 99999.95,
          0.99999999999951, 123456.789, -123456.789, 123456789012.5, 1e5, 1e6, 1e-5, -1e-5, 1.5e-7, 3.14159265358979, 1e10, -1e10,
          1e22, 1e-22, 1.2345678901234567, -9.8765432109876543e-3, 4503599627370497.5, 7e-10, 1e9, 1e-9, 5e-5, 1.000005, 1.0000049]
_FEXT = {'split': [9.9999951e99, 1e99, 1.23456e120, 9.87654e-120, 1e300, 5e-324, 1.7976931348623157e308, -9.87654e90, -1e-90],
         'r90': [1e90, -1e90, 9.87654e-90, -1e-89],
         'full': [1e99, 9.999996e99, -9.999996e99, 1e100, -1.23456e100, 1e-99, 9.99999e-100, -1e-100, 1.7976931348623157e308,
                  -1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -5e-324, 1e300, -1e-300],
         'f32': [3.4028e38, -3.4028e38, 1.17549435e-38, 1e-45, 16777217.0, 1e38, -1e-38]}


def floats(rng='r90'):
    k = ('f', rng)
    if k not in _CACHE:
        elo, ehi = RANGES[rng][:2]
        hi = RANGES[rng][3]
        _CACHE[k] = st.one_of(
            st.sampled_from(_FSPEC + _FEXT[rng]),
            st.integers(-1000, 1000).map(float),
            st.tuples(st.integers(-9999999, 9999999), st.integers(elo, ehi)).map(lambda t: t[0] / 1e6 * 10.0 ** t[1]),
            st.tuples(st.integers(-9999999, 9999999), st.integers(-6, 6)).map(lambda t: t[0] / 1e6 * 10.0 ** t[1]),
            st.floats(-hi, hi, allow_nan=False, allow_infinity=False)).map(lambda v: _lim(float(v), rng))
    return _CACHE[k]


def fillarr(r, n, pal, rng):
    elo, ehi = RANGES[rng][:2]
    sgn = r.choice([-1.0, 1.0], n)
    if pal == 'unit':
        v = r.standard_normal(n)
    elif pal == 'mag':
        v = sgn * r.uniform(1, 10, n) * 10.0 ** r.integers(elo, ehi, n)
        if rng == 'split':
            v = np.where(np.abs(np.log10(np.abs(v))) > 89, np.abs(v), v)
    elif pal == 'neg':
        v = -r.uniform(1, 10, n) * 10.0 ** r.integers(-12, 12, n)
    elif pal == 'int':
        v = r.integers(-1000, 1000, n).astype(float)
    elif pal == 'sine':
        v = 1e3 * np.sin(np.arange(n) * 0.37)
    elif pal == 'zeros':
        v = np.zeros(n)
        v[r.integers(0, n)] = 1.0
    elif pal == 'edge':
        v = np.array(_FSPEC + _FEXT[rng])[r.integers(0, len(_FSPEC) + len(_FEXT[rng]), n)]
    else:                                  # bits: arbitrary mantissas
        v = r.integers(0, 2 ** 53, n) / 2.0 ** 40 * sgn
    return np.array([_lim(float(x), rng) for x in v]) if pal in ('mag', 'edge') else v


_PAL = ['unit', 'mag', 'neg', 'int', 'sine', 'zeros', 'edge', 'bits']


def farr(draw, n, rng='r90'):
    """n floats as a float64 array."""
    if n <= 6:
        e = floats(rng)
        return np.array([draw(e) for _ in range(n)], float)
    pal = draw(st.sampled_from(_PAL))
    r = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    return fillarr(r, n, pal, rng)


def carr(draw, n, rng='r90'):
    kind = draw(st.sampled_from(['both', 'both', 'both', 're', 'im', 'conj']))
    a = farr(draw, n, rng)
    if kind == 're':
        b = np.zeros(n)
    elif kind == 'im':
        a, b = np.zeros(n), a
    elif kind == 'conj':
        b = np.array([_lim(float(-v), rng) for v in a])
    else:
        b = farr(draw, n, rng)
    z = np.empty(n, complex)
    z.real = a
    z.imag = b
    return z


def count(draw, lo=0, big=True):
    """Number of entries: mostly small with every block remainder, at times long."""
    k = draw(st.integers(0, 19))
    if k < 15 or not big:
        return draw(st.integers(lo, max(lo, 9)))
    if k < 18:
        return draw(st.integers(10, 40))
    if k == 18:
        return draw(st.sampled_from([63, 64, 65, 80, 96, 99, 100, 101, 120, 125, 127, 128, 129]))
    if draw(st.integers(0, 3)):
        return draw(st.sampled_from([249, 250, 251, 255, 256, 257, 300, 333, 500, 511, 512, 513]))
    return draw(st.sampled_from([999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 2500]))


def flav(draw, a, kinds=('nd', 'nd', 'nd', 'nd', 'list', 'list', 'tuple', 'strided', 'ro', 'rev', 'swapped', 'narrow', 'scalars')):
    """The same numbers in another kind of sequence."""
    k = draw(st.sampled_from(kinds))
    return flavour(a, k)


def flavour(a, k):
    a = np.asarray(a)
    if k == 'list':
        return a.tolist()
    if k == 'tuple':
        return tuple(a.tolist())
    if k == 'strided' and a.ndim == 1:
        b = np.zeros(2 * len(a), a.dtype)[::2]
        b[:] = a
        return b
    if k == 'rev' and a.ndim == 1:                          # negative stride
        b = np.zeros(len(a), a.dtype)[::-1]
        b[:] = a
        return b
    if k == 'swapped':                                      # the other byte order in memory
        return a.astype(a.dtype.newbyteorder('>'))
    if k == 'narrow' and a.dtype.kind == 'i' and len(a):    # the smallest integer type that holds them
        for t in ('u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8'):
            if np.iinfo(t).min <= a.min() and a.max() <= np.iinfo(t).max:
                return a.astype(t)
    if k == 'scalars' and a.ndim == 1:
        return list(a)
    a = a.copy()
    if k == 'ro':
        a.setflags(write=False)
    return a


def pick_optional(draw, keys):
    """Which optional fields to supply."""
    k = draw(st.integers(0, 5))
    if k == 0:
        return set()
    if k <= 3:
        return set(keys)
    m = draw(st.integers(0, 2 ** len(keys) - 1))
    return {x for i, x in enumerate(keys) if m >> i & 1}
