"""Shared oracle helpers."""
import copy
import datetime
import numpy as np


class Violation(Exception):
    """The property does not hold for the case at hand."""


def lib(what, fn, *a, **k):
    """Call the library where it has to succeed."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:                       # noqa: BLE001
        raise Violation(f'{what} raised {type(e).__name__}: {e}') from e


def must_raise(what, fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception:                            # noqa: BLE001
        return
    raise Violation(f'{what} did not raise')


def require(cond, msg):
    if not cond:
        raise Violation(msg)


# ---------------------------------------------------------------- comparing
# kinds: 'i' integer value(s), 's' text, 'x' exact numbers, ('e', d) printed
# with d digits after the first, 'f4'/'f8' stored in that binary format.
def _tol(v, d):
    a = np.abs(v)
    with np.errstate(all='ignore'):
        p = np.floor(np.log10(np.where(a == 0, 1.0, a)))
        return np.where(a == 0, 0.0, 0.505 * 10.0 ** (p - d) + 1e-323)


def _real_close(got, exp, kind):
    if kind == 'f4':
        with np.errstate(all='ignore'):
            return np.asarray(exp, 'f4').astype('f8') == got
    if kind in ('f8', 'x', 'i'):
        return got == exp
    if len(kind) > 2:                             # values that also went through single precision
        return np.abs(got - exp) <= _tol(exp, kind[1]) * kind[2] + 3e-45
    return np.abs(got - exp) <= _tol(exp, kind[1])


def close(got, exp, kind):
    """Element-wise verdict for two real or complex arrays of equal shape."""
    if np.iscomplexobj(exp) or np.iscomplexobj(got):
        got = np.asarray(got, complex)
        exp = np.asarray(exp, complex)
        return _real_close(got.real, exp.real, kind) & _real_close(got.imag, exp.imag, kind)
    return _real_close(got, exp, kind)


def show(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + '...'


def check_value(where, got, exp, kind):
    try:
        if kind == 's':
            if isinstance(exp, str):
                if not (isinstance(got, str) and str(got) == exp):
                    raise Violation(f'{where}: got {show(got)}, expected {exp!r}')
            else:
                g = [str(x) for x in got]
                if g != list(exp) or not all(isinstance(x, str) for x in got):
                    raise Violation(f'{where}: got {show(g)}, expected {show(list(exp))}')
            return
        if got is None:
            raise Violation(f'{where}: got None, expected {show(exp)}')
        e = np.asarray(exp)
        g = np.asarray(got)
        if g.dtype.kind not in 'iufcb' and g.size:
            raise Violation(f'{where}: got non-numeric {show(got)}, expected {show(exp)}')
        if g.size == 0 and e.size == 0:
            return
        if g.shape != e.shape:
            raise Violation(f'{where}: got shape {g.shape}, expected {e.shape}')
        ok = close(g, e, kind)
        if not np.all(ok):
            if e.ndim == 0:
                raise Violation(f'{where}: got {show(got)}, expected {show(exp)}')
            i = tuple(int(t[0]) for t in np.nonzero(~np.asarray(ok)))
            raise Violation(f'{where}{list(i)}: got {g[i]!r}, expected {e[i]!r}')
    except Violation:
        raise
    except Exception as ex:                      # malformed output
        raise Violation(f'{where}: malformed value {show(got)} ({type(ex).__name__}: {ex})') from ex


def dig(obj, path, where):
    for p in path:
        try:
            obj = obj[p]
        except Exception as ex:
            raise Violation(f'{where}: missing {"/".join(map(str, path))} ({type(ex).__name__})') from ex
    return obj


def check_fields(got, fields, where='set'):
    if not isinstance(got, dict):
        raise Violation(f'{where}: got {type(got).__name__} instead of a set')
    for path, kind, exp in fields:
        w = where + ':' + '/'.join(map(str, path))
        if kind == 'len':
            o = dig(got, path, where)
            try:
                n = len(o)
            except Exception as ex:
                raise Violation(f'{w}: no length') from ex
            require(n == exp, f'{w}: {n} entries, expected {exp}')
        elif kind == 'none':
            o = dig(got, path, where)
            require(o is None, f'{w}: got {show(o)}, expected None')
        elif kind == 'absent':
            o = dig(got, path[:-1], where)
            require(path[-1] not in o, f'{w}: unexpected entry {show(path[-1])}')
        elif kind == 'intkeys':
            k = sorted(k for k in dig(got, path, where) if isinstance(k, (int, np.integer)))
            require([int(v) for v in k] == exp, f'{w}: kinds {k}, expected {exp}')
        elif kind == 'now':
            v = dig(got, path, where)
            require(isinstance(v, str), f'{w}: got {show(v)}')
            require(is_now(v, exp), f'{w}: got {v!r}, expected the current {exp}')
        elif kind == 'evenx':
            n, x0, dx = exp
            g = dig(got, path, where)
            check_value(w + ' length', len(g), n, 'i')
            a, b = float(dig(got, ('abscissa_min',), where)), float(dig(got, ('abscissa_inc',), where))
            require(abs(a - x0) <= _tol(x0, 5), f'{w}: abscissa_min {a}, expected {x0}')
            e = a + np.arange(n) * b
            tol = 1e-9 * (abs(a) + abs(b) * np.arange(n)) + 1e-320
            if not np.all(np.abs(np.asarray(g, float) - e) <= tol):
                raise Violation(f'{w}: got {show(g)}, expected {a} + k*{b}')
        elif kind in ('cx', 'real'):
            g = dig(got, path, where)
            require(isinstance(g, (np.ndarray, list, tuple)), f'{w}: got {show(g)}')
            require(np.iscomplexobj(np.asarray(g)) == (kind == 'cx'), f'{w}: {"real" if kind == "cx" else "complex"} values')
        else:
            check_value(w, dig(got, path, where), exp, kind)


def is_now(v, kind):
    """The documented forms (DD-MMM-YY, HH:MM:SS) of a local time at most ten minutes ago."""
    now = datetime.datetime.now()
    if kind == 'time':
        try:
            t = datetime.datetime.strptime(v, '%H:%M:%S')
        except ValueError:
            return False
        return len(v) == 8 and (now - t + datetime.timedelta(seconds=5)).total_seconds() % 86400 < 605
    return v.upper() in {(now - datetime.timedelta(seconds=k)).strftime('%d-%b-%y').upper() for k in (-5, 0, 600)}


def same(a, b, where='value'):
    """Exact equality of two values the library returned."""
    if isinstance(a, dict) or isinstance(b, dict):
        require(isinstance(a, dict) and isinstance(b, dict), f'{where}: {type(a).__name__} vs {type(b).__name__}')
        require(set(a) == set(b), f'{where}: keys differ: {sorted(map(str, set(a) ^ set(b)))}')
        for k in a:
            same(a[k], b[k], f'{where}/{k}')
        return
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        require(type(a) is type(b) and a == b, f'{where}: {show(a)} != {show(b)}')
        return
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        require(len(a) == len(b), f'{where}: length {len(a)} != {len(b)}')
        fast = isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind in 'iufc' and b.dtype.kind in 'iufc'
        if fast:
            require(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), f'{where}: arrays differ')
            return
        for i in range(len(a)):
            same(a[i], b[i], f'{where}[{i}]')
        return
    try:
        eq = bool(a == b) or (a != a and b != b)
    except Exception as ex:
        raise Violation(f'{where}: cannot compare {show(a)} and {show(b)}') from ex
    require(eq, f'{where}: {show(a)} != {show(b)}')


def unchanged(before, after, where):
    """`after` still carries every value of `before` (numerically)."""
    if isinstance(before, dict):
        require(isinstance(after, dict), f'{where}: replaced by {type(after).__name__}')
        for k in before:
            require(k in after, f'{where}: {k!r} removed')
            unchanged(before[k], after[k], f'{where}/{k}')
        return
    if isinstance(before, str) or before is None:
        require(isinstance(after, str) == isinstance(before, str) and after == before,
                f'{where}: {show(before)} became {show(after)}')
        return
    if isinstance(before, (list, tuple)) and any(isinstance(v, (dict, str, list, tuple, np.ndarray)) for v in before):
        require(len(before) == len(after), f'{where}: length changed')
        for i, v in enumerate(before):
            unchanged(v, after[i], f'{where}[{i}]')
        return
    try:
        ok = np.array_equal(np.asarray(before), np.asarray(after), equal_nan=False)
    except Exception as ex:
        raise Violation(f'{where}: {show(before)} became {show(after)}') from ex
    require(ok, f'{where}: {show(before)} became {show(after)}')


def clone(d):
    """Deep copy that keeps array flavours (strided, read-only)."""
    if isinstance(d, dict):
        return {k: clone(v) for k, v in d.items()}
    if isinstance(d, list):
        return [clone(v) for v in d]
    if isinstance(d, tuple):
        return tuple(clone(v) for v in d)
    if isinstance(d, np.ndarray):
        if d.ndim == 1 and d.strides[0] < 0:
            b = np.zeros(len(d), d.dtype)[::-1]
            b[:] = d
        elif not d.flags.c_contiguous and d.ndim == 1:
            b = np.zeros(2 * len(d), d.dtype)[::2]
            b[:] = d
        else:
            b = d.copy()
        if not d.flags.writeable:
            b.setflags(write=False)
        return b
    return copy.deepcopy(d) if type(d) is not object else d


def native(d):
    """Arrays of unusual integer size or byte order as ordinary ones (the prepare functions compare dtypes)."""
    if isinstance(d, dict):
        return {k: native(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return type(d)(native(v) for v in d)
    if isinstance(d, np.ndarray):
        if d.dtype.kind in 'iu' and d.dtype != int:
            return d.astype(int)
        if not d.dtype.isnative:
            return d.astype(d.dtype.newbyteorder('='))
    return d


def r6(v):
    return float('%.5e' % v)
