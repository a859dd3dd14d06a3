"""Per set type: generator of writable dictionaries, the content a reader has to
see afterwards (`fields`), an independent writer (`encode`) and an independent
fixed-column reader (`decode`), both made from the published record layouts."""
import struct
import numpy as np
from hypothesis import strategies as st
from .gens import (text, ints, I9, I10, LAB, intarr, floats, farr, carr, count, flav, flavour, pick_optional, clean_text, fillarr)
from .common import Violation, r6

E5 = ('e', 5)


class O:
    """Generator options."""

    def __init__(self, uni=False, big=True, forms58=None, simple=False, nmax58=None, opt=True, huge=None, mid=False):
        self.huge = 400 if huge is None and big and not nmax58 else huge or 0          # one set in so many is a long one
        self.mid = mid
        self.uni, self.big, self.forms58, self.simple, self.nmax58, self.opt = uni, big, forms58, simple, nmax58, opt

    def text(self, w):
        return text(w, self.uni)


class Style:
    """A rendering of the published layout."""

    def __init__(self, eol='\n', pad_delim=False, pad_head=True, pad_text=True, e='E', d='D', zfill=False, bo=1, final_eol=True, txt_enc='utf-8',
                 dig58=11, num='', pad_num=False, b='b', blank0=False):
        self.eol, self.pad_delim, self.pad_head, self.pad_text, self.e, self.d = eol, pad_delim, pad_head, pad_text, e, d
        self.zfill, self.bo, self.final_eol, self.txt_enc, self.dig58 = zfill, bo, final_eol, txt_enc, dig58
        self.num, self.pad_num, self.b, self.blank0 = num, pad_num, b, blank0

    @staticmethod
    def draw(draw):
        return dict(eol=draw(st.sampled_from(['\n', '\r\n'])), pad_delim=draw(st.booleans()), pad_head=draw(st.booleans()),
                    pad_text=draw(st.booleans()), e=draw(st.sampled_from('Ee')), d=draw(st.sampled_from('DdEe')), zfill=draw(st.booleans()),
                    bo=draw(st.sampled_from([1, 2])), final_eol=draw(st.sampled_from([True, True, True, False])),
                    dig58=draw(st.sampled_from([11, 12])), num=draw(st.sampled_from(['', '', '', '0', '+', '0+'])), pad_num=draw(st.integers(0, 3)) == 0,
                    b=draw(st.sampled_from(['b', 'b', 'b', 'B'])), blank0=draw(st.integers(0, 4)) == 0)

    def A(self, s, w):
        return s.ljust(w) if self.pad_text else s

    def Z(self, fields):
        """A record whose fields behind the first may be blank for 0 and may be left out at its end."""
        if not self.blank0:
            return ''.join(fields)
        r = ''.join(fields[:1] + [' ' * len(f) if i % 3 and not f.strip(' 0.+Ee') else f for i, f in enumerate(fields[1:])])
        return ''.join(fields) if r.rstrip().endswith('    -1') else r.rstrip()           # known finding K1

    def E(self, v, w, d):
        return self.real(v, w, d).replace('e', self.e)

    def D(self, v, w, d):
        return self.real(v, w, d).replace('e', self.d)

    def real(self, v, w, d):
        r = '%.*e' % (d, v)
        m, x = r.split('e')
        if '0' in self.num and m[-1] == '0' and float(v) and -98 < int(x) < 98:       # Fortran without scale factor, where it costs no digit
            r = '%s0.%se%+03d' % ('-' * (m[0] == '-'), m.lstrip('-').replace('.', '')[:-1], int(x) + 1)
        if '+' in self.num and r[0] != '-' and len(r) < w - 1:
            r = '+' + r
        return r.rjust(w)


def I(v, w=10):
    return '%*d' % (w, int(v))


def chunks(seq, k):
    return [seq[i:i + k] for i in range(0, len(seq), k)]


# ---------------------------------------------------- fixed-column reading
class Lines:
    """Cursor over the body lines of a block."""

    def __init__(self, lines, what):
        self.lines, self.i, self.what = lines, 0, what

    def more(self):
        return self.i < len(self.lines)

    def next(self):
        if self.i >= len(self.lines):
            raise Violation(f'{self.what}: record missing after line {self.i}')
        s = self.lines[self.i]
        self.i += 1
        return s

    def bad(self, msg):
        raise Violation(f'{self.what}: line {self.i}: {msg}: {self.lines[self.i - 1]!r}')

    def cols(self, s, widths):
        out, k = [], 0
        for w in widths:
            out.append(s[k:k + w])
            k += w
        if s[k:].strip():
            self.bad(f'text beyond column {k}')
        return out

    def ints(self, s, widths):
        r = []
        for f in self.cols(s, widths):
            if len(f.rstrip()) == 0 or f.rstrip() != f or not _isint(f):
                self.bad(f'integer field {f!r} (right-justified integer expected)')
            r.append(int(f))
        return r

    def reals(self, s, w, n, dexp=False):
        r = []
        if len(s.rstrip()) > w * n:
            self.bad(f'more than {n} real fields')
        for f in self.cols(s, [w] * n):
            g = f.replace('D', 'E').replace('d', 'e') if dexp else f
            try:
                if len(f) != w or g.strip() == '' or ' ' in g.strip() or '_' in g:
                    raise ValueError
                r.append(float(g))
            except ValueError:
                self.bad(f'real field {f!r}')
        return r

    def reals_over(self, n, w, per, dexp=False):
        """n reals in records of `per` per line."""
        v = []
        while len(v) < n:
            k = min(per, n - len(v))
            v += self.reals(self.next(), w, k, dexp)
        return v

    def text(self, w=80):
        s = self.next()
        if len(s.rstrip()) > w:
            self.bad(f'text longer than {w}')
        return s.strip()


def _isint(f):
    s = f.strip()
    return s.lstrip('+-').isdigit() and s.isascii() and len(s) - len(s.lstrip('+-')) <= 1


def IF(name, v):
    return ((name,), 'i', v)


def SF(name, v):
    return ((name,), 's', v)


def RF(name, v, kind=E5):
    return ((name,), kind, v)


class Base:
    required = ()
    optional = {}                          # name -> default (None: computed)

    def opt(self, draw, o):
        keys = sorted(self.optional)
        return pick_optional(draw, keys) if o.opt else set(keys)

    def with_defaults(self, d):
        r = dict(d)
        for k, v in self.optional.items():
            r.setdefault(k, v)
        return r

    def head(self, st_):
        return ['%6d%s' % (self.t, ' ' * 74 if st_.pad_head else '')]

    def encode(self, d, s):
        """bytes of the whole block, delimiters included"""
        delim = '    -1' + (' ' * 74 if s.pad_delim else '')
        body = self.body(self.with_defaults(d), s)
        if not s.pad_text and any(x.endswith('    -1') for x in body):      # known finding K3
            s.pad_text = True
            body = self.body(self.with_defaults(d), s)
        if s.pad_num:
            body = [x.ljust(80) for x in body]
        body = [x.ljust(80) if x.endswith('    -1') else x for x in body]    # known finding K1
        body = [delim] + self.head(s) + body
        return (s.eol.join(body) + s.eol).encode(s.txt_enc, 'strict') + (delim + s.eol).encode()


# ======================================================================= 15
class T15(Base):
    t = 15
    required = ('node_nums', 'x', 'y', 'z')
    optional = {'def_cs': None, 'disp_cs': None, 'color': None}
    cols = ('node_nums', 'def_cs', 'disp_cs', 'color')

    def gen(self, draw, o):
        n = count(draw, 0, o.big)
        use = self.opt(draw, o)
        d = {'type': 15, 'node_nums': flav(draw, intarr(draw, n))}
        for k in ('def_cs', 'disp_cs', 'color'):
            if k in use:
                d[k] = flav(draw, intarr(draw, n, I9))
        for k in 'xyz':
            d[k] = flav(draw, farr(draw, n, 'split'))
        return d

    def fields(self, d, fd=True):
        n = len(d['node_nums'])
        r = [IF('type', 15)]
        for k in self.cols:
            v = d.get(k)
            r.append(IF(k, np.zeros(n) if v is None else np.asarray(v, float)))
        return r + [RF(k, np.asarray(d[k], float)) for k in 'xyz']

    def body(self, d, s):
        n = len(d['node_nums'])
        c = [d[k] if d[k] is not None else [0] * n for k in self.cols]
        return [''.join(I(x[i]) for x in c) + ''.join(s.E(d[k][i], 13, 5) for k in 'xyz') for i in range(n)]

    def decode(self, L):
        rows = []
        while L.more():
            s = L.next()
            rows.append(L.ints(s[:40], [10] * 4) + L.reals(s[40:], 13, 3))
        c = list(zip(*rows)) if rows else [[]] * 7
        return dict(zip(self.cols + ('x', 'y', 'z'), map(list, c)))


# ======================================================================= 18
class T18(Base):
    t = 18
    required = ('cs_num', 'ref_cs_num', 'ref_o', 'x_point', 'xz_point')
    optional = {'cs_type': 0, 'color': 0, 'method': 1, 'cs_name': ''}
    cols = ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method')

    def gen(self, draw, o):
        n = count(draw, 0, False)
        use = self.opt(draw, o)
        d = {'type': 18, 'cs_num': flav(draw, intarr(draw, n)), 'ref_cs_num': flav(draw, intarr(draw, n))}
        for k in ('cs_type', 'color', 'method'):
            if k in use:
                d[k] = flav(draw, intarr(draw, n, I9, no_m1=(k == 'method')))
        if 'cs_name' in use:
            d['cs_name'] = [draw(o.text(40)) for _ in range(n)]
        for k in ('ref_o', 'x_point', 'xz_point'):
            d[k] = flav(draw, farr(draw, 3 * n, 'full').reshape(n, 3), ('nd', 'nd', 'list', 'ro'))
        return d

    def fields(self, d, fd=True):
        n = len(d['cs_num'])
        r = [IF('type', 18)]
        for k in self.cols:
            r.append(IF(k, np.asarray(d[k], float) if k in d else np.full(n, float(self.optional[k]))))
        r.append(((('cs_name'),), 's', list(d.get('cs_name', [''] * n))))
        return r + [RF(k, np.asarray(d[k], float).reshape(n, 3)) for k in ('ref_o', 'x_point', 'xz_point')]

    def body(self, d, s):
        n = len(d['cs_num'])
        b = []
        for i in range(n):
            b.append(''.join(I(d[k] if np.isscalar(d[k]) else d[k][i]) for k in self.cols))
            b.append(s.A(d['cs_name'][i] if d['cs_name'] != '' else '', 40))
            b.append(''.join(s.E(v, 13, 5) for v in list(d['ref_o'][i]) + list(d['x_point'][i])))
            b.append(''.join(s.E(v, 13, 5) for v in d['xz_point'][i]))
        return b

    def decode(self, L):
        r = {k: [] for k in self.cols + ('cs_name', 'ref_o', 'x_point', 'xz_point')}
        while L.more():
            for k, v in zip(self.cols, L.ints(L.next(), [10] * 5)):
                r[k].append(v)
            r['cs_name'].append(L.text(40))
            v = L.reals_over(9, 13, 6)
            r['ref_o'].append(v[:3])
            r['x_point'].append(v[3:6])
            r['xz_point'].append(v[6:])
        return r


# ======================================================================= 82
class T82(Base):
    t = 82
    required = ('trace_num', 'nodes')
    optional = {'id': 'NONE', 'color': 0}

    def gen(self, draw, o):
        n = count(draw, 0, o.big)
        use = self.opt(draw, o)
        nodes = intarr(draw, n)
        for i in range(len(nodes)):                       # moves and repeats
            if draw(st.integers(0, 5)) == 0 if n < 12 else i % 7 == 3:
                nodes[i] = 0
        if nodes and draw(st.integers(0, 3)) == 0:
            nodes[-1] = 0
        d = {'type': 82, 'trace_num': draw(ints(*I10)), 'nodes': flav(draw, nodes)}
        if draw(st.booleans()):
            d['n_nodes'] = n
        if 'id' in use:
            d['id'] = draw(o.text(80))
        if 'color' in use:
            d['color'] = draw(ints(*I10, no_m1=True))
        return d

    def fields(self, d, fd=True):
        e = self.with_defaults(d)
        return [IF('type', 82), IF('trace_num', e['trace_num']), IF('n_nodes', len(e['nodes'])), IF('color', e['color']),
                SF('id', e['id']), IF('nodes', np.asarray(e['nodes'], float))]

    def body(self, d, s):
        nodes = list(d['nodes'])
        n = len(nodes)
        if s.zfill:
            nodes += [0] * (-n % 8)
        return [I(d['trace_num']) + I(n) + I(d['color']), s.A(d['id'], 80)] + [''.join(map(I, c)) for c in chunks(nodes, 8)]

    def decode(self, L):
        t, n, c = L.ints(L.next(), [10] * 3)
        r = {'trace_num': t, 'n_nodes': n, 'color': c, 'id': L.text(80), 'nodes': []}
        while len(r['nodes']) < n:
            k = min(8, n - len(r['nodes']))
            r['nodes'] += L.ints(L.next(), [10] * k)
        return r


# ====================================================================== 151
class T151(Base):
    t = 151
    required = ('model_name', 'description', 'db_app', 'program')
    optional = {'version_db1': 0, 'version_db2': 0, 'file_type': 0, 'date_db_created': None, 'time_db_created': None,
                'date_db_saved': None, 'time_db_saved': None, 'date_file_written': None, 'time_file_written': None}

    def gen(self, draw, o):
        use = self.opt(draw, o)
        d = {'type': 151}
        for k in self.required:
            d[k] = draw(o.text(80))
        for k in self.optional:
            if k in use:
                if k.startswith('version') or k == 'file_type':
                    v = draw(ints(*I10, no_m1=(k == 'file_type')))
                    d[k] = str(v) if draw(st.integers(0, 3)) == 0 else v
                else:
                    name = k
                    if k.endswith('_written') and draw(st.booleans()):
                        name = k.replace('file', 'db')
                    d[name] = draw(st.one_of(st.sampled_from(['01-Jan-99', '31-12-2024', '29-Feb-24', '23:59:59', '00:00:00', '']), o.text(10)))
        return d

    def fields(self, d, fd=True):
        r = [IF('type', 151)] + [SF(k, d[k]) for k in self.required]
        for k in self.optional:
            if k.startswith('version') or k == 'file_type':
                r.append(IF(k, int(d.get(k, 0))))
                continue
            alias = k.replace('file_written', 'db_written')
            if k in d:
                r.append(SF(k, d[k]))
            elif alias in d:
                r.append(SF(k, d[alias]))
            else:
                r.append(((k,), 'now', k.split('_')[0]))
        return r

    def body(self, d, s):
        g = lambda k: d.get(k) if d.get(k) is not None else d.get(k.replace('file_written', 'db_written'), 'x') or ''
        for k in self.optional:
            if d[k] is None and k.replace('file_written', 'db_written') not in d:
                d[k] = '1-JAN-00'
        return [s.A(d['model_name'], 80), s.A(d['description'], 80), s.A(d['db_app'], 80),
                s.Z(['%-10s%-10s' % (g('date_db_created'), g('time_db_created')), I(d['version_db1']), I(d['version_db2']), I(d['file_type'])]),
                '%-10s' % g('date_db_saved') + s.A(g('time_db_saved'), 10), s.A(d['program'], 80),
                '%-10s' % g('date_file_written') + s.A(g('time_file_written'), 10)]

    def decode(self, L):
        r = {'model_name': L.text(), 'description': L.text(), 'db_app': L.text()}
        s = L.next()
        r['date_db_created'], r['time_db_created'] = s[:10].strip(), s[10:20].strip()
        r['version_db1'], r['version_db2'], r['file_type'] = L.ints(s[20:], [10] * 3)
        for a, b in (('saved', 'db'), ('written', 'file')):
            if a == 'written':
                r['program'] = L.text()
            c = L.cols(L.next(), [10, 10])
            r[f'date_{b}_{a}'], r[f'time_{b}_{a}'] = c[0].strip(), c[1].strip()
        return r


# ====================================================================== 164
class T164(Base):
    t = 164
    required = ('units_code', 'length', 'force', 'temp', 'temp_offset')
    optional = {'units_description': 'User unit system', 'temp_mode': 1}
    reals = ('length', 'force', 'temp', 'temp_offset')

    def gen(self, draw, o):
        use = self.opt(draw, o)
        d = {'type': 164, 'units_code': draw(st.integers(0, 9))}
        if 'units_description' in use:
            d['units_description'] = draw(o.text(20))
        if 'temp_mode' in use:
            d['temp_mode'] = draw(st.integers(1, 2))
        for k in self.reals:
            d[k] = draw(floats('full'))
        return d

    def fields(self, d, fd=True):
        e = self.with_defaults(d)
        return [IF('type', 164), IF('units_code', e['units_code']), SF('units_description', e['units_description']), IF('temp_mode', e['temp_mode'])
                ] + [RF(k, e[k], 'x') for k in self.reals]

    def body(self, d, s):
        v = [s.D(d[k], 25, 16) for k in self.reals]
        return [I(d['units_code']) + d['units_description'].ljust(20) + I(d['temp_mode']), ''.join(v[:3]), v[3]]

    def decode(self, L):
        s = L.next()
        r = {'units_code': L.ints(s[:10], [10])[0], 'units_description': s[10:30].strip(), 'temp_mode': L.ints(s[30:], [10])[0]}
        v = L.reals_over(4, 25, 3, True)
        return {**r, **dict(zip(self.reals, v))}


# ===================================================================== 1858
class T1858(Base):
    t = 1858
    r1 = ('record_num', 'octave_format', 'measurement_run')
    r2 = ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
          'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type')
    r3 = ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples')
    r4 = ('user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')
    r6 = ('response_direction', 'reference_direction')
    required = r1 + r2 + r3 + r4 + r6

    def gen(self, draw, o):
        d = {'type': 1858}
        for k in self.r1:
            d[k] = draw(ints(-99999999999, 999999999999))
        for k in self.r2:
            d[k] = draw(ints(-99999, 999999))
        for k in self.r3 + self.r4:
            d[k] = draw(floats('full'))
        for k in self.r6:
            d[k] = draw(st.one_of(st.sampled_from(['X+', 'Y-', '', 'Z', 'RX+']), o.text(4)))
        return d

    def fields(self, d, fd=True):
        return [IF('type', 1858)] + [IF(k, d[k]) for k in self.r1 + self.r2] + [RF(k, d[k], ('e', 7)) for k in self.r3 + self.r4] + \
            [SF(k, d[k]) for k in self.r6]

    def body(self, d, s):
        z = s.E(0, 15, 7)
        return [''.join(I(d[k], 12) for k in self.r1) + I(0, 12) * 3, ''.join(I(d[k], 6) for k in self.r2) + I(0, 6) * 3,
                ''.join(s.E(d[k], 15, 7) for k in self.r3) + z, ''.join(s.E(d[k], 15, 7) for k in self.r4), z * 5,
                d['response_direction'].ljust(4) + '  ' + s.A(d['reference_direction'], 4), s.A('NONE', 80)]

    def decode(self, L):
        r = dict(zip(self.r1, L.ints(L.next(), [12] * 6)))
        r.update(zip(self.r2, L.ints(L.next(), [6] * 12)))
        r.update(zip(self.r3, L.reals(L.next(), 15, 5)))
        r.update(zip(self.r4, L.reals(L.next(), 15, 5)))
        L.reals(L.next(), 15, 5)
        c = L.cols(L.next(), [4, 2, 4])
        if c[1].strip():
            L.bad('columns 5-6 not blank')
        r['response_direction'], r['reference_direction'] = c[0].strip(), c[2].strip()
        L.text(80)
        return r


# ===================================================================== 2400
class T2400(Base):
    t = 2400
    optional = {'model_uid': 0, 'entity_type': 0, 'entity_subtype': 0, 'version_number': 0, 'entity_name': '', 'part_number': '',
                'status_mask': [0] * 32, 'date': '', 'time': '', 'idm_version_id': 0, 'idm_item_id': 0, 'primary_parent_uid': 0,
                'optimization_switches': 0}
    I12 = (-99999999999, 999999999999)

    def gen(self, draw, o):
        use = self.opt(draw, o)
        d = {'type': 2400}
        for k in self.optional:
            if k not in use:
                continue
            if k in ('entity_name', 'part_number'):
                d[k] = draw(o.text(80))
            elif k in ('date', 'time'):
                d[k] = draw(o.text(10))
            elif k == 'status_mask':
                d[k] = draw(st.one_of(st.lists(st.integers(-9, 99), min_size=32, max_size=32), st.just([-1] * 32), st.just([99] * 32),
                                      st.integers(0, 31).map(lambda i: [0] * i + [1] + [0] * (31 - i))))
                d[k] = flav(draw, d[k], ('list', 'list', 'tuple'))
            elif k in ('entity_type', 'entity_subtype'):
                d[k] = draw(ints(-99999, 999999))
            else:
                d[k] = draw(ints(*self.I12, no_m1=True))
        return d

    def fields(self, d, fd=True):
        e = self.with_defaults(d)
        return [IF('type', 2400)] + [(SF if isinstance(self.optional[k], str) else IF)(k, e[k]) for k in self.optional]

    def body(self, d, s):
        return [I(d['model_uid'], 12) + I(d['entity_type'], 6) + I(d['entity_subtype'], 6) + I(d['version_number'], 12),
                s.A(d['entity_name'], 80), s.A(d['part_number'], 80), ''.join(I(v, 2) for v in d['status_mask']),
                '%-10s%-10s' % (d['date'], d['time']) + ''.join(I(d[k], 12) for k in ('idm_version_id', 'idm_item_id', 'primary_parent_uid')),
                I(d['optimization_switches'], 12)]

    def decode(self, L):
        r = dict(zip(('model_uid', 'entity_type', 'entity_subtype', 'version_number'), L.ints(L.next(), [12, 6, 6, 12])))
        r['entity_name'] = L.text()
        r['part_number'] = L.text()
        r['status_mask'] = L.ints(L.next(), [2] * 32)
        s = L.next()
        r['date'], r['time'] = s[:10].strip(), s[10:20].strip()
        r.update(zip(('idm_version_id', 'idm_item_id', 'primary_parent_uid'), L.ints(s[20:], [12] * 3)))
        r['optimization_switches'] = L.ints(L.next(), [12])[0]
        return r


# ===================================================================== 2411
class T2411(Base):
    t = 2411
    required = ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z')
    cols = ('node_nums', 'def_cs', 'disp_cs', 'color')

    def gen(self, draw, o):
        n = count(draw, 0, o.big)
        d = {'type': 2411, 'node_nums': flav(draw, intarr(draw, n))}
        for k in self.cols[1:]:
            d[k] = flav(draw, intarr(draw, n, I9, no_m1=True))
        for k in 'xyz':
            d[k] = flav(draw, farr(draw, n, 'full'))
        return d

    def fields(self, d, fd=True):
        return [IF('type', 2411)] + [IF(k, np.asarray(d[k], float)) for k in self.cols] + [RF(k, np.asarray(d[k], float), 'x') for k in 'xyz']

    def body(self, d, s):
        b = []
        for i in range(len(d['node_nums'])):
            b.append(''.join(I(d[k][i]) for k in self.cols))
            b.append(''.join(s.D(d[k][i], 25, 16) for k in 'xyz'))
        return b

    def decode(self, L):
        rows = []
        while L.more():
            rows.append(L.ints(L.next(), [10] * 4) + L.reals(L.next(), 25, 3, True))
        c = list(zip(*rows)) if rows else [[]] * 7
        return dict(zip(self.cols + ('x', 'y', 'z'), map(list, c)))


# ===================================================================== 2412
BEAMS = (11, 21, 22, 23, 24)
NAMED = {'triangle': 41, 'quad': 44}


class T2412(Base):
    t = 2412
    base = ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color')
    beam = ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')

    def elem(self, draw, desc, big):
        if desc in (41, 44) and draw(st.integers(0, 5)):
            n = {41: 3, 44: 4}[desc]
        elif big:
            n = draw(st.one_of(st.integers(1, 9), st.sampled_from([10, 13, 15, 16, 17, 20, 24, 25, 27, 32, 33])))
        else:
            n = draw(st.integers(1, 9))
        e = {'element_nums': draw(ints(*LAB)), 'fe_descriptor': desc, 'phys_table': draw(ints(*I9)), 'mat_table': draw(ints(*I9)),
             'color': draw(ints(*I9)), 'num_nodes': n, 'nodes_nums': intarr(draw, n)}
        if desc in BEAMS:
            for k in self.beam:
                e[k] = draw(ints(*I9, no_m1=True))
        return e

    def gen(self, draw, o, form=None):
        form = form or draw(st.sampled_from(['desc', 'desc', 'named', 'flat', 'both', 'mixed']))
        d = {'type': 2412}
        descs = st.sampled_from([11, 21, 22, 23, 24, 41, 42, 44, 44, 41, 45, 91, 92, 94, 95, 111, 112, 115, 116, 118, 136, 161, 171])
        n = draw(st.integers(0, 6)) if not (o.big and draw(st.integers(0, 9)) == 0) else draw(st.integers(7, 40))
        if form in ('desc', 'mixed', 'both'):
            for _ in range(n):
                e = self.elem(draw, draw(descs), o.big)
                if form == 'mixed' and e['fe_descriptor'] in (41, 44):
                    continue
                if draw(st.integers(0, 3)) == 0:
                    e['nodes_nums'] = np.array(e['nodes_nums'])
                d.setdefault(e['fe_descriptor'], []).append(e)
        if form == 'both':                                  # as a reader returns them
            for name, num in NAMED.items():
                if num in d:
                    d[name] = self.named_of(d[num])
        if form in ('named', 'mixed'):
            for name, num in NAMED.items():
                if draw(st.integers(0, 2)):
                    k = draw(st.integers(0, 5))
                    d[name] = self.named_of([self.elem(draw, num, False) for _ in range(k)])
                    if draw(st.booleans()):
                        d[name] = {q: (np.array(v) if q != 'nodes_nums' and draw(st.booleans()) else v) for q, v in d[name].items()}
        if form == 'flat':
            els = [self.elem(draw, draw(descs), o.big) for _ in range(max(1, n))]
            for k in self.base + ('num_nodes', 'nodes_nums'):
                d[k] = [e[k] for e in els]
            if any(e['fe_descriptor'] in BEAMS for e in els):
                for k in self.beam:
                    d[k] = [e.get(k, 0) for e in els]
            if draw(st.booleans()):
                del d['num_nodes']
        return d

    def named_of(self, els):
        return {k: [e[k] for e in els] for k in self.base + ('num_nodes', 'nodes_nums')}

    def elements(self, d):
        """All elements in the order in which they are stored."""
        r = []
        for k in d:
            if type(k) is int:
                r += d[k]
        for name, num in NAMED.items():
            if name in d and num not in d:
                q = d[name]
                r += [{k: q[k][i] for k in q} for i in range(len(q['element_nums']))]
        if 'element_nums' in d:
            for i in range(len(d['element_nums'])):
                r.append({k: d[k][i] for k in self.base + ('nodes_nums',) + self.beam if k in d})
        return r

    def fields(self, d, fd=True):
        els = self.elements(d)
        by = {}
        for e in els:
            by.setdefault(int(e['fe_descriptor']), []).append(e)
        r = [IF('type', 2412), ((), 'intkeys', sorted(by))]
        for desc, es in by.items():
            r.append(((desc,), 'len', len(es)))
            for i, e in enumerate(es):
                for k in self.base:
                    r.append(((desc, i, k), 'i', int(e[k])))
                r.append(((desc, i, 'num_nodes'), 'i', len(e['nodes_nums'])))
                r.append(((desc, i, 'nodes_nums'), 'i', np.asarray(e['nodes_nums'])))
                if desc in BEAMS:
                    for k in self.beam:
                        r.append(((desc, i, k), 'i', int(e[k])))
        for name, num in NAMED.items():
            if num in by:
                for k in self.base:
                    r.append(((name, k), 'i', [int(e[k]) for e in by[num]]))
                r.append(((name, 'num_nodes'), 'i', [len(e['nodes_nums']) for e in by[num]]))
                r.append(((name, 'nodes_nums'), 'len', len(by[num])))
                for i, e in enumerate(by[num]):
                    r.append(((name, 'nodes_nums', i), 'i', np.asarray(e['nodes_nums'])))
            else:
                r.append(((name,), 'absent', None))
        return r

    def body(self, d, s):
        b = []
        for e in self.elements(d):
            b.append(''.join(I(e[k]) for k in self.base) + I(len(e['nodes_nums'])))
            if e['fe_descriptor'] in BEAMS:
                b.append(''.join(I(e[k]) for k in self.beam))
            b += [''.join(map(I, c)) for c in chunks(list(e['nodes_nums']), 8)]
        return b

    def decode(self, L):
        r = {}
        while L.more():
            v = L.ints(L.next(), [10] * 6)
            e = dict(zip(self.base + ('num_nodes',), v))
            if e['fe_descriptor'] in BEAMS:
                e.update(zip(self.beam, L.ints(L.next(), [10] * 3)))
            e['nodes_nums'] = []
            while len(e['nodes_nums']) < e['num_nodes']:
                e['nodes_nums'] += L.ints(L.next(), [10] * min(8, e['num_nodes'] - len(e['nodes_nums'])))
            r.setdefault(e['fe_descriptor'], []).append(e)
        for name, num in NAMED.items():
            if num in r:
                r[name] = self.named_of(r[num])
        return r


# ===================================================================== 2420
class T2420(Base):
    t = 2420
    required = ('CS_sys_labels', 'CS_names', 'CS_matrices')
    optional = {'Part_UID': 1, 'Part_Name': 'None', 'CS_types': [0], 'CS_colors': [8]}

    def gen(self, draw, o):
        use = self.opt(draw, o)
        n = count(draw, 0, False)
        d = {'type': 2420}
        if not {'CS_types', 'CS_colors'} <= use:
            n = 1
        if 'Part_UID' in use:
            d['Part_UID'] = draw(ints(*I10, no_m1=True))
        if 'Part_Name' in use:
            d['Part_Name'] = draw(o.text(80))
        d['CS_sys_labels'] = flav(draw, intarr(draw, n))
        if 'CS_types' in use:
            d['CS_types'] = flav(draw, intarr(draw, n, (0, 2)))
        if 'CS_colors' in use:
            d['CS_colors'] = flav(draw, intarr(draw, n, I9, no_m1=True))
        d['CS_names'] = [draw(o.text(80)) for _ in range(n)]
        m = farr(draw, 12 * n, 'full').reshape(n, 4, 3)
        d['CS_matrices'] = m if draw(st.booleans()) else [m[i] for i in range(n)]
        return d

    def fields(self, d, fd=True):
        e = self.with_defaults(d)
        n = len(e['CS_sys_labels'])
        r = [IF('type', 2420), IF('Part_UID', e['Part_UID']), SF('Part_Name', e['Part_Name']), IF('CS_sys_labels', np.asarray(e['CS_sys_labels'])),
             IF('CS_types', np.asarray(e['CS_types'])), IF('CS_colors', np.asarray(e['CS_colors'])), SF('CS_names', list(e['CS_names'])),
             (('CS_matrices',), 'len', n)]
        return r + [(('CS_matrices', i), 'x', np.asarray(e['CS_matrices'][i])) for i in range(n)]

    def body(self, d, s):
        b = [I(d['Part_UID']), s.A(d['Part_Name'], 80)]
        for i in range(len(d['CS_sys_labels'])):
            b.append(I(d['CS_sys_labels'][i]) + I(d['CS_types'][i]) + I(d['CS_colors'][i]))
            b.append(s.A(d['CS_names'][i], 80))
            b += [''.join(s.D(v, 25, 16) for v in row) for row in d['CS_matrices'][i]]
        return b

    def decode(self, L):
        r = {'Part_UID': L.ints(L.next(), [10])[0], 'Part_Name': L.text(80), 'CS_sys_labels': [], 'CS_types': [], 'CS_colors': [], 'CS_names': [],
             'CS_matrices': []}
        while L.more():
            for k, v in zip(('CS_sys_labels', 'CS_types', 'CS_colors'), L.ints(L.next(), [10] * 3)):
                r[k].append(v)
            r['CS_names'].append(L.text(80))
            r['CS_matrices'].append([L.reals(L.next(), 25, 3, True) for _ in range(4)])
        return r


# ================================================================ 2429, 2467
ACTIVE = tuple(f'active_{k}_set_no_for_group' for k in ('constraint', 'restraint', 'load', 'dof', 'temperature', 'contact'))


class TGroups(Base):
    def gen(self, draw, o):
        n = draw(st.integers(0, 4))
        return {'type': self.t, 'groups': [self.group(draw, o) for _ in range(n)]}

    def group(self, draw, o):
        use = pick_optional(draw, ACTIVE) if o.opt else set(ACTIVE)
        k = count(draw, 0, o.big)
        g = {'group_number': draw(ints(0, 999999999)), 'group_name': draw(o.text(40)) or 'g'}
        for a in ACTIVE:
            if a in use:
                g[a] = draw(ints(0, 999999999))
        for e in self.ent:
            g[e] = flav(draw, intarr(draw, k))
            if k == 0 and isinstance(g[e], np.ndarray):
                g[e] = np.array([], int)
        return g

    def fields(self, d, fd=True):
        r = [IF('type', self.t), (('groups',), 'len', len(d['groups']))]
        for i, g in enumerate(d['groups']):
            p = ('groups', i)
            r.append((p + ('group_number',), 'i', g['group_number']))
            r.append((p + ('group_name',), 's', g['group_name']))
            for a in ACTIVE:
                r.append((p + (a,), 'i', g.get(a, 0)))
            r.append((p + ('number_of_entities_in_group',), 'i', len(g['entity_type_code'])))
            for e in self.ent:
                r.append((p + (e,), 'i', np.asarray(g[e])))
        return r

    def body(self, d, s):
        b = []
        for g in d['groups']:
            n = len(g['entity_type_code'])
            b.append(I(g['group_number']) + ''.join(I(g.get(a, 0)) for a in ACTIVE) + I(n))
            b.append(s.A(g['group_name'], 40))
            v = [g[e][i] for i in range(n) for e in self.ent]
            b += [''.join(map(I, c)) for c in chunks(v, 8)]
        return b

    def decode(self, L):
        gs = []
        while L.more():
            v = L.ints(L.next(), [10] * 8)
            g = dict(zip(('group_number',) + ACTIVE + ('number_of_entities_in_group',), v))
            g['group_name'] = L.text(40)
            n, w = v[7], len(self.ent)
            vals = []
            while len(vals) < n * w:
                vals += L.ints(L.next(), [10] * min(8, n * w - len(vals)))
            for j, e in enumerate(self.ent):
                g[e] = vals[j::w]
            gs.append(g)
        return {'groups': gs}


class T2429(TGroups):
    t = 2429
    ent = ('entity_type_code', 'entity_tag')


class T2467(TGroups):
    t = 2467
    ent = ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id')


# ======================================================================= 55
def t55cx(d):
    return any(np.iscomplexobj(d[k]) for k in ('r1', 'r2', 'r3', 'r4', 'r5', 'r6') if k in d)


class T55(Base):
    t = 55
    required = ('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'node_nums', 'r1', 'r2', 'r3')
    ids = ('id1', 'id2', 'id3', 'id4', 'id5')
    optional = {**{k: 'NONE' for k in ids}, 'model_type': 1}

    def gen(self, draw, o, form=None):
        use = self.opt(draw, o)
        at, cx, six = form or (draw(st.sampled_from([2, 3, 5, 7])), draw(st.booleans()), draw(st.booleans()))
        d = {'type': 55}
        for k in self.ids:
            if k in use:
                d[k] = draw(o.text(80))
        if 'model_type' in use:
            d['model_type'] = draw(st.integers(0, 3))
        d['analysis_type'] = at
        d['data_ch'] = draw(st.integers(0, 5))
        d['spec_data_type'] = draw(st.integers(0, 18))
        if draw(st.booleans()):
            d['data_type'] = 5 if cx else 2
            d['n_data_per_node'] = 6 if six else 3
        d['load_case'] = draw(ints(*I10))
        f = floats('full')
        drop = draw(st.integers(0, 7)) if o.opt else 7
        if at == 5:
            d['freq_step_n'] = draw(ints(*I10, no_m1=True))
            d['freq'] = draw(f)
        else:
            d['mode_n'] = draw(ints(*I10, no_m1=True))
            if at == 2:
                d['freq'] = draw(f)
                for i, k in enumerate(('modal_m', 'modal_damp_vis', 'modal_damp_his')):
                    if drop >> i & 1:
                        d[k] = draw(f)
            else:
                d['eig'] = complex(draw(f), draw(f))
                for i, k in enumerate(('modal_a', 'modal_b')):
                    if drop >> i & 1:
                        d[k] = complex(draw(f), draw(f)) if draw(st.integers(0, 2)) else draw(f)
        n = count(draw, 0, o.big)
        d['node_nums'] = flav(draw, intarr(draw, n, (0, 9999999999) if draw(st.integers(0, 3)) == 0 else LAB))
        mixed = draw(st.sampled_from([63, 63, 63, draw(st.integers(0, 62))]))    # components that are complex
        for i in range(6 if six else 3):
            d[f'r{i + 1}'] = flav(draw, carr(draw, n, 'full') if cx and mixed >> i & 1 else farr(draw, n, 'full'))
        if cx and not t55cx(d):              # an empty list carries no kind, and one component has to be complex
            d[f'r{1 + mixed % 3}'] = carr(draw, n, 'full') if n else np.zeros(0, complex)
        return d

    def fields(self, d, fd=True):
        e = self.with_defaults(d)
        at = e['analysis_type']
        six = 'r4' in e and 'r5' in e and 'r6' in e
        cx = t55cx(e)
        r = [IF('type', 55)] + [SF(k, e[k]) for k in self.ids]
        r += [IF(k, e[k]) for k in ('model_type', 'analysis_type', 'data_ch', 'spec_data_type', 'load_case')]
        r += [IF('data_type', 5 if cx else 2), IF('n_data_per_node', 6 if six else 3)]
        if at == 5:
            r += [IF('freq_step_n', e['freq_step_n']), RF('freq', e['freq'])]
        else:
            r.append(IF('mode_n', e['mode_n']))
            if at == 2:
                r += [RF('freq', e['freq'])] + [RF(k, e.get(k, 0)) for k in ('modal_m', 'modal_damp_vis', 'modal_damp_his')]
            else:
                r += [RF(k, complex(e.get(k, 0))) for k in ('eig', 'modal_a', 'modal_b')]
        r.append(IF('node_nums', np.asarray(e['node_nums'])))
        for i in range(6):
            k = f'r{i + 1}'
            if i < 3 or six:
                v = np.asarray(e[k])
                r.append(RF(k, v.astype(complex) if cx else v.astype(float)))
            else:
                r.append(((k,), 'absent', None))
        return r

    def body(self, d, s):
        at = d['analysis_type']
        six = 'r4' in d
        cx = t55cx(d)
        b = [s.A(d[k], 80) for k in self.ids]
        b.append(''.join(map(I, (d['model_type'], at, d['data_ch'], d['spec_data_type'], 5 if cx else 2, 6 if six else 3))))
        c = lambda k: [complex(d.get(k, 0)).real, complex(d.get(k, 0)).imag]
        if at == 2:
            n, v = d['mode_n'], [d['freq']] + [d.get(k, 0) for k in ('modal_m', 'modal_damp_vis', 'modal_damp_his')]
        elif at == 5:
            n, v = d['freq_step_n'], [d['freq']]
        else:
            n, v = d['mode_n'], c('eig') + c('modal_a') + c('modal_b')
        b.append(''.join(map(I, (2, len(v), d['load_case'], n))))
        b.append(''.join(s.E(x, 13, 5) for x in v))
        for i in range(len(d['node_nums'])):
            b.append(I(d['node_nums'][i]))
            v = []
            for k in range(6 if six else 3):
                x = d[f'r{k + 1}'][i]
                v += [complex(x).real, complex(x).imag] if cx else [x]
            b += [''.join(s.E(x, 13, 5) for x in q) for q in chunks(v, 6)]
        return b

    def decode(self, L):
        r = {k: L.text() for k in self.ids}
        r.update(zip(('model_type', 'analysis_type', 'data_ch', 'spec_data_type', 'data_type', 'n_data_per_node'), L.ints(L.next(), [10] * 6)))
        ni, nr, lc, num = L.ints(L.next(), [10] * 4)
        at = r['analysis_type']
        want = {2: 4, 5: 1, 3: 6, 7: 6}.get(at)
        if (ni, nr) != (2, want):
            L.bad(f'{ni} integer and {nr} real parameters announced, layout has 2 and {want}')
        v = L.reals(L.next(), 13, nr)
        r['load_case'] = lc
        r['freq_step_n' if at == 5 else 'mode_n'] = num
        if at == 2:
            r.update(zip(('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his'), v))
        elif at == 5:
            r['freq'] = v[0]
        else:
            r['eig'], r['modal_a'], r['modal_b'] = complex(*v[:2]), complex(*v[2:4]), complex(*v[4:])
        nd, cx = r['n_data_per_node'], r['data_type'] == 5
        r['node_nums'] = []
        rows = []
        while L.more():
            r['node_nums'].append(L.ints(L.next(), [10])[0])
            rows.append(L.reals_over(nd * (2 if cx else 1), 13, 6))
        for i in range(nd):
            r[f'r{i + 1}'] = [complex(x[2 * i], x[2 * i + 1]) for x in rows] if cx else [x[i] for x in rows]
        return r


# ===================================================================== 2414
class T2414(Base):
    t = 2414
    ids = ('id1', 'id2', 'id3', 'id4', 'id5')
    r9 = ('model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type', 'number_of_data_values_for_the_data_component')
    i5 = ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number', 'time_step_number',
          'frequency_number')
    i5b = ('creation_option', 'number_retained')
    f5 = ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping')
    f5b = ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass',
           'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass')
    g = {r: [f'record{r}_field{i}' for i in range(1, (9 if r < 12 else 7))] for r in (10, 11, 12, 13)}
    required = ('analysis_dataset_label', 'analysis_dataset_name', 'dataset_location') + ids + r9

    def gen(self, draw, o, form=None):
        d = {'type': 2414, 'analysis_dataset_label': draw(ints(*I10, no_m1=True)), 'analysis_dataset_name': draw(o.text(80))}
        for k in self.ids:
            d[k] = draw(o.text(80))
        d['model_type'] = draw(st.integers(0, 3))
        d['data_characteristic'] = draw(st.sampled_from([0, 1, 2, 3, 4, 6]))
        d['result_type'] = draw(ints(*I10))
        form = form or draw(st.sampled_from(['fr', 'fr', 1, 2, 3]))
        nd = ('nd', 'nd', 'strided', 'ro')
        f = floats('full')
        if form == 'fr':
            nv = draw(st.integers(1, 3))
            d.update(dataset_location=1, analysis_type=5, data_type=5, number_of_data_values_for_the_data_component=nv)
            for k in self.i5 + self.i5b:
                d[k] = draw(ints(*I10, no_m1=k in ('frequency_number', 'number_retained')))
            for k in self.f5 + self.f5b:
                d[k] = draw(f)
            n = count(draw, 0, o.big)
            d['node_nums'] = flav(draw, np.array(intarr(draw, n), int), nd)
            for k in 'xyz'[:nv]:
                real = draw(st.integers(0, 7)) == 0          # a component may be purely real
                d[k] = flav(draw, np.array(farr(draw, n, 'split'), float) if real else carr(draw, n, 'split'), nd)
            return d
        d.update(dataset_location=form, analysis_type=draw(st.sampled_from([0, 1, 2, 3, 4, 6, 7, 9])), data_type=draw(st.sampled_from([2, 4, 5, 6])),
                 number_of_data_values_for_the_data_component=draw(st.integers(0, 9)))
        m = draw(st.integers(0, 3))
        for r in (10, 11, 12, 13):
            for k in self.g[r]:
                if m == 0 or (m == 1 and draw(st.booleans())):
                    continue
                d[k] = draw(ints(*I10, no_m1=k.endswith('8'))) if r < 12 else draw(f)
        n = max(1, count(draw, 1, o.big))
        lab = flav(draw, np.array(intarr(draw, n), int), nd)
        if form == 3:
            d['element_nums'] = lab
            ie, nn, nv, data = [], [], [], []
            small = n > 9
            for _ in range(n):
                e, q, v = (1, 2, 3) if small else (draw(st.sampled_from([1, 1, 2])), draw(st.integers(1, 5)), draw(st.integers(1, 13)))
                ie.append(e)
                nn.append(q)
                nv.append(v)
                data.append([farr(draw, len(c), 'split') for _ in range(q if e == 1 else 1) for c in chunks(range(v), 6)])
            d.update(IEXP=np.array(ie), number_of_nodes=np.array(nn), number_of_values_per_node=np.array(nv), data_at_nodes_on_element=data)
            return d
        d['node_nums' if form == 1 else 'element_nums'] = lab
        same = draw(st.booleans())
        w = draw(st.integers(1, 6))
        d['data_at_node' if form == 1 else 'data_at_element'] = \
            [flav(draw, farr(draw, w if same or n > 9 else draw(st.integers(1, 6)), 'split'), ('nd', 'nd', 'list')) for _ in range(n)]
        return d

    def fields(self, d, fd=True):
        r = [IF('type', 2414)] + [IF(k, d[k]) for k in ('analysis_dataset_label', 'dataset_location') + self.r9]
        r += [SF(k, d[k]) for k in ('analysis_dataset_name',) + self.ids]
        if d['analysis_type'] == 5:
            r += [IF(k, d[k]) for k in self.i5 + self.i5b] + [RF(k, d[k]) for k in self.f5 + self.f5b]
            r.append(IF('node_nums', np.asarray(d['node_nums'])))
            nv = d['number_of_data_values_for_the_data_component']
            return r + [RF(k, np.asarray(d[k], complex)) for k in 'xyz'[:nv]] + [((k,), 'absent', None) for k in 'xyz'[nv:]]
        for q in (10, 11):
            r += [IF(k, d.get(k, 0)) for k in self.g[q]]
        for q in (12, 13):
            r += [RF(k, d.get(k, 0)) for k in self.g[q]]
        loc = d['dataset_location']
        if loc == 1:
            r.append(IF('node_nums', np.asarray(d['node_nums'])))
            key = 'data_at_node'
        else:
            r.append(IF('element_nums', np.asarray(d['element_nums'])))
            key = 'data_at_element'
            if loc == 2:
                r.append(IF('NDVAL', [len(v) for v in d[key]]))
        if loc == 3:
            r += [IF(k, np.asarray(d[k])) for k in ('IEXP', 'number_of_nodes', 'number_of_values_per_node')]
            key = 'data_at_nodes_on_element'
            r.append(((key,), 'len', len(d[key])))
            for i, e in enumerate(d[key]):
                r.append(((key, i), 'len', len(e)))
                r += [((key, i, j), E5, np.asarray(v, float)) for j, v in enumerate(e)]
        else:
            r.append(((key,), 'len', len(d[key])))
            r += [((key, i), E5, np.asarray(v, float)) for i, v in enumerate(d[key])]
        return r

    def body(self, d, s):
        b = [I(d['analysis_dataset_label']), s.A(d['analysis_dataset_name'], 80), I(d['dataset_location'])]
        b += [s.A(d[k], 80) for k in self.ids]
        b.append(''.join(I(d[k]) for k in self.r9))
        R = lambda v: ''.join(s.E(x, 13, 5) for x in v)
        if d['analysis_type'] == 5:
            b += [''.join(I(d[k]) for k in self.i5), ''.join(I(d[k]) for k in self.i5b), R([d[k] for k in self.f5]), R([d[k] for k in self.f5b])]
            nv = d['number_of_data_values_for_the_data_component']
            for i in range(len(d['node_nums'])):
                b.append(I(d['node_nums'][i]))
                b.append(R([x for k in 'xyz'[:nv] for x in (d[k][i].real, d[k][i].imag)]))
            return b
        b.append(s.Z([I(d.get(k, 0)) for k in self.g[10]]))
        n11 = 8 if any(d.get(k, 0) for k in self.g[11][2:]) or d.get(self.g[11][1]) == -1 else 2          # -1 at the end: known finding K1
        b.append(s.Z([I(d.get(k, 0)) for k in self.g[11][:n11]]))
        b += [s.Z([R([d.get(k, 0)]) for k in self.g[12]]), s.Z([R([d.get(k, 0)]) for k in self.g[13]])]
        loc = d['dataset_location']
        if loc == 3:
            for i in range(len(d['element_nums'])):
                b.append(''.join(I(d[k][i]) for k in ('element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node')))
                b += [R(v) for v in d['data_at_nodes_on_element'][i]]
            return b
        lab, data = (d['node_nums'], d['data_at_node']) if loc == 1 else (d['element_nums'], d['data_at_element'])
        for i in range(len(lab)):
            b.append(I(lab[i]) + (I(len(data[i])) if loc == 2 else ''))
            b += [R(c) for c in chunks(list(data[i]), 6)]
        return b

    def decode(self, L):
        r = {'analysis_dataset_label': L.ints(L.next(), [10])[0], 'analysis_dataset_name': L.text(), 'dataset_location': L.ints(L.next(), [10])[0]}
        for k in self.ids:
            r[k] = L.text()
        r.update(zip(self.r9, L.ints(L.next(), [10] * 6)))
        fr = r['analysis_type'] == 5
        r.update(zip(self.i5 if fr else self.g[10], L.ints(L.next(), [10] * 8)))
        s = L.next()
        r.update(zip(self.i5b if fr else self.g[11], L.ints(s, [10] * (2 if fr else len(s.rstrip()) // 10))))
        r.update(zip(self.f5 if fr else self.g[12], L.reals(L.next(), 13, 6)))
        r.update(zip(self.f5b if fr else self.g[13], L.reals(L.next(), 13, 6)))
        loc = r['dataset_location']
        if fr:
            nv = r['number_of_data_values_for_the_data_component']
            r['node_nums'], rows = [], []
            while L.more():
                r['node_nums'].append(L.ints(L.next(), [10])[0])
                v = L.reals_over(2 * nv, 13, 6)
                rows.append([complex(v[2 * i], v[2 * i + 1]) for i in range(nv)])
            for i, k in enumerate('xyz'[:nv]):
                r[k] = [q[i] for q in rows]
            return r
        if loc == 3:
            ks = ('element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node')
            r.update({k: [] for k in ks + ('data_at_nodes_on_element',)})
            while L.more():
                v = L.ints(L.next(), [10] * 4)
                for k, x in zip(ks, v):
                    r[k].append(x)
                r['data_at_nodes_on_element'].append([L.reals(L.next(), 13, len(c)) for _ in range(v[2] if v[1] == 1 else 1)
                                                      for c in chunks(range(v[3]), 6)])
            return r
        lab, key = ('node_nums', 'data_at_node') if loc == 1 else ('element_nums', 'data_at_element')
        r.update({lab: [], key: []})
        if loc == 2:
            r['NDVAL'] = []
        while L.more():
            v = L.ints(L.next(), [10] * loc)
            r[lab].append(v[0])
            if loc == 2:
                r['NDVAL'].append(v[1])
                r[key].append(L.reals_over(v[1], 13, 6))
            else:
                s = L.next()
                r[key].append(L.reals(s, 13, len(s.rstrip()) // 13))
        return r


# ======================================================================= 58
_AXES58 = {}
for _a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
    for _k in ('len', 'force', 'temp'):
        _AXES58[f'{_a}_{_k}_unit_exp'] = 0
    _AXES58[f'{_a}_axis_lab'] = 'NONE'
    _AXES58[f'{_a}_axis_units_lab'] = 'NONE'


class T58(Base):
    t = 58
    ids = ('id1', 'id2', 'id3', 'id4', 'id5')
    required = ('func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'orddenom_spec_data_type', 'x', 'data')
    axes = ('abscissa', 'ordinate', 'orddenom', 'z_axis')
    funcs = (0, 1, 2, 3, 4, 6, 9)
    optional = {**{k: 'NONE' for k in ids}, 'func_id': 0, 'ver_num': 0, 'binary': 0, 'load_case_id': 0, 'rsp_ent_name': 'NONE', 'ref_ent_name': 'NONE',
                'z_axis_value': 0, 'abscissa_spec_data_type': 0, 'ordinate_spec_data_type': 0, 'z_axis_spec_data_type': 0, 'abscissa_spacing': 0}
    optional.update(_AXES58)
    textkeys = [k for k, v in optional.items() if v == 'NONE']
    text_w = {**{k: 80 for k in ids}, 'rsp_ent_name': 10, 'ref_ent_name': 10}
    ALL_FORMS = [(cx, ev, bi, db) for cx in (0, 1) for ev in (0, 1) for bi in (0, 1) for db in (0, 1)]

    def header(self, draw, o, use, funcs=None):
        d = {'func_type': draw(st.sampled_from(funcs or self.funcs))}
        iv = {'func_id': I10, 'ver_num': (-9999, 99999), 'load_case_id': I10}
        for k in sorted(use):
            if k in self.textkeys:
                d[k] = draw(o.text(self.text_w.get(k, 20)))
            elif k in iv:
                d[k] = draw(ints(*iv[k]))
            elif k.endswith('_unit_exp'):
                d[k] = draw(ints(-9999, 99999))
            elif k.endswith('spec_data_type'):
                d[k] = draw(st.integers(0, 20)) if draw(st.integers(0, 3)) else draw(ints(0, 9999999999))
            elif k == 'z_axis_value':
                d[k] = draw(floats('full'))
        for k in ('rsp_node', 'ref_node'):
            d[k] = draw(ints(*I10))
        for k in ('rsp_dir', 'ref_dir'):
            d[k] = draw(st.integers(-6, 6)) if draw(st.integers(0, 3)) else draw(ints(-999, 9999))
        d['orddenom_spec_data_type'] = draw(st.integers(0, 20))
        return d

    def npts(self, draw, o, lo=2):
        k = draw(st.integers(0, 23))
        if o.nmax58:
            return draw(st.integers(lo, o.nmax58))
        if k < 17:
            return draw(st.integers(lo, 13))
        if k < 21 or not o.big:
            return draw(st.integers(14, 70))
        k = draw(st.integers(0, 24))
        if k == 0:
            return draw(st.sampled_from([8191, 8192, 8193, 9999, 10000, 10001, 16385, 20000, 32768, 65535, 65536, 65537, 100000, 131073]))
        if k < 4:
            return draw(st.sampled_from([1999, 2000, 2047, 2048, 2049, 2500, 4095, 4096, 4097, 5000]))
        return draw(st.sampled_from([96, 100, 127, 128, 129, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 600, 777, 1000, 1023, 1024, 1025]))

    def even_x(self, draw, n):
        x0 = draw(st.one_of(st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5, 10.0, 1e-3, 1234.56789]), floats('r90').map(lambda v: v if abs(v) < 1e30 else 0.0)))
        inc = draw(st.one_of(st.sampled_from([1.0, 0.5, 1e-3, 1 / 51200, 1 / 3, 0.12345678, 100.0, -1.0, 0.0]),
                             st.tuples(st.integers(-9999999, 9999999), st.integers(-8, 8)).map(lambda t: t[0] / 1e6 * 10.0 ** t[1])))
        if x0 and inc and not 1e-6 < abs(inc / x0) < 1e12:
            inc = r6(x0 * draw(st.sampled_from([1.0, 1e-3, 0.125, 1e-5, 37.5])))
        return x0 + inc * np.arange(n)

    def gen(self, draw, o, form=None, foreign=False, nmin=2):
        """foreign: any function type, points >= 1, canonical (double) signal"""
        cx, ev, bi, db = form or draw(st.sampled_from(o.forms58 or self.ALL_FORMS))
        use = self.opt(draw, o)
        d = {'type': 58, **self.header(draw, o, use, list(range(0, 28)) if foreign else None)}
        n = self.npts(draw, o, nmin)
        vr = 'f32' if (bi and not db) else 'full'
        short = False
        if ev:
            x = self.even_x(draw, n)
            short = not foreign and n < 100 and draw(st.integers(0, 11)) == 0
            if short:                                       # short and unsigned integers
                inc = draw(st.sampled_from([-1, -2, 1, 100, -100, 0]))
                x = inc * np.arange(n, dtype=np.int64) + draw(st.sampled_from([0, 1, 100, -100, -128])) + (max(0, -inc) * n if draw(st.booleans()) else 0)
            d['abscissa_spacing'] = 1
        else:
            kind = draw(st.sampled_from(['any', 'inc', 'grid', 'almost', 'dec', 'const']))
            if kind == 'any':
                x = farr(draw, n, vr)
            elif kind == 'inc':
                x = np.cumsum(np.abs(fillarr(np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1))), n, 'unit', 'r90')))
            elif kind == 'almost':
                e = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1))).uniform(-1, 1, n)
                x = (np.arange(n) + e * draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6, 1e-9]))) * draw(st.sampled_from([1.0, -1.0, 0.25, 1e-3, 1e6]))
            elif kind == 'dec':
                x = -np.cumsum(np.abs(fillarr(np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1))), n, 'unit', 'r90')))
            elif kind == 'const':
                x = np.full(n, draw(st.sampled_from([0.0, 1.0, -2.5])))
            else:
                x = np.arange(n) * 0.25 + draw(st.integers(-5, 5))
            if 'abscissa_spacing' in use or foreign:
                d['abscissa_spacing'] = 0
        y = carr(draw, n, vr) if cx else farr(draw, n, vr)
        dt = draw(st.sampled_from(['d'] * 6 + ['f', 'i'])) if not foreign else 'd'
        if dt == 'i' and not cx:
            y = np.array([int(max(-1e15, min(1e15, v))) for v in y], np.int64)
        elif dt == 'f':
            with np.errstate(all='ignore'):
                y32 = np.clip(y.real, -3e38, 3e38).astype('f4')
                y = (y32 + 1j * np.clip(y.imag, -3e38, 3e38).astype('f4')).astype('c8') if cx else y32
        xt = draw(st.sampled_from(['d', 'd', 'd', 'd', 'i', 'f'])) if not foreign else 'd'
        if short:
            pass
        elif xt == 'i' and np.all(np.abs(x) < 1e15) and np.all(x == np.floor(x)):
            x = x.astype(int)
        elif xt == 'f' and not ev:
            with np.errstate(all='ignore'):
                x = np.clip(x, -3e38, 3e38).astype('f4')
        d['x'] = flavour(x, 'narrow') if short else flav(draw, x)
        d['data'] = flav(draw, y)
        if bi or 'binary' in use:
            d['binary'] = bi
        return d, (cx, ev, bi, db)

    def wargs(self, draw, d, form, fd=None):
        """(force_double, ord_data_type) choices that ask for `form`; sets d"""
        cx, ev, bi, db = form
        if db and (draw(st.booleans()) if fd is None else fd):
            fd = True
            o = draw(st.sampled_from([None, 2, 4] if not cx else [None, 5, 6]))
            if o is not None:
                d['ord_data_type'] = o
        else:
            fd = False
            d['ord_data_type'] = (6 if db else 5) if cx else (4 if db else 2)
        return fd

    def is_double(self, d, fd):
        return fd or d['ord_data_type'] in (4, 6)

    def fields(self, d, fd=True, dig=11, header_only=False):
        e = self.with_defaults(d)
        y = np.asarray(e['data'])
        x = np.asarray(e['x'], float)
        cx = np.iscomplexobj(y)
        db = self.is_double(d, fd)
        ev, bi = int(bool(e['abscissa_spacing'])), int(bool(e['binary']))
        n = len(y)
        r = [IF('type', 58), IF('binary', bi), IF('func_type', e['func_type'])]
        for k in self.optional:
            if k in ('binary', 'z_axis_value', 'abscissa_spacing'):
                continue
            r.append(SF(k, e[k]) if k in self.textkeys else IF(k, e[k]))
        r += [IF(k, e[k]) for k in ('rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'orddenom_spec_data_type')]
        r += [RF('z_axis_value', e['z_axis_value']), IF('abscissa_spacing', ev), IF('num_pts', n),
              IF('ord_data_type', (6 if db else 5) if cx else (4 if db else 2))]
        if ev:
            r += [RF('abscissa_min', float(x[0]))]
            if n > 1:
                r += [RF('abscissa_inc', float(x[1] - x[0]))]
        if header_only:
            return r + [(('x',), 'none', None), (('data',), 'none', None)]
        if ev:
            r.append((('x',), 'evenx', (n, float(x[0]), float(x[1] - x[0]) if n > 1 else None)))
        else:
            r.append(RF('x', x, ('f8' if db else 'f4') if bi else E5))
        r.append((('data',), 'cx' if cx else 'real', None))
        y = y.astype(complex if cx else float)
        r.append(RF('data', y, ('f8' if db else 'f4') if bi else (('e', dig) if db else E5)))
        return r

    # ------------------------------------------------------------- encoding
    def encode(self, d, s, fd=True, delim_own_line=False):
        e = self.with_defaults(d)
        y = np.asarray(e['data'])
        x = np.asarray(e['x'], float)
        cx = np.iscomplexobj(y)
        db = self.is_double(d, fd)
        ev, bi = int(bool(e['abscissa_spacing'])), int(bool(e['binary']))
        n = len(y)
        cols = ([] if ev else [x]) + ([y.real.astype(float), y.imag.astype(float)] if cx else [y.astype(float)])
        vals = np.stack(cols, 1).ravel() if n else np.zeros(0)
        payload = vals.astype(('<' if s.bo == 1 else '>') + ('f8' if db else 'f4')).tobytes() if bi else b''
        delim = '    -1' + (' ' * 74 if s.pad_delim else '')
        h = [delim]
        if bi:
            h.append('%6d%s%6d%6d%12d%12d%6d%6d%12d%12d' % (58, s.b, s.bo, 2, 11, len(payload), 0, 0, 0, 0))
        else:
            h.append('%6d%s' % (58, ' ' * 74 if s.pad_head else ''))
        h += [s.A(e[k], 80) for k in self.ids]
        h.append(s.Z(['%5d' % e['func_type'], '%10d' % e['func_id'], '%5d' % e['ver_num'], '%10d' % e['load_case_id'], ' %-10s' % e['rsp_ent_name'],
                      '%10d' % e['rsp_node'], '%4d' % e['rsp_dir'], ' %-10s' % e['ref_ent_name'], '%10d' % e['ref_node'], '%4d' % e['ref_dir']]))
        x0, dx = (x[0], (x[1] - x[0] if n > 1 else 0.0)) if ev else (0.0, 0.0)
        h.append('%10d%10d%10d' % ((6 if db else 5) if cx else (4 if db else 2), n, ev) + s.E(x0, 13, 5) + s.E(dx, 13, 5) + s.E(e['z_axis_value'], 13, 5))
        for a in self.axes:
            v = '%10d%5d%5d%5d %-20s ' % (e[f'{a}_spec_data_type'], e[f'{a}_len_unit_exp'], e[f'{a}_force_unit_exp'], e[f'{a}_temp_unit_exp'],
                                          e[f'{a}_axis_lab'])
            u = s.A(e[f'{a}_axis_units_lab'], 20)
            h.append(v + (u if not (v + u).endswith('    -1') else u.ljust(20)))        # known finding K3
        if s.pad_num:
            h[2:] = [v.ljust(80) for v in h[2:]]
        if bi:
            return (s.eol.join(h) + s.eol).encode(s.txt_enc) + payload + ((s.eol if delim_own_line else '') + delim + s.eol).encode()
        wide = s.dig58
        if not db:
            f, per = [(13, 5)], 6
        elif ev:
            f, per = [(20, wide)], 4
        else:
            f, per = [(13, 5)] + [(20, wide)] * (2 if cx else 1), (3 if cx else 4)
        for c in chunks(list(range(len(vals))), per):
            h.append(''.join(s.E(vals[i], *f[i % len(f)]) for i in c))
            h[-1] = h[-1].ljust(80) if s.pad_num else h[-1]
        return (s.eol.join(h) + s.eol + delim + s.eol).encode(s.txt_enc)

    # ------------------------------------------------------------- decoding
    def decode_block(self, head, raw):
        """head: the type line (bytes), raw: everything after it up to the delimiter."""
        what = 'layout of 58'
        h = head.decode('utf-8')
        r = {}
        binary = h[6:7].lower() == 'b'
        if not binary and h[6:].strip():
            raise Violation(f'{what}: type line {h!r}')
        parts = raw.split(b'\n', 11)
        if len(parts) < 12:
            raise Violation(f'{what}: fewer than 11 header lines')
        L = Lines([p.rstrip(b'\r').decode('utf-8') for p in parts[:11]], what)
        for k in self.ids:
            r[k] = L.text()
        s = L.next()
        a = L.cols(s, [5, 10, 5, 10, 1, 10, 10, 4, 1, 10, 10, 4])
        if (a[4] + a[8]).strip():
            L.bad('blank column 31 or 56 used')
        for i, k in ((0, 'func_type'), (1, 'func_id'), (2, 'ver_num'), (3, 'load_case_id'), (6, 'rsp_node'), (7, 'rsp_dir'), (10, 'ref_node'), (11, 'ref_dir')):
            r[k] = L.ints(a[i], [len(a[i])])[0]
        r['rsp_ent_name'], r['ref_ent_name'] = a[5].strip(), a[9].strip()
        s = L.next()
        r['ord_data_type'], n, r['abscissa_spacing'] = L.ints(s[:30], [10] * 3)
        r['num_pts'] = n
        r['abscissa_min'], r['abscissa_inc'], r['z_axis_value'] = L.reals(s[30:], 13, 3)
        for ax in self.axes:
            s = L.next()
            c = L.cols(s, [10, 5, 5, 5, 1, 20, 1, 20])
            if (c[4] + c[6]).strip():
                L.bad('blank column 26 or 47 used')
            r.update(zip((f'{ax}_spec_data_type', f'{ax}_len_unit_exp', f'{ax}_force_unit_exp', f'{ax}_temp_unit_exp'), L.ints(s[:25], [10, 5, 5, 5])))
            r[f'{ax}_axis_lab'], r[f'{ax}_axis_units_lab'] = c[5].strip(), c[7].strip()
        if r['ord_data_type'] not in (2, 4, 5, 6) or r['abscissa_spacing'] not in (0, 1):
            raise Violation(f'{what}: ordinate data type {r["ord_data_type"]}, spacing {r["abscissa_spacing"]}')
        cx, db, ev = r['ord_data_type'] in (5, 6), r['ord_data_type'] in (4, 6), r['abscissa_spacing']
        nv = n * ((2 if cx else 1) + (0 if ev else 1))
        r['binary'] = int(binary)
        rest = parts[11]
        if binary:
            q = h[:80]
            f = [q[7:13], q[13:19], q[19:31], q[31:43]]
            try:
                bo, fp, lines, nb = map(int, f)
            except ValueError:
                raise Violation(f'{what}: binary type line {h!r}')
            if bo not in (1, 2) or fp != 2 or lines != 11:
                raise Violation(f'{what}: byte order {bo}, format {fp}, {lines} ASCII lines')
            if nb != len(rest) or nb != nv * (8 if db else 4):
                raise Violation(f'{what}: {nb} bytes announced, {len(rest)} follow, {nv} values of {8 if db else 4} bytes')
            vals = np.frombuffer(rest, ('<' if bo == 1 else '>') + ('f8' if db else 'f4')).astype(float)
        else:
            L = Lines([p.rstrip(b'\r').decode() for p in rest.split(b'\n')][:-1], what + ' values')
            f, per = ([13], 6) if not db else ([20], 4) if ev else ([13] + [20] * (2 if cx else 1), 3 if cx else 4)
            vals = []
            while len(vals) < nv:
                k = min(per, nv - len(vals))
                s = L.next()
                w = [f[(i) % len(f)] for i in range(k)]
                for j, c in enumerate(L.cols(s, w)):
                    try:
                        if len(c) != w[j] or ' ' in c.strip() or c.strip() == '':
                            raise ValueError
                        vals.append(float(c))
                    except ValueError:
                        L.bad(f'real field {c!r}')
            if L.more():
                raise Violation(f'{what}: more values than points')
            vals = np.array(vals)
        v = vals.reshape(n, -1) if n else vals.reshape(0, 1)
        if ev:
            r['x'] = r['abscissa_min'] + np.arange(n) * r['abscissa_inc']
        else:
            if r['abscissa_min'] or r['abscissa_inc']:
                raise Violation(f'{what}: abscissa minimum {r["abscissa_min"]} and increment {r["abscissa_inc"]}, the layout has 0.0 for an uneven abscissa')
            r['x'] = v[:, 0]
            v = v[:, 1:]
        r['data'] = v[:, 0] + 1j * v[:, 1] if cx else v[:, 0]
        return r


T = {c.t: c() for c in (T15, T18, T55, T58, T82, T151, T164, T1858, T2400, T2411, T2412, T2414, T2420, T2429, T2467)}
TYPES = sorted(T)


# ------------------------------------------------------------------ blocks
def split_blocks(data):
    """Blocks of a file written by the library: [(type line, body bytes)].
    A delimiter is a line holding just '-1' in columns 5-6, or, after a binary
    body, those six columns directly behind the announced bytes."""
    out, i, n = [], 0, len(data)

    def line(i):
        j = data.find(b'\n', i)
        return (data[i:], n) if j < 0 else (data[i:j].rstrip(b'\r'), j + 1)

    while i < n:
        s, i = line(i)
        if s.rstrip() != b'    -1':
            raise Violation(f'layout: delimiter line expected, found {s[:60]!r}')
        head, i = line(i)
        body = i
        if head[:6].strip() == b'58' and head[6:7].lower() == b'b':
            for _ in range(11):
                s, i = line(i)
            try:
                nb = int(head[31:43])
            except ValueError:
                raise Violation(f'layout: binary type line {head!r}')
            i += nb
            s, j = line(i)
            if s.rstrip() != b'    -1':
                raise Violation(f'layout: no delimiter behind the {nb} announced bytes (found {s[:20]!r})')
            out.append((head, data[body:i]))
            i = j
            continue
        while True:
            if i >= n:
                raise Violation('layout: set without closing delimiter')
            k = i
            s, i = line(i)
            if s.rstrip() == b'    -1':
                out.append((head, data[body:k]))
                break
    return out


def decode_file(data):
    res = []
    for head, raw in split_blocks(data):
        h = head[:6].decode('ascii', 'replace')
        if not _isint(h) or len(h) != 6:
            raise Violation(f'layout: type line {head!r}')
        t = int(h)
        if t not in T:
            raise Violation(f'layout: unknown type {t}')
        if t == 58:
            r = T[58].decode_block(head, raw)
        else:
            if head[6:].strip():
                raise Violation(f'layout: type line {head!r}')
            body = raw.decode('utf-8')
            lines = [x.rstrip('\r') for x in body.split('\n')]
            if lines and lines[-1] == '':
                lines.pop()
            L = Lines(lines, f'layout of {t}')
            r = T[t].decode(L)
            if L.more():
                raise Violation(f'layout of {t}: records beyond the announced ones: {L.next()!r}')
        r['type'] = t
        res.append(r)
    return res
