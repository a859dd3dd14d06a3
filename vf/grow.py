"""Long sets: the entries of a small one repeated in random order."""
import numpy as np
from .gens import flavour

SIZES = [4095, 4096, 4097, 5000, 8191, 8192, 10000, 10001, 16384, 20000, 32767, 32768, 32769, 40000, 50000, 65535, 65536, 65537, 70000, 100001]
SLOW = [1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097]               # entries that are dictionaries or short lists
LABEL = {15: 'node_nums', 18: 'cs_num', 55: 'node_nums', 2411: 'node_nums', 2420: 'CS_sys_labels'}
MID = [300, 512, 513, 600, 1025]                             # beyond the buffer of a file


def _pick(v, idx):
    if isinstance(v, np.ndarray):
        a = v[idx]
        return a if v.flags.c_contiguous else flavour(a, 'strided')
    v = [v[i].copy() if hasattr(v[i], 'copy') else v[i] for i in idx]
    return v


def grow(d, size, seed, mid=False):
    """d with about SIZES[size] entries (or unchanged, if it has none)."""
    t = d['type']
    rng = np.random.default_rng(seed)
    n = SIZES[size % len(SIZES)]
    m = SLOW[size % len(SLOW)]
    if mid:
        n = m = MID[size % len(MID)]
    if t == 58:
        x, y = np.asarray(d['x']), np.asarray(d['data'])
        if x.dtype.kind in 'iu' and x.dtype.itemsize < 8 or len(x) < 2:
            return d
        idx = rng.integers(0, len(y), n)
        d['data'] = y[idx]
        d['x'] = (x[0] + (x[1] - x[0]) * np.arange(n)).astype(x.dtype) if d.get('abscissa_spacing') else x[idx]
        return d
    if t == 82:
        nodes = rng.integers(0, 10 ** 9, n) * (rng.integers(0, 6, n) > 0)
        d['nodes'] = nodes if seed % 2 else nodes.tolist()
        return d
    if t in (2429, 2467):
        gs = d.get('groups')
        if not gs:
            return d
        if seed % 3 == 0:                                   # many groups
            d['groups'] = [{k: (v.copy() if hasattr(v, 'copy') else v) for k, v in gs[i].items()} for i in rng.integers(0, len(gs), max(300, min(m, 20000 // (1 + sum(len(g['entity_type_code']) for g in gs) // len(gs)))))]
            for i, g in enumerate(d['groups']):
                g['group_number'] = i
            return d
        g = gs[seed % len(gs)]
        k = len(g['entity_type_code'])
        idx = rng.integers(0, max(1, k), n)
        if k:
            for e in [e for e in g if e.startswith('entity_')]:
                g[e] = _pick(g[e], idx)
        return d
    if t == 2412:
        m //= max(1, sum(1 for q, v in d.items() if isinstance(q, int) and v))
        for q, v in list(d.items()):
            if isinstance(v, dict) and len(v.get('element_nums', ())):
                idx = rng.integers(0, len(v['element_nums']), m)
                d[q] = {a: _pick(b, idx) for a, b in v.items()}
                if int(np.asarray(d[q]['fe_descriptor'])[0]) in d:
                    del d[q]                                # 'both': the lists count
            elif isinstance(q, int) and v:
                d[q] = [dict(v[i], element_nums=j + 1) for j, i in enumerate(rng.integers(0, len(v), m))]
        if len(d.get('element_nums', ())):
            idx = rng.integers(0, len(d['element_nums']), m)
            for a, b in list(d.items()):
                if isinstance(b, (list, tuple, np.ndarray)):
                    d[a] = _pick(b, idx)
        return d
    if t == 2414:
        lab = 'element_nums' if d['analysis_type'] != 5 and d['dataset_location'] in (2, 3) else 'node_nums'
        n = n if d['analysis_type'] == 5 else m
    else:
        lab = next((q for q in d if q == LABEL.get(t)), None)
    if lab is None or not len(d[lab]) or t == 2420 and not {'CS_types', 'CS_colors'} <= set(d):
        return d
    k = len(d[lab])
    n = n if t in (15, 55, 2411, 2414) else m
    idx = rng.integers(0, k, n)
    for a, b in list(d.items()):
        if isinstance(b, (list, tuple, np.ndarray)) and len(b) == k:
            d[a] = _pick(b, idx)
    labels = rng.permutation(n) + 1
    d[lab] = labels if isinstance(d[lab], np.ndarray) else labels.tolist()
    return d
