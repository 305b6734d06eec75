"""Seeded generators: one integer seed -> one complete run specification (schedule parameters, faults, operations)."""
import random

INTS = list('bBhHiIlLqQ')
FLT = list('fdg')
SIZES = [65536, 65537, 65535, 70001, 81919, 81920, 81921, 98304, 98305, 100003, 114687, 131071, 131072, 131073, 163841, 65552, 66000]
OFFS = 200000

BIN_ARITH = ['add', 'subtract', 'multiply', 'minimum', 'maximum']
BIN_BIT = ['bitwise_and', 'bitwise_or', 'bitwise_xor']
BIN_SHIFT = ['left_shift', 'right_shift']
BIN_DIV = ['floor_divide', 'remainder', 'true_divide']
BIN_LOG = ['logical_and', 'logical_or', 'logical_xor']
BIN_FLT = ['fmin', 'fmax', 'fmod', 'copysign']
CMP = ['equal', 'not_equal', 'greater', 'greater_equal', 'less', 'less_equal']
UN_ANY = ['abs', 'negative', 'positive', 'square', 'sign', 'logical_not']
UN_FLT = ['floor', 'ceil', 'trunc', 'rint', 'sqrt', 'reciprocal', 'fabs', 'signbit', 'isnan', 'isinf', 'isfinite']
UN_INT = ['invert']
TRIG = {'sin': 'rand', 'cos': 'rand', 'tan': 'rand', 'arcsin': 'unit', 'arccos': 'unit', 'arctan': 'rand', 'sinh': 'unit', 'cosh': 'unit',
        'tanh': 'rand', 'arcsinh': 'rand', 'arccosh': 'gt1', 'arctanh': 'unit', 'cbrt': 'rand', 'exp': 'unit', 'exp2': 'unit', 'expm1': 'unit',
        'log': 'pos', 'log2': 'pos', 'log10': 'pos', 'log1p': 'pos'}
NPREF = set(BIN_ARITH + BIN_BIT + BIN_SHIFT + BIN_DIV + CMP + BIN_LOG + BIN_FLT + UN_ANY + UN_FLT + UN_INT + list(TRIG) + ['power'])


def size(r, big=False, small=0.0):
    if small and r.random() < small:
        return r.choice([1, 2, 17, 1000, 16383, 16384, 16385, 40000])
    if r.random() < 0.6:
        return r.choice(SIZES)
    return r.randrange(65536, 180000 if big else 110000)


def cfg(r, prop, seed):
    c = {'seed': seed, 'mode': r.choices([0, 1, 2], [6, 3, 1])[0], 'p_switch': r.choice([0.002, 0.01, 0.03, 0.1, 0.3, 0.6])}
    if r.random() < 0.5:
        c['p_data'] = r.choice([2e-6, 1e-5, 1e-4, 1e-3])
    if r.random() < 0.5:
        c['p_stall'] = r.choice([0.0005, 0.003, 0.01, 0.05])
    lo, hi = r.choice([(3, 60), (20, 400), (100, 5000), (2000, 60000)])
    c['stall_lo'], c['stall_hi'] = lo, hi
    if r.random() < 0.3:
        c['p_latewake'] = r.choice([0.1, 0.4, 0.9])
    if r.random() < (0.4 if prop in ('C04', 'C14') else 0.15):
        c['p_never'] = r.choice([0.1, 0.4, 0.8, 1.0])
    if r.random() < 0.25:
        c['p_eintr'] = r.choice([0.05, 0.3])
    if r.random() < 0.3:
        c['p_spur'] = r.choice([0.0005, 0.005, 0.05])
    if r.random() < 0.5:
        c['p_wakeorder'] = r.choice([0.3, 1.0])
    if r.random() < 0.3:
        c['p_mainfirst'] = r.choice([0.3, 0.8])
    if c['mode'] == 1:
        c['pct_depth'] = r.choice([1, 2, 3, 5, 8, 15])
        c['pct_horizon'] = r.choice([200, 600, 1500, 4000])
    c['ncpu'] = r.choice([1, 2, 2, 3, 4, 4, 5, 6, 8, 8, 9, 12, 13, 15, 16, 24]) if prop in ('C04', 'C12') else r.choice([2, 3, 4, 5, 6, 8, 8, 8, 9, 12, 15, 16])
    if r.random() < (0.15 if prop in ('C04', 'C12') else 0.04):
        c['aff'] = r.choice([1, 2, 3, 4])
    if prop == 'C04' and r.random() < 0.25 or r.random() < 0.03:
        c['create_fail'] = r.choice([0x7fffffff, 1, 0x55555555, r.getrandbits(15), 0xfffe, 0xfff8])
    return c


def settings(r):
    s = {}
    if r.random() < 0.6:
        s['workers'] = r.choice([1, 1, 2, 3, 3, 4, 4, 5, 7, 8, 11, 12, 14, 15, 100, 0, -3])
    if r.random() < 0.3:
        s['zigzag'] = 1
    return s


def step(r, p=0.3, field=0.0):
    if field and r.random() < field:      # a field of a packed record
        return [r.choice([1, 1, 2, -1]), r.choice([0, 1, 3]), r.choice([0, 1, 2, 3, 4, 5, 8, 13]), r.choice([0, 1, 2, 4, 7])]
    if r.random() < p:
        return [r.choice([2, 3, -1, -2, 5]), r.choice([0, 1, 3])]
    return [1, r.choice([0, 0, 0, 1, 3])]


def ew(r, small=0.05, cheap=False):
    k = r.random()
    op = {'k': 'ew', 'n': size(r, True, small), 'off': r.randrange(OFFS)}
    if k < 0.26:
        f = r.choice(BIN_ARITH)
        dt = r.choice(INTS + FLT + ['f', 'd', 'i', 'q'])
        v = ['nan' if dt in FLT and r.random() < 0.2 else 'rand'] * 2
    elif k < 0.34:
        f, dt = r.choice(BIN_BIT), r.choice(INTS + ['?'])
        v = ['rand'] * 2
    elif k < 0.38:
        f, dt = r.choice(BIN_SHIFT), r.choice(INTS)
        v = ['rand', 'shift']
    elif k < 0.44:
        f, dt = r.choice(BIN_DIV), r.choice(INTS + FLT * 2)
        v = ['rand', 'nz']
        if r.random() < 0.2:
            f, dt = r.choice(BIN_FLT), r.choice(FLT)
    elif k < 0.47:
        f, dt = 'power', r.choice(['i', 'q', 'f', 'd'])
        v = ['small', 'pow']
        if dt in FLT:
            v = ['pos', 'pow']
    elif k < 0.52:
        f, dt = r.choice(BIN_LOG), r.choice(INTS + FLT + ['?'])
        v = ['small'] * 2
    elif k < 0.68:
        f, dt = r.choice(CMP), r.choice(INTS + FLT + ['?'])
        v = [r.choice(['small', 'rand'])] * 2
        if dt in FLT and r.random() < 0.3:
            v = ['nan'] * 2
    elif k < 0.78:
        f, dt = r.choice(UN_ANY), r.choice(INTS + FLT)
        v = ['rand']
        if r.random() < 0.1:
            f, dt = 'logical_not', '?'
        if f == 'negative' and dt == '?':
            dt = 'b'
    elif k < 0.86:
        f, dt = r.choice(UN_FLT), r.choice(FLT)
        v = ['pos' if f == 'sqrt' else 'nan' if r.random() < 0.3 else 'nz']
    elif k < 0.89:
        f, dt = 'invert', r.choice(INTS + ['?'])
        v = ['rand']
    else:
        f = r.choice(sorted(TRIG))
        dt = r.choice(['f', 'd'])
        v = [r.choice([TRIG[f], TRIG[f], 'mixed', 'wide'])]
        op['n'] = r.choice([65536, 65537, 66001, 81925, 98304])
    if dt in FLT and f not in TRIG and f != 'power' and r.random() < 0.2:
        v = [r.choice(['wide', 'mixed', x]) for x in v]
    op['f'], op['dt'], op['v'] = f, dt, v
    nin = len(v)
    op['l'] = [step(r, 0.3, 0.04) for _ in range(nin)]
    if nin == 2 and r.random() < 0.3:
        op['l'][r.randrange(2)] = 's'
    if r.random() < 0.5:
        op['lo'] = step(r, 0.35, 0.04)
    if r.random() < 0.08 and nin == 2 and 's' not in op['l'] and f in BIN_ARITH + CMP and dt in 'bhilfd':
        op['dt2'] = r.choice([x for x in 'bhilfd' if x != dt])
    if nin == 2 and 's' not in op['l'] and 'dt2' not in op and f in BIN_ARITH + CMP + BIN_BIT + BIN_LOG and r.random() < 0.08:
        op['same2'] = 1      # the same array as both operands
    if r.random() < (0.3 if 's' in op['l'] else 0.12):
        op['inplace'] = 2 if op['l'][0] == 's' or nin == 2 and op['l'][1] != 's' and 'dt2' not in op and r.random() < 0.3 else 1
        op.pop('lo', None)
    elif r.random() < 0.06 and 's' not in op['l'] and 'dt2' not in op:
        op['rows'] = r.choice([2, 3])
        op['l'] = [r.choice([[1, 0], [2, 0]]) for _ in range(nin)]
        if nin == 2 and r.random() < 0.5:
            op['l'][r.randrange(2)] = r.choice(['col', 'row'])
        op.pop('same2', None)
        op.pop('lo', None)
    if r.random() < 0.05 and 'inplace' not in op and 'rows' not in op:
        op['where'] = r.choice([1, 2, 40])      # NumPy calls the loop once for every run of chosen elements
        op.pop('lo', None)
    if f in ('isnan', 'isinf', 'isfinite', 'signbit'):
        op.pop('lo', None)      # NumPy 1.26's own loops leave strided outputs unwritten
    if f in NPREF:
        op['npref'] = 1
    if dt in 'bhilq' and f in BIN_ARITH + ['negative', 'square', 'abs'] and not (set(op) & {'inplace', 'rows', 'where'}) and r.random() < 0.04:
        op['outcast'] = r.choice('bhiqfd')
    odd = 'dt2' in op or 'outcast' in op or any(len(x) > 2 for x in op['l'] if x != 's') or len(op.get('lo', ())) > 2
    if r.random() < (0.6 if odd else 0.02):
        op['bufsize'] = r.choice([65536, 65552, 131072, 1 << 20])
    if dt in 'bBhH?' and not odd and not (set(op) & {'rows', 'where', 'lo'}) and all(x == 's' or x[0] in (1, -1) for x in op['l']) and f not in TRIG and r.random() < 0.03:
        op['n'] = r.choice([1 << 20, 1048577, 1500001, 2097153, 4194304, 4194305 + 16384, 5000011])
    if r.random() < 0.05:
        op['atop'] = 0
    return op


RED_I = ['add', 'multiply', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'logical_and', 'logical_or', 'subtract', 'floor_divide']
RED_F = ['add', 'multiply', 'minimum', 'maximum', 'subtract', 'logical_and', 'logical_or', 'true_divide']


def red(r, rep=True):
    op = {'k': 'red', 'n': size(r, True, 0.05), 'off': r.randrange(OFFS)}
    q = r.random()
    if q < 0.45:
        op['dt'], op['f'] = r.choice(INTS), r.choice(RED_I)
    elif q < 0.55:
        op['dt'], op['f'] = '?', r.choice(['logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'add', 'maximum', 'minimum', 'equal', 'not_equal', 'less', 'greater_equal', 'logical_xor'])
    else:
        op['dt'], op['f'] = r.choice(FLT + ['f', 'd']), r.choice(RED_F)
    f = op['f']
    if f in ('multiply', 'true_divide', 'floor_divide'):
        op['v'] = r.choice(['ones', 'sparse'] if op['dt'] not in FLT else ['near1', 'ones'])
        if f == 'floor_divide':
            op['v'] = 'ones'
    elif f in ('logical_and', 'bitwise_and'):
        op['v'] = r.choice(['ones', 'sparse', 'rand'])
    elif f in ('minimum', 'maximum') and op['dt'] in FLT:
        op['v'] = r.choice(['rand', 'nan', 'int', 'sorted', 'rev'])
    elif op['dt'] in FLT:
        op['v'] = r.choice(['rand', 'int', 'int', 'pos'])
    elif op['dt'] == '?':
        op['v'] = r.choice(['rand', 'small', 'ones', 'sparse'])
    else:
        op['v'] = r.choice(['rand', 'rand', 'small', 'sorted', 'rev'])
    op['l'] = step(r, 0.35, 0.05)
    q = r.random()
    if q < 0.12:
        op['rows'], op['axis'] = r.choice([(2, 1), (3, 1), (2, 0), (3, 0)] + ([(2, 'all'), (3, 'T'), (2, '3')] if f not in ('subtract', 'true_divide', 'floor_divide') and not (op['dt'] == '?' and f in CMP) else []))
        op['l'] = [1, 0]
    elif q < 0.27 and op['dt'] != '?':
        op['initial'] = r.choice([0, 1, 3, 7, 100] if op['dt'] not in FLT else [0, 1.5, -7.25, 1000.0])
    elif q < 0.35:
        op['where'] = 1
    elif q < 0.4:
        op['keepdims'] = 1
    elif q < 0.5 and op['dt'] in INTS and f in ('add', 'multiply'):
        op['outdt'] = r.choice(['q', 'd']) if f == 'add' else 'q'
    if r.random() < (0.6 if 'outdt' in op or len(op['l']) > 2 else 0.02):
        op['bufsize'] = r.choice([65536, 65552, 131072, 1 << 20])
    if op['dt'] in 'bBhH?' and not (set(op) & {'rows', 'where', 'outdt'}) and op['l'][0] in (1, -1) and len(op['l']) == 2 and r.random() < 0.03:
        op['n'] = r.choice([1 << 20, 1048577, 1500001, 2097153, 4194304, 4194305 + 16384])
    if rep and r.random() < 0.7:
        op['rep'] = r.choice([1, 2, 4])
    return op


def acc(r):
    q = r.random()
    if q < 0.5:
        op = {'k': 'acc', 'n': size(r, True, 0.05), 'off': r.randrange(OFFS), 'l': step(r, 0.3)}
        dt = r.choice(INTS + FLT)
        f = r.choice(['add', 'add', 'multiply', 'maximum', 'minimum', 'subtract', 'bitwise_xor', 'bitwise_or', 'bitwise_and', 'logical_or', 'logical_and'])
        if dt in FLT and f.startswith('bit'):
            f = 'add'
        if f.startswith('logical'):
            dt = '?'
        op['f'], op['dt'] = f, dt
        op['v'] = {'multiply': 'sparse' if dt not in FLT else 'near1', 'bitwise_and': 'rand', 'logical_and': 'sparse'}.get(f, r.choice(['rand', 'small']))
        if dt in FLT and f != 'multiply':
            op['v'] = r.choice(['int', 'rand'])
        if r.random() < 0.2:
            op['rows'], op['axis'] = r.choice([(2, 1), (2, 0), (3, 0)])
        elif r.random() < 0.2:
            op['inplace'] = 1
            op['l'] = [1, 0]
        return op
    if q < 0.62:
        n = size(r, True)
        idx = sorted(r.sample(range(n), r.choice([1, 2, 5])))
        if r.random() < 0.5:
            idx[0] = 0
        dt = r.choice(['i', 'q', 'b', 'd', 'f', 'H'])
        f = r.choice(['add', 'maximum', 'minimum'] + (['bitwise_xor', 'multiply'] if dt in INTS else []))
        return {'k': 'reduceat', 'f': f, 'dt': dt, 'n': n, 'v': r.choice(['rand', 'small']), 'off': r.randrange(OFFS), 'l': step(r, 0.3), 'idx': idx}
    if q < 0.7:
        dt = r.choice(INTS + FLT)
        f = r.choice(['add', 'add', 'subtract', 'multiply', 'maximum', 'minimum'] + (BIN_BIT if dt in INTS else []))
        return {'k': 'at', 'f': f, 'dt': dt, 'n': r.choice([65536, 65537, 70001]), 'm': r.choice([1, 7, 1000, 70000]), 'v': 'small' if f != 'multiply' else 'ones', 'off': r.randrange(OFFS), 'l': step(r, 0.3), 'it': r.choice('qiB') if r.random() < 0.3 else 'q', 'scalar': int(r.random() < 0.2)}
    dt = r.choice(INTS + FLT)
    f = r.choice(BIN_ARITH + ['negative', 'abs', 'square'] + (BIN_BIT if dt in INTS else []) + (CMP if False else []))
    n = size(r, True, 0.03)
    k = r.choice([1, 2, 3, 7, 8, 31, 16384, 16385, 1000, n // 2, 65536]) * r.choice([1, -1])
    op = {'k': 'overlap', 'f': f, 'dt': dt, 'n': n, 'shift': k, 'v': r.choice(['rand', 'small']), 'off': r.randrange(OFFS), 'which': r.randrange(2), 'npref': 1}
    if r.random() < 0.15:
        op['rev'] = 1
    if r.random() < 0.15:
        op['shift'] = 0
    return op


STR = ['S1', 'S3', 'S7', 'S10', 'S16', 'S24', 'U1', 'U4', 'U9']


def sortsize(r):
    if r.random() < 0.015:
        return r.choice([262144, 262145, 300007, 524288, 700001])
    q = r.random()
    if q < 0.06:
        return r.choice([1, 2, 3, 16, 17, 300, 5000, 20000])
    return r.choice([65536, 65537, 65543, 66000, 70001, 81920, 100003, 131072, 65600]) if q < 0.8 else r.randrange(65536, 140000)


def sort(r):
    q = r.random()
    dt = r.choice(INTS + ['?'] + FLT * 2) if q < 0.8 else r.choice(STR)
    n = sortsize(r)
    op = {'k': 'sort', 'dt': dt, 'n': n, 'off': r.randrange(OFFS), 'l': step(r, 0.25, 0.05), 'api': r.choice(['np.sort', 'pn.sort', '_pn.sort', 'method']), 'kind': r.choice([None, 'quicksort', 'mergesort', 'stable', 'heapsort'])}
    op['v'] = r.choice(['rand', 'rand', 'small', 'sorted', 'rev', 'ones'] + (['nan', 'nan'] if dt in FLT else []))
    if dt in STR:
        op['v'] = r.choice(['rand', 'small', 'short', 'prefix', 'high', 'sorted', 'rev'])
        op['n'] = min(n, 70001)
    if op['api'] in ('np.sort', 'pn.sort', '_pn.sort') and dt not in ('b', 'B', '?', 'g', 'S1') and r.random() < 0.07:
        op['swap'] = 1
    if op['api'] != '_pn.sort' and r.random() < 0.1 and dt not in STR:
        op['rows'], op['axis'] = r.choice([(2, 1), (2, 0), (3, 0)])
        op['l'] = [1, 0]
    if op['kind'] == 'heapsort' and dt in STR:
        op['n'] = min(n, 66000)
    if op['api'] in ('np.sort', 'pn.sort') and r.random() < 0.08:
        op['axis'] = None          # the flattened array
    elif op['api'] in ('np.sort', 'pn.sort') and r.random() < 0.05 and 'rows' not in op and dt not in STR:
        op['order'] = r.choice([['k'], 'k', ['k', 'i'], ['i'], ['i', 'k']])
        op['n'] = r.choice([300, 5000, 20000, 66000])
    return op


def argsort(r):
    q = r.random()
    if q < 0.55:
        dt = r.choice(INTS + ['?'] + FLT * 2) if r.random() < 0.85 else r.choice(STR)
        op = {'k': 'argsort', 'dt': dt, 'n': sortsize(r), 'off': r.randrange(OFFS), 'l': step(r, 0.25, 0.05), 'api': r.choice(['np.argsort', 'pn.argsort', 'method']), 'kind': r.choice([None, 'quicksort', 'mergesort', 'stable', 'stable', 'heapsort'])}
        op['v'] = r.choice(['rand', 'small', 'small', 'sorted', 'rev', 'ones'] + (['nan', 'nan'] if dt in FLT else []))
        if dt in STR:
            op['v'] = r.choice(['rand', 'small', 'short', 'prefix', 'high'])
            op['n'] = min(op['n'], 70001)
        if dt not in ('b', 'B', '?', 'g', 'S1') and r.random() < 0.05:
            op['swap'] = 1
        if r.random() < 0.08 and dt not in STR:
            op['rows'], op['axis'] = r.choice([(2, 1), (2, 0)])
            op['l'] = [1, 0]
        if r.random() < 0.06:
            op['axis'] = None
        return op
    nk = r.choice([1, 1, 2, 2, 3, 4])
    keys = []
    for _ in range(nk):
        dt = r.choice(INTS + FLT + ['?', 'f', 'd', 'S3', 'S10', 'U4'])
        v = r.choice(['small', 'small', 'rand'] + (['nan'] if dt in FLT else []))
        if dt in STR:
            v = r.choice(['small', 'short', 'rand', 'prefix'])
        keys.append([dt, v] + ([step(r, 0.8, 0.3)] if r.random() < 0.2 else []))
    n = sortsize(r) if r.random() < 0.8 else r.choice([100, 1000, 5000])
    if any(k[0] in STR for k in keys):
        n = min(n, 70001)
    if r.random() < 0.04:      # left to NumPy
        keys[r.randrange(nk)][:2] = [r.choice(['M8[s]', 'm8[ns]', 'e', 'F', 'D', '>i4', '>d', '>U3']), 'small']
        return {'k': 'lexsort', 'n': min(n, 70001), 'keys': keys, 'off': r.randrange(OFFS), 'api': 'pn.lexsort', 'va': 0}
    op = {'k': 'lexsort', 'n': n, 'keys': keys, 'off': r.randrange(OFFS), 'api': r.choice(['lexsort32', 'lexsort64', 'pn.lexsort']), 'va': r.randrange(2)}
    q = r.random()
    if q < 0.4 and n > 10:
        cuts = sorted(r.sample(range(1, n), min(n - 1, r.choice([1, 2, 3, 7, 20, 60]))))
        if r.random() < 0.25:
            cuts.append(cuts[-1])    # an empty segment
        if r.random() < 0.1:
            cuts = [0] + cuts
        op['cuts'] = sorted(cuts) + [n]
        if op['api'] == 'pn.lexsort':
            op['api'] = 'lexsort64'
    elif q < 0.55 and op['api'] != 'pn.lexsort':
        op['index'] = r.choice(['rev', 'id', 'part', 'twice'])
    elif q < 0.7 and nk == 1:
        op['bare'] = 1
    if op['api'] != 'pn.lexsort' and r.random() < 0.25:
        op['kind'] = r.choice(['stable', 'mergesort']) if nk > 1 else r.choice(['quicksort', 'heapsort', 'stable', 'mergesort'])
    return op


VDT = INTS + FLT + ['?', 'F', 'D', 'S3', 'S5', 'S8', 'S16', 'S24', 'U1', 'U3', 'U9', 'V12', 'V20', 'V100', 'M8[s]', 'm8[ns]', 'e', 'G', '>i4', '>d', '>U3', '>M8[s]', '>H']


def bmask(r):
    n = r.choice([65536, 65537, 70001, 81920, 100003, 131072, 65544, 65541]) if r.random() < 0.85 else r.choice([1, 5, 8, 100, 1000, 16384, 40000])
    op = {'k': 'bmask', 'n': n, 'dt': r.choice(VDT), 'v': 'rand', 'off': r.randrange(OFFS), 'l': step(r, 0.3, 0.12), 'ml': step(r, 0.15, 0.03), 'density': r.choice(['rand', 'rand', 'all', 'none', 'one', 'last', 'tail', 'head', 'blocks', 'sparse']), 'api': r.choice(['getitem', 'getitem', 'hook'])}
    if r.random() < 0.06:
        op['rows'] = r.choice([2, 4])
        op['l'] = [1, 0]
        if r.random() < 0.3:
            op['fortran'] = 1
    elif op['api'] == 'hook' and r.random() < 0.25:
        op['shape'] = r.choice(['col', 'wide', 'swapped', 'subclass', 'zerod'])
    elif r.random() < 0.03 and len(op['l']) == 2 and op['l'][0] in (1, -1):
        op['n'], op['dt'] = r.choice([1 << 20, 1048583, 2097155, 4194305]), r.choice('bhBi')
    elif r.random() < 0.04:
        op['dt'] = 'O'
        op['l'] = [r.choice([1, 1, 2, -1, -3]), 0]
    return op


def fancy(r):
    it = r.choice(INTS)
    m = r.choice([50, 120, 127, 128, 200, 255, 256, 1000, 5000, 40000, 70000])
    n = r.choice([65536, 65537, 70001, 81920, 98305]) if r.random() < 0.85 else r.choice([1, 5, 100, 16384])
    op = {'k': 'fancy', 'n': n, 'm': m, 'dt': r.choice(VDT), 'v': 'rand', 'it': it, 'off': r.randrange(OFFS), 'l': step(r, 0.3, 0.12), 'il': step(r, 0.2, 0.08), 'api': r.choice(['getitem', 'getitem', 'getitem', 'hook']), 'neg': r.randrange(2)}
    if r.random() < 0.02:
        op['n'], op['dt'] = r.choice([1 << 20, 1048583, 2097155]), r.choice('bhBi')
    if op['api'] == 'getitem' and r.random() < 0.35:
        op['oob'] = 1
        if r.random() < 0.5:
            op['default'] = r.choice([0, 1, 77, 100])
            op['npdef'] = r.randrange(2)
    return op


def arange(r):
    dt = r.choice(['b', 'h', 'i', 'l', 'q', 'B', 'H', 'I', 'L', 'Q', 'f', 'd', 'f', 'd', 'g', 'M8[s]', 'm8[s]'])
    n = size(r, True, 0.05)
    if r.random() < 0.03:
        n = r.choice([1 << 20, 1048577, 3000001])
    if r.random() < 0.04:      # left to NumPy
        return {'k': 'arange', 'dt': r.choice('eFD'), 'n': min(n, 70000), 'start': r.choice([0, 1, 2]), 'step': r.choice([1, 2]), 'py': 1}
    if dt in 'bB':
        return {'k': 'arange', 'dt': r.choice('iqld'), 'n': n, 'start': r.randrange(-1000, 1000), 'step': r.choice([1, 2, -3, 7])}
    if dt in 'hH':
        dt = {'h': 'i', 'H': 'I'}[dt]
    if dt in ('f', 'd', 'g'):
        start = r.choice([0.0, 0.1, 1.0, -3.7, 1e6, 16777216.0, 1e-3, 123456.789])
        st = r.choice([0.1, 1.0, 0.3, 1e-3, 3.3333333, -0.7, 2.0, 1.0 / 3, 0.1234567])
        if r.random() < 0.4:      # magnitudes far apart: start + (next - start) need not be next
            start, st = r.gauss(0, 1) * 10.0 ** r.randrange(-8, 8), r.gauss(0, 1) * 10.0 ** r.randrange(-8, 8)
            return {'k': 'arange', 'dt': dt, 'n': n, 'start': start, 'step': st, 'py': 1}
        if dt == 'f' and r.random() < 0.1:     # the step overflows
            return {'k': 'arange', 'dt': dt, 'n': n, 'start': r.choice([0.0, 1.5, -2e5]), 'step': r.choice([1e39, -1e39]), 'py': 1}
        return {'k': 'arange', 'dt': dt, 'n': n, 'start': start, 'step': st}
    if dt in 'ILQ':
        return {'k': 'arange', 'dt': dt, 'n': n, 'start': r.randrange(0, 10000), 'step': r.choice([1, 2, 3, 1000])}
    return {'k': 'arange', 'dt': dt, 'n': n, 'start': r.choice([0, 1, -5, 100000, -70000]), 'step': r.choice([1, 2, -1, 3, 1000, -77])}


def fsize(f):
    t = f[1]
    b = {'?': 1, 'M8[s]': 8}.get(t) or int(t[1:]) * (4 if t[0] == 'U' else 1)
    return b * (f[2][0] if len(f) == 3 else 1)


def rec(r):
    n = r.choice([16385, 16386, 16400, 20000, 32768, 32769, 40000, 49152, 49153]) if r.random() < 0.8 else r.choice([0, 1, 2, 100, 1000, 16383, 16384])
    nf = r.choice([1, 2, 3, 5, 8, 20])
    flds = []
    for i in range(nf):
        t = r.choice(['i1', 'i2', 'i4', 'i8', 'u1', 'u4', 'f4', 'f8', '?', 'S3', 'S7', 'S16', 'U2', 'U5', 'M8[s]', 'c16', 'f2'])
        flds.append(['f%d' % i, t])
        if r.random() < 0.06:
            flds[-1].append([r.choice([2, 3])])
    op = {'k': 'rec', 'n': n, 'fields': flds, 'off': r.randrange(OFFS), 'l': [1, 0] if r.random() < 0.7 else step(r, 0.9), 'align': r.randrange(2), 'parallel': r.random() < 0.85}
    if r.random() < 0.2:
        sizes = [fsize(f) for f in flds]
        o, offs = r.randrange(4), []
        for s in sizes:
            offs.append(o)
            o += s + r.choice([0, 0, 1, 5])
        if r.random() < 0.3 and nf > 1:
            offs[1] = offs[0]    # overlapping fields
            o = max(a + s for a, s in zip(offs, sizes)) + 3
        op['offsets'], op['itemsize'] = offs, o + r.randrange(9)
        op['align'] = 0
    if r.random() < 0.1 and n > 10:
        op['rows'] = r.choice([2, 3])
    return op


FPE = [('true_divide', ['rand', 'nz'], [1.0, 0.0]), ('true_divide', ['rand', 'nz'], [0.0, 0.0]), ('multiply', ['unit', 'unit'], [1e300, 1e300]),
       ('add', ['unit', 'unit'], [float('inf'), float('-inf')]), ('sqrt', ['pos'], [-1.0]), ('log', ['pos'], [-1.0]), ('log', ['pos'], [0.0]),
       ('subtract', ['unit', 'unit'], [float('inf'), float('inf')]), ('reciprocal', ['nz'], [0.0]), ('multiply', ['unit', 'unit'], [1e-300, 1e-300]), ('square', ['unit'], [1e300]),
       ('sqrt', ['pos'], None), ('add', ['rand', 'rand'], None), ('multiply', ['unit', 'unit'], None), ('floor_divide', ['rand', 'nz'], [1.0, 0.0]), ('remainder', ['rand', 'nz'], [1.0, 0.0]),
       ('log10', ['pos'], [-1.0]), ('arcsin', ['unit'], [3.0]), ('exp', ['unit'], [1e5])]


def fperr(r):
    if r.random() < 0.5:
        return fpany(r)
    f, v, bad = r.choice(FPE)
    n = r.choice([65536, 65537, 70001, 98304, 131072])
    op = {'k': 'fperr', 'f': f, 'dt': r.choice(['d', 'd', 'f']) if bad is None or all(abs(x) < 1e30 or x in (float('inf'), float('-inf')) for x in bad) else 'd', 'n': n, 'v': v, 'bad': [repr(x) for x in bad] if bad else None,
          'pos': r.choice([0, 5, 16383, 16384, 20000, 40000, n - 1, n - 2, r.randrange(n)]), 'off': r.randrange(OFFS), 'l': step(r, 0.2)}
    if f == 'add' and r.random() < 0.3:      # grouping cannot matter for these
        op['reduce'] = 1
    return op


SPEC = ['nan', 'inf', '-inf', '0', '-0.0', '1', '-1', '2.5', 'max', '-max', 'tiny', 'sub', '1e30', '-1e30', '88.8', '710.0', '0.5']


def fpany(r):
    """any ufunc over quiet values with a few unusual ones: the same conditions whoever met them"""
    q = r.random()
    if q < 0.15:
        f, dt = r.choice(['floor_divide', 'remainder', 'fmod', 'left_shift', 'negative', 'abs', 'add', 'multiply', 'true_divide']), r.choice(INTS)
    elif q < 0.5:
        f, dt = r.choice(BIN_ARITH + BIN_DIV + BIN_FLT + CMP + BIN_LOG + ['power', 'arctan2', 'hypot']), r.choice('fd')
    else:
        f, dt = r.choice(UN_ANY + UN_FLT + sorted(TRIG)), r.choice('fd')
    n = r.choice([65536, 65537, 70001, 98304, 81921])
    two = f in BIN_ARITH + BIN_DIV + BIN_FLT + CMP + BIN_LOG + ['power', 'arctan2', 'hypot', 'left_shift']
    v = ['gt1' if f == 'arccosh' else 'unit' if f in ('arcsin', 'arccos', 'arctanh', 'exp', 'exp2', 'expm1', 'sinh', 'cosh') else 'near1'] * (2 if two else 1) if dt in 'fd' else ['small', 'ones']
    sp = SPEC if dt in 'fd' else ['0', '1', '-1', 'max', 'min']
    bad = [[r.choice([0, 5, 16383, 16384, 20000, 40000, n - 1, n - 2, r.randrange(n)]), r.choice(sp), r.choice(sp)] for _ in range(r.choice([0, 1, 1, 2, 4]))]
    return {'k': 'fpany', 'f': f, 'dt': dt, 'n': n, 'v': v[:2 if two else 1], 'bad': bad, 'off': r.randrange(OFFS), 'l': step(r, 0.2), 'mode': r.choice(['call', 'call', 'raise'])}


def argm(r):
    if r.random() < 0.15:
        return {'k': 'search', 'dt': r.choice(INTS + FLT), 'n': size(r), 'm': r.choice([1, 100, 16385, 70001]), 'v': r.choice(['rand', 'small']), 'off': r.randrange(OFFS), 'l': step(r, 0.3), 'side': r.choice(['left', 'right']), 'sorter': r.randrange(2)}
    dt = r.choice(INTS + FLT * 2 + ['?', 'e', 'M8[s]', 'S3'])
    op = {'k': 'argm', 'f': r.choice(['argmin', 'argmax']), 'api': r.choice(['np', 'np', 'pn', 'method']), 'dt': dt, 'n': size(r, True, 0.1), 'off': r.randrange(OFFS), 'l': step(r, 0.35)}
    op['v'] = r.choice(['rand', 'small', 'sorted', 'rev', 'ones'] + (['nan', 'wide'] if dt in FLT else []))
    if dt == 'S3':
        op['v'] = r.choice(['rand', 'small', 'short'])
    if r.random() < 0.15 and dt != 'S3':
        op['rows'], op['axis'] = r.choice([(2, 1), (2, 0), (3, 0)])
        op['l'] = [1, 0]
    if r.random() < 0.2:
        op['keepdims'] = 1
    return op


ALLK = [ew, ew, red, acc, sort, argsort, bmask, fancy, arange, rec, argm]


def mixed(r):
    return r.choice(ALLK)(r)


def seq(r, kinds, lo=2, hi=6, idle=0.5, same=0.3):
    ops = []
    prev = None
    for _ in range(r.randint(lo, hi)):
        if prev is not None and r.random() < same:
            op = dict(prev)
            op['off'] = r.randrange(OFFS)
        else:
            op = r.choice(kinds)(r)
        prev = op
        op = dict(op)
        if r.random() < idle:
            op['idle'] = r.choice([3, 30, 300])
        ops.append(op)
        q = r.random()
        if q < 0.1:
            ops.append({'k': 'ev', 'spur': r.choice([1, 3, 20])})
        elif q < 0.18:
            ops.append({'k': 'ev', 'release': 1, 'idle': r.choice([0, 5, 50])})
        elif q < 0.26:
            ops.append({'k': 'set', 'workers': r.choice([1, 2, 3, 4, 7, 8, 11, 15])})
    return ops


HISTK = ['add8', 'sub8', 'max8', 'and8', 'lt8', 'neg8', 'sum8', 'maxr8', 'abs8', 'mul8', 'bool8', 'get8', 'ar16', 'sort8', 'rec']
CC_BIN = [('add', 'f'), ('add', 'd'), ('subtract', 'i'), ('multiply', 'q'), ('maximum', 'd'), ('bitwise_xor', 'q'), ('less', 'd'), ('equal', 'i'), ('bitwise_and', 'b')]
CC_RED = [('add', 'q'), ('add', 'd'), ('maximum', 'i'), ('minimum', 'd'), ('bitwise_or', 'q'), ('bitwise_xor', 'q'), ('multiply', 'q')]


def ccall(r, small=False):
    q = r.random()
    n = r.choice([65536, 65537, 66000] if small else [65536, 65537, 70001, 81920, 98304, 131072])
    off = r.randrange(OFFS // 2)
    if q < 0.45:
        f, dt = r.choice(CC_BIN)
        return {'kind': 'bin', 'f': f, 'dt': dt, 'n': n, 'off': off}
    if q < 0.6:
        f, dt = r.choice([('negative', 'd'), ('abs', 'i'), ('sqrt', 'd'), ('sin', 'd'), ('invert', 'q')])
        return {'kind': 'un', 'f': f, 'dt': dt, 'n': n, 'off': off, 'v': 'pos' if f == 'sqrt' else 'rand'}
    if q < 0.78:
        f, dt = r.choice(CC_RED)
        return {'kind': 'red', 'f': f, 'dt': dt, 'n': n, 'off': off, 'v': 'sparse' if f == 'multiply' else 'rand'}
    if q < 0.88:
        return {'kind': 'sort', 'dt': r.choice('idqf'), 'n': r.choice([65536, 66000, 70001]), 'off': off, 'stable': r.randrange(2), 'v': r.choice(['rand', 'small'])}
    if q < 0.95:
        return {'kind': 'argsort', 'dt': r.choice('idqf'), 'n': r.choice([65536, 66000, 70001]), 'off': off, 'v': r.choice(['rand', 'small'])}
    if q < 0.965:
        return {'kind': 'argm', 'f': r.choice(['argmin', 'argmax']), 'dt': r.choice('bihqfd'), 'n': n, 'off': off, 'v': r.choice(['rand', 'small'])}
    return {'kind': 'fill', 'dt': r.choice('iqd'), 'n': n, 'off': off, 'start': r.randrange(100), 'step': r.choice([1, 3, 7])}


def mainop(r):
    k = r.choice([ew, ew, red, sort, argsort, bmask, bmask, fancy, arange, rec, acc, argm])
    op = k(r)
    if k is red:
        op.pop('rep', None)
    if op.get('inplace'):
        op.pop('inplace')
    return op


def conc(r):
    ncl = r.choice([1, 1, 2, 2, 3])
    op = {'k': 'conc', 'clients': [[ccall(r) for _ in range(r.choice([1, 1, 2, 4]))] for _ in range(ncl)], 'main': [mainop(r) for _ in range(r.choice([0, 1, 1, 2, 3]))], 'idle': r.choice([0, 30, 200])}
    return op


SWITCH = [('thread_disable', []), ('thread_enable', []), ('atop_disable', []), ('atop_enable', []), ('ledger_enable', []), ('ledger_disable', []),
          ('recycler_enable', []), ('recycler_disable', []), ('thread_zigzag', [])]


def switchcall(r):
    if r.random() < 0.4:
        return {'kind': 'switch', 'dt': 'b', 'n': 0, 'off': 0, 'f': 'thread_setworkers', 'args': [r.choice([-1, 0, 1, 2, 3, 4, 7, 8, 11, 15, 99])]}
    f, a = r.choice(SWITCH)
    return {'kind': 'switch', 'dt': 'b', 'n': 0, 'off': 0, 'f': f, 'args': a}


def fname(r):
    return [r.choice(['add', 'subtract', 'multiply', 'less', 'negative', 'sin', 'maximum', 'sqrt']), r.choice([7, 9, 11, 12]), r.choice([0, 1, 2, 3, 4, 8, 15, 63, 64, -1, 1000])]


def acts(r):
    out = []
    for _ in range(r.randint(3, 12)):
        q = r.random()
        if q < 0.3:
            out.append([r.choice(['atop', 'thread', 'ledger', 'recycler']), r.randrange(2)])
        elif q < 0.55:
            out.append(['workers', r.choice([-5, 0, 1, 2, 3, 4, 5, 7, 8, 11, 14, 15, 16, 100, 2 ** 31 - 1])])
        elif q < 0.75:
            out.append(['fw'] + fname(r))
        elif q < 0.83:
            out.append(['zigzag'])
        elif q < 0.91:
            out.append(['hook', r.randrange(2)])
        else:
            out.append([r.choice(['enable', 'disable'])])
    return out


def gen(prop, seed):
    r = random.Random('%s/%d' % (prop, seed))
    s = {'prop': prop, 'seed': seed, 'cfg': cfg(r, prop, seed), 'set': settings(r)}
    if r.random() < 0.1:
        s['set']['fw'] = [[r.choice(['add', 'maximum', 'less', 'negative', 'subtract']), r.choice([1, 5, 7, 11, 12]), r.choice([0, 1, 2, 3, 7, 15, 40])] for _ in range(3)]
    G = globals().get('gen_' + prop)
    s['ops'] = G(r, s)
    return s


def gen_C01(r, s):
    return seq(r, [ew], 2, 6, 0.3)


def gen_C02(r, s):
    return seq(r, [red], 2, 5, 0.3)


def gen_C03(r, s):
    c = s['cfg']
    c['p_stall'] = c.get('p_stall') or r.choice([0.003, 0.01, 0.05])
    if r.random() < 0.7:
        c['p_mainfirst'] = r.choice([0.5, 0.9])
    return seq(r, [ew, ew, red, sort, argsort, bmask, fancy, arange, rec], 2, 8, 0.95, 0.2)


def gen_C04(r, s):
    ops = seq(r, [mixed], 2, 7, 0.2)
    if r.random() < 0.3:
        ops.insert(r.randrange(len(ops)), {'k': 'set', 'zigzag': 1, 'workers': r.choice([0, 1, 5, 15])})
    return ops


def gen_C05(r, s):
    return seq(r, [sort], 1, 3, 0.3)


def gen_C06(r, s):
    return seq(r, [argsort], 1, 3, 0.3)


def gen_C07(r, s):
    if r.random() < 0.4:
        cl = [[switchcall(r) if r.random() < 0.5 else ccall(r, True) for _ in range(r.choice([1, 2, 4, 6]))] for _ in range(r.choice([1, 2]))]
        return [{'k': 'concsw', 'clients': cl, 'main': [dict(bmask(r), api='getitem') for _ in range(r.choice([1, 2]))], 'idle': r.choice([0, 30])}]
    return seq(r, [bmask], 1, 5, 0.3)


def gen_C08(r, s):
    return seq(r, [fancy], 1, 5, 0.3)


def gen_C09(r, s):
    return seq(r, [arange], 2, 6, 0.3)


def gen_C10(r, s):
    ops = seq(r, [rec], 1, 4, 0.3)
    if r.random() < 0.3:
        for o in ops:
            if o['k'] == 'rec':
                o['fail'] = 1
        s['cfg']['p_mallocfail'] = r.choice([0.2, 0.5, 1.0])
    return ops


def gen_C11(r, s):
    q = r.random()
    if q < 0.06:
        # one long operation while the others go through more than a whole queue of short ones
        s['cfg'].update(p_stall=0.002, stall_lo=200000, stall_hi=900000, p_never=0, mode=0, p_switch=r.choice([0.0005, 0.002, 0.01]), ncpu=r.choice([2, 3, 4, 5, 6]), step_cap=60000000)
        s['cfg'].pop('p_data', None)
        s['cfg'].pop('p_spur', None)
        big = {'kind': 'bin', 'f': 'bitwise_and', 'dt': 'b', 'n': 65536, 'off': r.randrange(1000)}
        return [{'k': 'conc', 'clients': [[ccall(r) for _ in range(2)], [dict(big, off=i % 50) for i in range(1060)]], 'main': [], 'idle': 0}]
    return [conc(r) for _ in range(r.choice([1, 1, 2]))]


def gen_C12(r, s):
    q = r.random()
    if q < 0.3:
        s['cfg']['create_fail'] = 0
        s['set'] = {}
        return [{'k': 'settings', 'acts': acts(r)} for _ in range(2)] + seq(r, [mixed], 1, 2)
    ops = []
    for _ in range(r.choice([1, 2])):
        cl = [[switchcall(r) for _ in range(r.choice([2, 5, 12]))] for _ in range(r.choice([1, 2]))]
        if r.random() < 0.4:
            cl.append([ccall(r, True) for _ in range(2)])
        noatop = all(x['f'] not in ('atop_disable', 'atop_enable') for l in cl for x in l if x['kind'] == 'switch')
        main = []
        for _ in range(r.choice([1, 2, 3])):
            m = mainop(r)
            if m['k'] == 'red' and m['dt'] in FLT:
                m = bmask(r) if r.random() < 0.5 else sort(r)
            main.append(m)
        ops.append({'k': 'concsw', 'clients': cl, 'main': main, 'idle': r.choice([0, 30])})
    return ops


def gen_C13(r, s):
    if r.random() < 0.03:
        s['cfg'].update(p_mallocfail=1.0, p_stall=0, p_switch=0.002, mode=0)
        s['cfg'].pop('p_data', None)
        ops = []
        for _ in range(r.choice([1, 2])):
            o = r.choice([sort, argsort, red, rec, fancy, bmask])(r)
            o['n'], o['fail'] = 65536 if o['k'] != 'rec' else 16385, 1
            if o['k'] in ('fancy', 'bmask'):
                o['dt'], o['l'], o['m'] = r.choice('bhid'), [1, 0], 100
            for x in ('rep', 'shape', 'bare', 'rows', 'axis', 'bufsize', 'inplace', 'swap', 'idle', 'oob', 'default', 'fortran'):
                o.pop(x, None)
            if o['k'] == 'lexsort':
                o.pop('cuts', None)
                o['keys'] = [['i', 'small']]
            elif o['k'] in ('sort', 'argsort'):
                o['dt'], o['v'], o['kind'] = r.choice('bBhi'), r.choice(['small', 'sorted', 'ones']), r.choice(['stable', None])
                o['l'] = [1, 0]
            ops.append(o)
        return [{'k': 'leak', 'ops': ops, 'count': 1030, 'off': r.randrange(OFFS)}]
    s['cfg']['p_mallocfail'] = r.choice([0.05, 0.2, 0.5, 1.0])
    if r.random() < 0.3:
        s['cfg']['p_npfail'] = r.choice([0.05, 0.3])
    ops = seq(r, [sort, sort, argsort, argsort, red, rec, bmask, fancy, ew, acc], 1, 4, 0.2)
    for o in ops:
        if o['k'] not in ('ev', 'set'):
            o['fail'] = 1
            o.pop('rep', None)
            o.pop('inplace', None)
    ops += seq(r, [mixed], 1, 2, 0.2)
    return ops


def gen_C14(r, s):
    c = s['cfg']
    c['p_stall'] = r.choice([0.001, 0.005, 0.02])
    c['stall_lo'], c['stall_hi'] = r.choice([(100, 5000), (2000, 60000), (50000, 400000), (200000, 1000000)])
    mix = r.sample(HISTK, r.choice([2, 4, 8, 15]))
    cnt = r.choice([40, 150, 400, 1100, 1100, 2100])
    ops = [{'k': 'hist', 'count': cnt, 'mix': mix, 'off': r.randrange(1 << 20), 'idle': r.choice([0, 0, 5])}]
    if r.random() < 0.3:
        ops[0]['churn'] = r.choice([5, 17, 100])
    ops += seq(r, [mixed], 1, 3, 0.3)
    if r.random() < 0.5:
        ops.insert(1, {'k': 'ev', 'release': 1})
    return ops


def gen_C15(r, s):
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < 0.5:
            ops.append({'k': 'ledger', 'op': mainop(r)})
        else:
            ncl = r.choice([1, 2, 3])
            final = r.randrange(2)
            start = 1 - final
            sw = {'kind': 'switch', 'dt': 'b', 'n': 0, 'off': 0, 'f': 'ledger_enable' if final else 'ledger_disable', 'args': []}
            cl = [[ccall(r, True) for _ in range(r.choice([1, 2]))] for _ in range(ncl - 1)]
            seqn = [sw]
            if r.random() < 0.4:
                a = dict(sw, f='ledger_disable' if final else 'ledger_enable')
                seqn = [sw, a, sw]
            cl.append(seqn)
            main = []
            for _ in range(r.choice([1, 2])):
                main.append(mainop(r))
            ops.append({'k': 'ledgerconc', 'start': start, 'final': final, 'clients': cl, 'main': main})
    return ops


def gen_C16(r, s):
    return seq(r, [acc], 2, 5, 0.3)


def gen_C17(r, s):
    return seq(r, [fperr], 2, 6, 0.2)


def gen_C18(r, s):
    ops = seq(r, [mixed], 1, 3, 0.3)
    child = seq(r, [mixed], 1, 4, 0.0)
    child = [c for c in child if c['k'] != 'ev']
    for c in child:
        c.pop('idle', None)
    ops.append({'k': 'fork', 'child': child})
    if r.random() < 0.3:
        ops[-1]['clients'] = [[ccall(r, True) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([1, 2]))]
        ops[-1]['lead'] = r.choice([0, 1, 3, 10, 40, 200])
    ops += seq(r, [mixed], 1, 2, 0.2)
    return ops


def host(r):
    ok = r.random() < 0.15
    pick = lambda good, *bad: good if ok else r.choice([good] + list(bad))
    n = r.choice([1, 2, 3])
    utc = []
    t = r.choice([0, 1600000000, 2147483646, 4294967294, -86400, 4102444800])
    for _ in range(r.randint(1, 5)):
        utc.append(t)
        t += r.choice([0, 1, 3600, -3600, -1, 10 ** 8, -10 ** 8])
    return {'k': 'host', 'rs': r.randrange(1 << 30), 'cores': r.choice([1, 2, 4, 6, 10, 16]), 'smt': r.choice([1, 2, 2, 4]), 'sockets': r.choice([1, 1, 2, 4]),
            'topo': pick('both', 'new', 'old', 'none'), 'vanish': pick(0, 0.1, 0.5, 1.0), 'info': pick('ok', 'missing', 'eacces', 'eio', 'trunc', 'noid'),
            'stat': pick('ok', 'missing', 'eacces', 'eio', 'trunc'), 'sysconf': pick('ok', 'valueerror', 'oserror'), 'chunk': r.choice([1, 3, 17, 64, 512, 65536]), 'utc': utc}


def bench(r):
    f = r.choice(['add', 'equal', 'multiply', 'abs', 'sqrt', 'negative'])
    return {'k': 'bench', 'f': f, 'n': r.choice([65536, 65537, 1000]), 'types': r.choice([['int32'], ['float64'], ['int8', 'float32']]) if f != 'sqrt' else ['float64'], 'atop0': r.randrange(2), 'thread0': r.randrange(2),
            'atop': r.randrange(2), 'thread': r.randrange(2), 'recycle': r.randrange(2), 'boom': r.choice([1, 2, 50, 101, 102, 103, 150, 202, 203, 10 ** 9, 10 ** 9])}


def gen_C20(r, s):
    ops = [host(r) for _ in range(r.choice([1, 2, 4]))]
    if r.random() < 0.3:
        ops.insert(r.randrange(len(ops) + 1), bench(r))
    if r.random() < 0.3:
        ops.append(ew(r))
    return ops


BADW = ['lex', 'lex', 'get', 'uf', 'sort', 'rec', 'arr']


def bad(r):
    w = r.choice(BADW)
    n = r.choice([65536, 65537, 70001, 16384, 20000, 1000, 40000, 100003]) if w != 'rec' else r.choice([16384, 20000, 65536, 1000])
    return {'k': 'bad', 'what': w, 'pick': r.randrange(1 << 16), 'n': n, 'dt': r.choice('bhiqfdBIQ'), 'off': r.randrange(OFFS), 'x': r.randrange(1 << 20), 't': r.randrange(2), 'rep': r.choice([1, 1, 2, 5]), 'atop': int(r.random() < 0.9),
            'idle': r.choice([0, 0, 30, 300])}


def gen_C21(r, s):
    if r.random() < 0.02:
        s['cfg'].update(p_stall=0, p_switch=0.002, mode=0)
        s['cfg'].pop('p_data', None)
        return [dict(bad(r), rep=1030, n=r.choice([20000, 65536]), idle=0)]
    ops = []
    for _ in range(r.randint(2, 7)):
        ops.append(bad(r))
        if r.random() < 0.15:
            ops[-1]['fail'] = 1
            s['cfg']['p_mallocfail'] = r.choice([0.2, 0.5, 1.0])
        if r.random() < 0.4:
            ops += seq(r, [mixed], 1, 1, 0.3)
    ops += seq(r, [mixed], 1, 2, 0.3)
    return ops


def gen_C22(r, s):
    ops = []
    if r.random() < 0.5:
        s['cfg']['p_mallocfail'] = r.choice([0.1, 0.3, 0.5, 1.0])
    for _ in range(r.randint(1, 4)):
        o = r.choice([sort, sort, argsort, argsort, red, rec, rec, bmask, bmask, fancy, fancy, ew, acc, arange, argm, bad, bad])(r)
        for q in ('rep', 'idle'):
            o.pop(q, None)
        if o['k'] in ('acc', 'ew', 'red') and o.get('inplace'):
            o.pop('inplace')
        if 'p_mallocfail' in s['cfg'] and r.random() < 0.7:
            o['fail'] = 1
        if r.random() < 0.08:
            o = conc(r)
        ops.append({'k': 'nolk', 'op': o, 'count': r.choice([2, 4, 6]), 'atop': int(r.random() < 0.9)})
        if r.random() < 0.3:
            ops += seq(r, [mixed], 1, 1, 0.3)
    return ops


PROPS = ['C%02d' % i for i in range(1, 23) if i != 19]
