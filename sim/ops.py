"""Operations executed inside one simulated run, with their oracles.  Everything is derived from JSON specs."""
import os, sys, io, errno, ctypes
import numpy as np

P = {}           # pools
POOLN = 1 << 18


class Viol(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind, self.msg = kind, msg


def init_pools():
    g = np.random.Generator(np.random.PCG64(20240607))
    raw = g.integers(0, 256, POOLN * 8, dtype=np.uint8)
    for c in 'bBhHiIlLqQ':
        dt = np.dtype(c)
        a = raw[:POOLN * dt.itemsize].view(dt).copy()
        P[c, 'rand'] = a
        P[c, 'small'] = (g.integers(0, 7, POOLN)).astype(dt)
        P[c, 'nz'] = np.where(a == 0, dt.type(3), a)
        P[c, 'shift'] = g.integers(0, dt.itemsize * 8, POOLN).astype(dt)
        P[c, 'pow'] = g.integers(0, 4, POOLN).astype(dt)
        P[c, 'ones'] = np.ones(POOLN, dt)
        t = np.ones(POOLN, dt)
        t[::4001] = 3
        P[c, 'sparse'] = t
        P[c, 'sorted'] = np.sort(a)
        P[c, 'rev'] = np.sort(a)[::-1].copy()
    P['?', 'rand'] = raw[:POOLN] > 127
    P['?', 'small'] = raw[:POOLN] > 250
    P['?', 'ones'] = np.ones(POOLN, '?')
    t = np.ones(POOLN, '?')
    t[-3:] = False
    P['?', 'sparse'] = t
    for v in ('nz', 'shift', 'pow'):
        P['?', v] = P['?', 'rand']
    P['?', 'sorted'] = np.sort(P['?', 'rand'])
    P['?', 'rev'] = P['?', 'sorted'][::-1].copy()
    d = g.normal(0, 100, POOLN)
    for c in 'fdg':
        dt = np.dtype(c)
        P[c, 'rand'] = d.astype(dt)
        P[c, 'small'] = (g.integers(0, 7, POOLN) - 3 + 0.25).astype(dt)
        n = d.astype(dt)
        n[g.integers(0, POOLN, POOLN // 50)] = np.nan
        n[g.integers(0, POOLN, POOLN // 80)] = np.inf
        n[g.integers(0, POOLN, POOLN // 80)] = -np.inf
        P[c, 'nan'] = n
        P[c, 'nz'] = np.where(np.abs(d) < 1e-3, 1.5, d).astype(dt)
        P[c, 'pos'] = (np.abs(d) + 0.01).astype(dt)
        P[c, 'unit'] = (g.uniform(-0.99, 0.99, POOLN)).astype(dt)
        P[c, 'gt1'] = (g.uniform(1.01, 9, POOLN)).astype(dt)
        P[c, 'pow'] = (g.integers(0, 4, POOLN)).astype(dt)
        P[c, 'near1'] = (1 + g.normal(0, 1e-4, POOLN)).astype(dt)
        P[c, 'int'] = (g.integers(-1000, 1000, POOLN)).astype(dt)
        P[c, 'ones'] = np.ones(POOLN, dt)
        P[c, 'sorted'] = np.sort(d.astype(dt))
        P[c, 'rev'] = np.sort(d.astype(dt))[::-1].copy()
        t = np.ones(POOLN, dt)
        t[::4001] = 3
        P[c, 'sparse'] = t
        P[c, 'shift'] = P[c, 'pow']
    for c in 'fdg':          # every magnitude the type has, and the special values
        dt = np.dtype(c)
        hi = 40 if c == 'f' else 310
        with np.errstate(all='ignore'):
            w = (g.choice([-1.0, 1.0], POOLN) * 10.0 ** g.uniform(-hi - 5, hi, POOLN)).astype(dt)
        for k, x in enumerate([0.0, -0.0, np.nan, np.inf, -np.inf, 1.0, -1.0, np.finfo(dt).max, np.finfo(dt).tiny, np.finfo(dt).smallest_subnormal, 88.5, -88.0, 709.5, 8193.0, 2.5, -2.5]):
            w[g.integers(0, POOLN, POOLN // 200)] = x
        P[c, 'wide'] = w
        m = P[c, 'rand'].copy()      # ordinary values with stretches of unusual ones
        for i in g.integers(0, POOLN - 40, 600):
            m[i:i + 1 + i % 33] = w[i:i + 1 + i % 33]
        P[c, 'mixed'] = m
    words = g.integers(65, 91, (POOLN, 24), dtype=np.uint8)
    P['words'] = words
    P['perm'] = g.permutation(POOLN).astype(np.int64)
    P['u64'] = raw.view(np.uint64)
    P['u8'] = raw


def strdata(dt, vals, n, off):
    dt = np.dtype(dt)
    L = dt.itemsize // (4 if dt.kind == 'U' else 1)
    idx = (np.arange(n) * 7 + off) % POOLN
    if vals == 'small':
        idx = (P['u64'][idx] % 9).astype(np.int64)
    w = P['words'][idx][:, :L].copy()
    if vals == 'small':
        pass
    elif vals == 'short':     # trailing NULs of varying length
        ln = (P['u64'][(np.arange(n) + off) % POOLN] % (L + 1)).astype(np.int64)
        w[np.arange(L)[None, :] >= ln[:, None]] = 0
    elif vals == 'prefix':
        w[:, :max(0, L - 2)] = 65
    elif vals == 'high':
        w = w + 120
    if L > 24:
        w = np.concatenate([w] * (L // 24 + 1), axis=1)[:, :L].copy()
    if dt.kind == 'U':
        w = w.astype(np.uint32)
    a = np.ascontiguousarray(w).view(dt).reshape(n).copy()
    if vals == 'sorted':
        a = np.sort(a)
    if vals == 'rev':
        a = np.sort(a)[::-1].copy()
    return a


def pooldata(c, vals, n, off):
    dt = np.dtype(c)
    if dt.kind in 'SU':
        return strdata(dt, vals, n, off)
    if dt.kind == 'V':
        w = P['words'][(np.arange(n) * 5 + off) % POOLN]
        L = dt.itemsize
        if L > 24:
            w = np.concatenate([w] * (L // 24 + 1), axis=1)
        return np.ascontiguousarray(w[:, :L]).view(dt).reshape(n)
    ch = dt.char
    if (ch, vals) not in P:
        if dt.kind in 'mM':
            return P['q', vals if ('q', vals) in P else 'rand'][np.arange(off, off + n) % POOLN].view(dt)
        if dt.kind == 'c' or ch == 'e':
            return P['d', 'rand'][np.arange(off, off + n) % POOLN].astype(dt)
        vals = 'rand'
    a = P[ch, vals]
    if vals in ('sorted', 'rev'):
        return np.resize(a, n) if n > POOLN else a[:n] if off % 2 else a[-n:]
    off %= POOLN
    if off + n <= POOLN:
        return a[off:off + n]
    return np.take(a, np.arange(off, off + n) % POOLN)


def addr(a):
    return a.__array_interface__['data'][0]


def bits_equal(a, b):
    """same values bit for bit, any NaN equal to any NaN"""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    ca, cb = np.ascontiguousarray(a), np.ascontiguousarray(b)
    if a.dtype.char == 'g':
        x, y = ca.view(np.uint8).reshape(-1, 16)[:, :10], cb.view(np.uint8).reshape(-1, 16)[:, :10]
        if x.tobytes() == y.tobytes():
            return True
    elif ca.tobytes() == cb.tobytes():
        return True
    if a.dtype.kind in 'fc':
        with np.errstate(all='ignore'):
            same = (ca == cb) | ((ca != ca) & (cb != cb))
        return bool(same.all())
    return False


def first_diff(a, b):
    try:
        fa, fb = a.reshape(-1), b.reshape(-1)
        if a.dtype.kind in 'fc':
            ne = ~((fa == fb) | ((fa != fa) & (fb != fb)))
        else:
            ne = fa != fb
        w = np.nonzero(ne)[0]
        if len(w):
            i = int(w[0])
            return '%d of %d elements differ, first at %d: %r instead of %r' % (len(w), fa.size, i, fb[i].item() if fb.dtype.char != 'g' else float(fb[i]), fa[i].item() if fa.dtype.char != 'g' else float(fa[i]))
    except Exception as e:
        return 'values differ (%s)' % e
    return 'values differ'


CAN = 0xC7


class Ctx:
    def __init__(self, simrt, pn, spec):
        self.s, self.pn, self.spec = simrt, pn, spec
        self.pnc = pn._pnumpy
        self.set = spec.get('set', {})
        self.opi = 0
        self.keep = []
        self.checks = 0
        self.exc = 0

    # -------- switches
    def quiet(self):
        self.pn.thread_disable()
        self.pn.atop_disable()

    def serial(self, atop=1):
        self.pn.thread_disable()
        (self.pn.atop_enable if atop else self.pn.atop_disable)()

    def loud(self, atop=1, thread=1):
        (self.pn.atop_enable if atop else self.pn.atop_disable)()
        (self.pn.thread_enable if thread else self.pn.thread_disable)()

    # -------- data
    def arr(self, dt, n, vals, off=0, lay=(1, 0)):
        """1-D array of n elements with element stride lay[0] and lay[1] leading elements; lay[2:] = (gap, shift): the field of a
        packed record, each element followed by gap more bytes, the first one shift bytes in"""
        step, lead = lay[:2]
        st = abs(step)
        if len(lay) > 2:
            gap, shift = lay[2:]
            d = np.dtype(dt)
            w = (d.itemsize + gap) * st
            base = np.empty(lead * w + shift + max(n, 1) * w, np.uint8)
            base[:] = np.resize(P['u8'][off % 1000:], base.size)
            v = np.ndarray((n,), d, base, lead * w + shift, (w,))
            if n:
                v[:] = pooldata(dt, vals, n, off)
            return (v[::-1] if step < 0 else v), base
        total = (n - 1) * st + 1 + lead if n else lead + 1
        base = np.empty(total, dt)
        if st != 1 or lead:
            base[:] = pooldata(dt, vals, total, off + 17) if total <= POOLN else np.resize(pooldata(dt, vals, POOLN, off), total)
        v = base[lead::st] if n else base[:0]
        if n:
            v[:] = pooldata(dt, vals, n, off)
        if step < 0:
            v = v[::-1]
        return v, base

    def outbuf(self, dt, n, lay):
        step, lead = lay[:2]
        st = abs(step)
        dt = np.dtype(dt)
        pad = 64
        if len(lay) > 2:
            gap, shift = lay[2:]
            w = (dt.itemsize + gap) * st
            big = np.full(lead * w + shift + n * w + 2 * pad * dt.itemsize, CAN, np.uint8)
            v = np.ndarray((n,), dt, big, pad * dt.itemsize + lead * w + shift, (w,))
            return (v[::-1] if step < 0 else v), big
        total = (n - 1) * st + 1 + 2 * pad + lead
        big = np.empty(total, dt)
        big.view(np.uint8)[:] = CAN
        v = big[pad + lead:pad + lead + (n - 1) * st + 1:st]
        if step < 0:
            v = v[::-1]
        return v, big

    def check_outside(self, v, big, what):
        t = big.view(np.uint8).copy()
        o = addr(v) - addr(big)
        it = v.dtype.itemsize
        tv = np.ndarray(v.shape + (it,), np.uint8, t, o, v.strides + (1,))
        tv[...] = CAN
        tb = t
        if tb.tobytes() != bytes([CAN]) * tb.size:
            bad = np.nonzero(tb != CAN)[0]
            raise Viol('outside-write', '%s wrote %d bytes outside its output (first at byte %d of the buffer, output starts at %d)' % (what, len(bad), int(bad[0]), o))

    # -------- execution of one call under the simulator
    def run(self, fn, fail=0):
        """returns (result, exception)"""
        self.s.begin(self.opi, fail)
        try:
            r, e = fn(), None
        except Viol:
            raise
        except Exception as ex:
            r, e = None, ex
        finally:
            self.s.end()
        return r, e

    def after(self, arrays, n):
        """protect caller memory and let the workers run: any access is a violation"""
        if n <= 0:
            return
        pr = []
        for a in arrays:
            if a is not None and isinstance(a, np.ndarray):
                while isinstance(a.base, np.ndarray):
                    a = a.base
                p = addr(a)
                if p not in pr and self.s.protect(p, True):
                    pr.append(p)
        self.s.idle(n, False)
        for p in pr:
            self.s.protect(p, False)


def snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(snap(y) for y in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and bits_equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.generic) and isinstance(b, np.generic):
        return a.dtype == b.dtype and bits_equal(np.asarray(a).reshape(1), np.asarray(b).reshape(1))
    return a == b


# NumPy computes these by different code (vector or scalar, last bit different) depending on where the arrays happen
# to lie in memory, so the last bits are no business of pnumpy's
ROUNDED = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'cbrt', 'exp', 'exp2', 'expm1',
           'log', 'log2', 'log10', 'log1p', 'power', 'float_power', 'arctan2', 'hypot', 'logaddexp', 'logaddexp2'}


def close(a, b):
    """equal up to 4 units in the last place"""
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype or a.dtype.kind != 'f':
        return same(a, b)
    with np.errstate(all='ignore'):
        x, y = a.astype('g'), b.astype('g')
        ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= 4 * np.finfo(a.dtype).eps * np.maximum(np.abs(x), np.abs(y)) + 4 * np.finfo(a.dtype).smallest_subnormal.astype('g'))
    return bool(ok.all())


def closeref(f, dt):
    """pnumpy's own float32 kernels are accurate to a few units in the last place of a number near 1"""
    def cmp(a, b):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype or a.dtype.kind != 'f':
            return same(a, b)
        if not (a.dtype.char == 'f' and f in ('sin', 'cos', 'exp', 'log')):
            return close(a, b)
        with np.errstate(all='ignore'):
            x, y = a.astype('d'), b.astype('d')
            ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= 1e-6 * np.maximum(np.abs(x), np.abs(y)) + (5e-7 if f != 'exp' else 1e-44))
        return bool(ok.all())
    return cmp


def explain(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return 'got %s%s instead of %s%s' % (b.dtype, b.shape, a.dtype, a.shape)
        return first_diff(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return 'field %r: %s' % (k, explain(a[k], b.get(k)))
    return 'got %r instead of %r' % (b, a)


class Call:
    """What an operation needs: fn() performs it, ref() the reference, compare(expected, got)."""
    name = ''
    ins = ()
    same = staticmethod(same)
    big = None       # (view, big) pairs to check for outside writes

    def compare(self, exp, got, what):
        if not self.same(exp, got):
            raise Viol('mismatch', '%s: %s differs from %s' % (self.name, explain(exp, got), what))


def execute(ctx, op, c):
    if not op.get('bufsize'):
        return execute1(ctx, op, c)
    old = np.setbufsize(op['bufsize'])      # casts and unaligned operands pass through NumPy's buffers, in pieces of this many elements
    try:
        return execute1(ctx, op, c)
    finally:
        np.setbufsize(old)


def execute1(ctx, op, c):
    """reference (NumPy loops), serial (pnumpy, threads off), then the threaded call under the simulator."""
    atop = op.get('atop', 1)
    ctx.quiet()
    insnap = [a.copy() for a in c.ins]
    exp_np = snap(c.ref()) if c.ref else None
    exp_s = None
    refused = None
    if op.get('serial', 1):
        ctx.serial(atop)
        try:
            exp_s = snap(c.fn())
        except Exception as ex:
            refused = type(ex)
            if not (c.refuse and isinstance(ex, c.refuse)):
                raise Viol('exception', '%s raised %s with threading off: %s' % (c.name, type(ex).__name__, str(ex)[:200]))
    ctx.loud(atop)
    got, e = ctx.run(c.fn, (c.failmode if op.get('fail') else 0))
    if refused is not None and e is None:
        raise Viol('exception', '%s raised %s with threading off but not with threading on' % (c.name, refused.__name__))
    if e is not None:
        if c.refuse and isinstance(e, c.refuse) and (refused is not None or not op.get('serial', 1)):
            got = None
        elif op.get('fail') and isinstance(e, (MemoryError, ValueError) + c.failexc):
            ctx.exc += 1
            ctx.s.probe(7)
            got = None
        else:
            raise Viol('exception', '%s raised %s: %s' % (c.name, type(e).__name__, str(e)[:200]))
    if got is None and e is not None:
        keep = None
    else:
        keep = snap(got)
    if c.again and keep is not None and not op.get('fail'):
        g2, e2 = ctx.run(c.fn)
        if e2 is not None or not c.same(keep, g2):
            raise Viol('not-repeatable', '%s: %s on another schedule' % (c.name, repr(e2) if e2 is not None else explain(keep, g2)))
    ctx.quiet()
    arrays = list(c.ins)
    if isinstance(got, np.ndarray):
        arrays.append(got)
    if isinstance(got, dict):
        arrays += list(got.values())
    ctx.after(arrays, op.get('idle', 0))
    ctx.checks += 1
    for a, b in zip(insnap, c.ins):
        if not c.inplace and not bits_equal(a, b):
            raise Viol('input-changed', '%s changed one of its inputs: %s' % (c.name, first_diff(a, b)))
    if keep is not None:
        if c.around:
            c.around()
        if c.outside:
            for v, big in c.outside():
                ctx.check_outside(v, big, c.name)
        if exp_s is not None:
            c.compare(exp_s, keep, 'the same call with threading off')
        if exp_np is not None:
            c.cmpref(exp_np, keep)
        if not same(keep, snap(got)):
            raise Viol('late-write', '%s: the result changed after the call had returned: %s' % (c.name, explain(keep, snap(got))))
    return keep


Call.ref = None
Call.refuse = ()         # exceptions by which pnumpy may decline this call
Call.inplace = False
Call.failmode = 1        # which allocations may fail: 1 all, 2 only pnumpy's own
Call.failexc = ()        # further exceptions accepted when an allocation failed
Call.again = False
Call.outside = None
Call.around = None


def _cmpref(self, exp, got):
    self.compare(exp, got, "NumPy's own result")


Call.cmpref = _cmpref


# ------------------------------------------------------------------------------------------------ elementwise
def b_ew(ctx, op):
    c = Call()
    f = getattr(np, op['f'])
    if op['f'] in ROUNDED:
        c.same = close
    n, dt = op['n'], op['dt']
    rows = op.get('rows', 0)

    def mkin(vals, lay, off, dt=dt):
        if lay == 's':
            v, b = ctx.arr(dt, 1, vals, off)
            return v, b
        if rows and lay == 'col':       # one value for each row
            v, b = ctx.arr(dt, rows, vals, off)
            return v.reshape(rows, 1), b
        if rows and lay == 'row':       # the same row for every row
            return ctx.arr(dt, n, vals, off)
        if rows:
            v, b = ctx.arr(dt, n * rows, vals, off, (1, 0))
            v = v.reshape(rows, n)
            if lay[0] != 1:    # not collapsible: keep a column margin
                w, b = ctx.arr(dt, (n + 3) * rows, vals, off, (1, 0))
                v = w.reshape(rows, n + 3)[:, :n]
            return v, b
        return ctx.arr(dt, n, vals, off, tuple(lay))
    ins = []
    for k in range(f.nin):
        v, b = mkin(op['v'][k], op['l'][k], op['off'] + 1000 * k, op.get('dt2', dt) if k else dt)
        ins.append((v, b))
    if op.get('same2') and f.nin == 2 and 's' not in op['l']:
        ins[1] = ins[0]
    args = [v for v, _ in ins]
    kw = {}
    outdt = f(*[a.reshape(-1)[:1] for a in args]).dtype
    lo = op.get('lo')
    store = []
    inplace = op.get('inplace')
    tgt = 1 if inplace == 2 and f.nin == 2 else 0
    if inplace and outdt == args[tgt].dtype and args[tgt].size > 1:
        src, mem = ins[tgt]
        orig = src.copy()
        c.inplace = True
        c.ins = [x for x in args if x is not src]
        whole = mem.view(np.uint8).reshape(-1).copy()

        def fn2():
            src[...] = orig
            return f(*args, out=src)
        c.fn = fn2

        def around():
            now = mem.view(np.uint8).reshape(-1).copy()
            old = whole.copy()
            for w in (now, old):
                np.ndarray(src.shape, src.dtype, w, addr(src) - addr(mem), src.strides)[...] = 0
            if not (now == old).all():
                raise Viol('outside-write', '%s wrote %d bytes outside its operand' % (c.name, int((now != old).sum())))
        c.around = around
        c.name = 'np.%s(%s, in place, n=%d)' % (op['f'], dt, n)
    else:
        c.ins = args
        if op.get('where'):
            sel = np.ones(n, bool)
            sel[(np.arange(op['where']) * 7919 * 13 + op['off']) % n] = False

        def fn():
            if op.get('where'):
                v = np.full(n, 1, outdt)
                return f(*args, out=v, where=sel)
            if op.get('outcast'):
                v, big = ctx.outbuf(op['outcast'], n, tuple(lo or (1, 0)))
                store[:] = [(v, big)]
                return f(*args, out=v, casting='unsafe')
            if lo is not None and not rows:
                v, big = ctx.outbuf(outdt, n, tuple(lo))
                store[:] = [(v, big)]
                return f(*args, out=v)
            return f(*args)
        c.fn = fn
        c.outside = lambda: store
        c.name = 'np.%s(%s, n=%d, layouts=%s)' % (op['f'], dt, n, op['l'])
    if op.get('npref'):
        c.ref = c.fn
        if op['f'] in ROUNDED:
            near = closeref(op['f'], dt)

            def cmpref(exp, got):
                if not near(exp, got):
                    raise Viol('mismatch', "%s: %s differs from NumPy's own result beyond rounding" % (c.name, explain(exp, got)))
            c.cmpref = cmpref
    return c


# ------------------------------------------------------------------------------------------------ argmin / argmax
def b_argm(ctx, op):
    c = Call()
    dt, n, f = op['dt'], op['n'], op['f']
    kw = {}
    if op.get('rows'):
        a, _ = ctx.arr(dt, n * op['rows'], op['v'], op['off'], (1, 0))
        a = a.reshape(op['rows'], n) if op['axis'] == 1 else a.reshape(n, op['rows'])
        kw['axis'] = op['axis']
    else:
        a, _ = ctx.arr(dt, n, op['v'], op['off'], tuple(op['l']))
    if op.get('keepdims') and op['api'] == 'np':
        kw['keepdims'] = True
    g = {'np': getattr(np, f), 'pn': getattr(ctx.pn, f), 'method': getattr(a, f)}[op['api']]
    c.ins = (a,)
    c.fn = (lambda: g(**kw)) if op['api'] == 'method' else (lambda: g(a, **kw))
    c.ref = lambda: getattr(np, f)(a, **kw)
    c.name = '%s.%s(%s, n=%d, %s)' % (op['api'], f, dt, n, op['v'])
    return c


# ------------------------------------------------------------------------------------------------ searchsorted
def b_search(ctx, op):
    c = Call()
    a, _ = ctx.arr(op['dt'], op['n'], 'sorted', op['off'], (1, 0))
    v, _ = ctx.arr(op['dt'], op['m'], op['v'], op['off'] + 99, tuple(op['l']))
    c.ins = (a, v)
    kw = {'side': op['side']}
    if op.get('sorter'):
        p = np.arange(op['n'])[::-1].copy()
        a = a[::-1].copy()
        c.ins = (a, v, p)
        kw['sorter'] = p
    c.fn = lambda: ctx.pn.searchsorted(a, v, **kw)
    c.ref = lambda: np.searchsorted(a, v, **kw)
    c.name = 'searchsorted(%s, n=%d, m=%d, %s)' % (op['dt'], op['n'], op['m'], op['side'])
    return c


# ------------------------------------------------------------------------------------------------ reduce
def b_red(ctx, op):
    c = Call()
    f = getattr(np, op['f'])
    dt, n = op['dt'], op['n']
    rows = op.get('rows', 0)
    kw = {}
    if rows:
        a, b = ctx.arr(dt, n * rows, op['v'], op['off'], (1, 0))
        if op['axis'] in (0, 1):
            a = a.reshape(rows, n) if op['axis'] == 1 else a.reshape(n, rows)
            kw['axis'] = op['axis']
        elif op['axis'] == 'all':
            a = a.reshape(rows, n)[:, :n - 1]
            kw['axis'] = None
        elif op['axis'] == 'T':
            a = a.reshape(rows, n).T
            kw['axis'] = None
        elif op['axis'] == '3':
            k = n // 2
            a = a[:rows * k * 2].reshape(rows, 2, k)
            kw['axis'] = (0, 2)
    else:
        a, b = ctx.arr(dt, n, op['v'], op['off'], tuple(op['l']))
    if 'initial' in op:
        kw['initial'] = np.dtype(dt).type(op['initial'])
    if op.get('keepdims'):
        kw['keepdims'] = True
    if op.get('where'):
        m, _ = ctx.arr('?', n, 'rand', op['off'] + 7)
        if not rows:
            kw['where'] = m
            if 'initial' not in kw and op['f'] not in ('add', 'multiply', 'logical_and', 'logical_or', 'bitwise_or', 'bitwise_xor', 'bitwise_and'):
                kw['initial'] = a.reshape(-1)[0]
    if op.get('outdt'):
        kw['dtype'] = np.dtype(op['outdt'])
    c.ins = (a,)
    c.fn = lambda: f.reduce(a, **kw)
    c.ref = c.fn
    c.name = 'np.%s.reduce(%s, n=%d, %s)' % (op['f'], dt, n, ','.join('%s' % k for k in kw) or 'step %s' % op.get('l'))
    isf = np.dtype(op.get('outdt') or dt).kind == 'f' and op['f'] in ('add', 'multiply', 'subtract', 'true_divide')
    if isf:
        x = np.abs(a.astype('g'))
        if op['f'] in ('add', 'subtract'):
            tol = float(x.sum()) * np.finfo(np.dtype(op.get('outdt') or dt)).eps * (64 if np.dtype(op.get('outdt') or dt).itemsize < 8 else 8192) + abs(float(op.get('initial', 0)))*1e-6
        else:
            tol = None

        def cmp(exp, got, what):
            ea, ga = np.asarray(exp), np.asarray(got)
            if ea.shape != ga.shape or ea.dtype != ga.dtype:
                raise Viol('mismatch', '%s: %s' % (c.name, explain(ea, ga)))
            t = tol if tol is not None else float(np.max(np.abs(ea.astype('g')))) * np.finfo(ea.dtype).eps * 4 * n
            d = np.abs(ea.astype('g') - ga.astype('g'))
            bad = ~((d <= t) | (ea == ga) | ((ea != ea) & (ga != ga)))
            if bad.any():
                raise Viol('mismatch', '%s: %s differs from %s beyond rounding' % (c.name, explain(ea.reshape(-1), ga.reshape(-1)), what))
        c.compare = cmp
        c.repeat = True
    return c


def op_red(ctx, op):
    c = b_red(ctx, op)
    r = execute(ctx, op, c)
    if op.get('bufsize'):
        return
    # repeatability: the same call again on another schedule gives the same bits
    for _ in range(op.get('rep', 0)):
        ctx.loud(op.get('atop', 1))
        if op.get('repw') is not None:
            ctx.pn.thread_setworkers(op['repw'])
        g, e = ctx.run(c.fn)
        ctx.quiet()
        if e is not None:
            raise Viol('exception', '%s raised %r on repetition' % (c.name, e))
        if not same(snap(g), r):
            raise Viol('not-repeatable', '%s: %s on another schedule' % (c.name, explain(np.asarray(r).reshape(-1), np.asarray(g).reshape(-1))))


# ------------------------------------------------------------------------------------------------ accumulate / overlap
def b_acc(ctx, op):
    c = Call()
    f = getattr(np, op['f'])
    dt, n = op['dt'], op['n']
    rows = op.get('rows', 0)
    if rows:
        a, b = ctx.arr(dt, n * rows, op['v'], op['off'], (1, 0))
        a = a.reshape(rows, n) if op['axis'] == 1 else a.reshape(n, rows)
        c.fn = lambda: f.accumulate(a, axis=op['axis'])
    else:
        a, b = ctx.arr(dt, n, op['v'], op['off'], tuple(op['l']))
        if op.get('inplace'):
            o = a.copy()
            c.inplace = True

            def fn():
                a[...] = o
                return f.accumulate(a, out=a)
            c.fn = fn
        else:
            c.fn = lambda: f.accumulate(a)
    c.ins = (a,)
    c.ref = c.fn
    c.name = 'np.%s.accumulate(%s, n=%d%s)' % (op['f'], dt, n, ', %d rows axis %d' % (rows, op['axis']) if rows else '')
    if op.get('prefill') is not None:
        pass
    return c


def b_reduceat(ctx, op):
    c = Call()
    f = getattr(np, op['f'])
    a, b = ctx.arr(op['dt'], op['n'], op['v'], op['off'], tuple(op['l']))
    idx = np.array(op['idx'], np.intp)
    c.ins = (a,)
    c.fn = lambda: f.reduceat(a, idx)
    c.ref = c.fn
    c.name = 'np.%s.reduceat(%s, n=%d)' % (op['f'], op['dt'], op['n'])
    if np.dtype(op['dt']).kind == 'f' and op['f'] in ('add', 'multiply'):
        def cmp(exp, got, what):
            if not np.allclose(exp, got, rtol=1e-3 if op['dt'] == 'f' else 1e-9, atol=1e-2 if op['dt'] == 'f' else 1e-6, equal_nan=True):
                raise Viol('mismatch', '%s: %s differs from %s' % (c.name, explain(exp, got), what))
        c.compare = cmp
    return c


def b_at(ctx, op):
    """ufunc.at: repeated indexes count every time"""
    c = Call()
    f = getattr(np, op['f'])
    n, m, dt = op['n'], op['m'], op['dt']
    t, _ = ctx.arr(dt, m, op['v'], op['off'])
    idx = (P['u64'][(np.arange(n) * 3 + op['off']) % POOLN] % np.uint64(m)).astype(op.get('it', 'q'))
    v = ctx.arr(dt, n, op['v'], op['off'] + 55, tuple(op['l']))[0] if not op.get('scalar') else np.dtype(dt).type(2)
    c.ins = (t, idx)

    def fn():
        w = t.copy()
        f.at(w, idx, v)
        return w
    c.fn = fn
    c.ref = fn
    c.name = 'np.%s.at(%s, n=%d, %d targets)' % (op['f'], dt, n, m)
    return c


def b_overlap(ctx, op):
    """output overlaps an input at an offset"""
    c = Call()
    f = getattr(np, op['f'])
    n, dt, k = op['n'], op['dt'], op['shift']
    base = np.empty(n + abs(k), dt)
    orig = pooldata(dt, op['v'], n + abs(k), op['off']).copy()
    other, _ = ctx.arr(dt, n, op['v'], op['off'] + 99)
    src = base[:n] if k >= 0 else base[-k:]
    dst = base[k:] if k >= 0 else base[:n]
    if op.get('rev'):
        src = src[::-1]
    first = op.get('which', 0)

    def fn():
        base[...] = orig
        if f.nin == 1:
            f(src, out=dst)
        elif first == 0:
            f(src, other, out=dst)
        else:
            f(other, src, out=dst)
        return base.copy()
    c.fn = fn
    c.ref = fn if op.get('npref') else None
    c.ins = (other,)
    c.name = 'np.%s(%s, out overlapping input by shift %d, n=%d)' % (op['f'], dt, k, n)
    return c


# ------------------------------------------------------------------------------------------------ sort family
def is_sorted(a):
    x, y = a[:-1], a[1:]
    if a.dtype.kind == 'f':
        return bool((((x <= y) | (y != y))).all())
    return bool((x <= y).all())


def b_sort(ctx, op):
    c = Call()
    if op.get('swap') or op.get('rows') or list(op['l']) != [1, 0]:
        c.failmode = 2      # see b_argsort
    dt, n, kind, api = op['dt'], op['n'], op['kind'], op['api']
    a, b = ctx.arr(dt, n, op['v'], op['off'], tuple(op['l']))
    if op.get('swap'):
        a = a.astype(np.dtype(dt).newbyteorder('>'))
    if op.get('rows'):
        a, b = ctx.arr(dt, n * op['rows'], op['v'], op['off'])
        a = a.reshape(op['rows'], n) if op['axis'] == 1 else a.reshape(n, op['rows'])
    ax = op.get('axis', -1)
    od = {}
    if op.get('order'):
        w = np.zeros(n, [('i', 'i4'), ('k', a.dtype)])
        w['k'], w['i'] = a, np.arange(n) * 7919 % 1000
        a = w
        od = {'order': op['order']}
    c.ins = (a,)
    c.name = '%s(%s%s, n=%d, kind=%s, %s%s)' % (api, 'byteswapped ' if op.get('swap') else '', dt, n, kind, op['v'], ', %d rows axis %s' % (op['rows'], ax) if op.get('rows') else '')
    kd = kind if op['api'] != '_pn.sort' else kind
    store = []
    if api == 'np.sort':
        c.fn = lambda: np.sort(a, axis=ax, kind=kind, **od)
    elif api == 'pn.sort':
        c.fn = lambda: ctx.pn.sort(a, axis=ax, kind=kind, **od)
    elif api == '_pn.sort':
        c.fn = (lambda: ctx.pnc.sort(a, kind=kd)) if kind is not None else (lambda: ctx.pnc.sort(a))
    elif api == 'method':
        def fn():
            if op.get('rows'):
                w = a.copy()
                w.sort(axis=ax, kind=kind)
                return w
            v, big = ctx.outbuf(a.dtype, n, tuple(op['l']))
            v[...] = a
            store[:] = [(v, big)]
            v.sort(kind=kind)
            return v
        c.fn = fn
        c.outside = lambda: store
    if op.get('swap') and api == '_pn.sort':
        c.refuse = (ValueError,)
    c.ref = lambda: np.sort(a, axis=ax, kind=kind, **od)
    return c


def b_argsort(ctx, op):
    c = Call()
    c.failmode = 2      # NumPy's own argsort and sort crash when their buffers cannot be allocated
    dt, n, kind, api = op['dt'], op['n'], op['kind'], op['api']
    a, b = ctx.arr(dt, n, op['v'], op['off'], tuple(op['l']))
    if op.get('swap'):
        a = a.astype(np.dtype(dt).newbyteorder('>'))
    if op.get('rows'):
        a, b = ctx.arr(dt, n * op['rows'], op['v'], op['off'])
        a = a.reshape(op['rows'], n) if op['axis'] == 1 else a.reshape(n, op['rows'])
    ax = op.get('axis', -1)
    c.ins = (a,)
    c.name = '%s(%s%s, n=%d, kind=%s, %s)' % (api, 'byteswapped ' if op.get('swap') else '', dt, n, kind, op['v'])
    if api == 'np.argsort':
        c.fn = lambda: np.argsort(a, axis=ax, kind=kind)
    elif api == 'pn.argsort':
        c.fn = lambda: ctx.pn.argsort(a, axis=ax, kind=kind)
    else:
        c.fn = lambda: a.argsort(axis=ax, kind=kind)

    def ref():
        return np.sort(a, axis=ax, kind='stable')
    c.ref = ref
    if kind not in ('stable', 'mergesort'):
        # the order of equal elements may differ from the serial algorithm's
        c.compare = lambda exp, got, what: None
        c.again = True

    def cmpref(exp, got):
        if ax is None:
            got, a2 = got.reshape(-1), np.ascontiguousarray(a).reshape(-1)
            check_perm(got, a2.size, c.name)
            if not bits_equal(a2[got], np.ascontiguousarray(exp).astype(a2.dtype)):
                raise Viol('not-sorted', '%s: indices do not sort the array: %s' % (c.name, first_diff(exp, a2[got])))
            if kind in ('stable', 'mergesort'):
                check_stable(a2[got], got, c.name)
            return
        if got.shape != a.shape or got.dtype != np.intp:
            raise Viol('mismatch', '%s: result is %s%s' % (c.name, got.dtype, got.shape))
        A = a if a.ndim == 1 else np.moveaxis(a, ax, -1)
        G = got if a.ndim == 1 else np.moveaxis(got, ax, -1)
        E = exp if a.ndim == 1 else np.moveaxis(exp, ax, -1)
        for x, g, e in zip(A.reshape(-1, n) if a.ndim > 1 else [A], G.reshape(-1, n) if a.ndim > 1 else [G], E.reshape(-1, n) if a.ndim > 1 else [E]):
            check_perm(g, n, c.name)
            v = x[g]
            if not bits_equal(v, np.ascontiguousarray(e).astype(v.dtype)):
                raise Viol('not-sorted', '%s: indices do not sort the array: %s' % (c.name, first_diff(e, v)))
            if kind in ('stable', 'mergesort'):
                check_stable(v, g, c.name)
    c.cmpref = cmpref
    return c


def check_perm(g, n, name):
    if g.size != n:
        raise Viol('mismatch', '%s: %d indices instead of %d' % (name, g.size, n))
    if g.size and (int(g.min()) < 0 or int(g.max()) >= n):
        raise Viol('not-permutation', '%s: index out of range (min %d, max %d)' % (name, int(g.min()), int(g.max())))
    seen = np.zeros(n, '?')
    seen[g] = True
    if not seen.all():
        raise Viol('not-permutation', '%s: %d indices missing from the result (some appear twice)' % (name, int((~seen).sum())))


def check_stable(v, g, name):
    x, y = v[:-1], v[1:]
    eqm = (x == y)
    if v.dtype.kind == 'f':
        eqm |= (x != x) & (y != y)
    bad = eqm & (g[:-1] > g[1:])
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        raise Viol('not-stable', '%s: equal keys out of original order at %d (indices %d, %d)' % (name, i, int(g[i]), int(g[i + 1])))


def b_lexsort(ctx, op):
    c = Call()
    n = op['n']
    keys = []
    for i, k in enumerate(op['keys']):
        keys.append(ctx.arr(k[0], n, k[1], op['off'] + 333 * i, tuple(k[2]) if len(k) > 2 else (1, 0))[0])
    c.ins = tuple(keys)
    kw = {}
    cuts = op.get('cuts')
    if cuts:
        kw['cutoffs'] = np.array(cuts, np.int64)
    api = op['api']
    f = {'lexsort32': ctx.pnc.lexsort32, 'lexsort64': ctx.pnc.lexsort64, 'pn.lexsort': ctx.pn.lexsort}[api]
    if op.get('kind'):
        kw['kind'] = op['kind']
    stable = op.get('kind', 'stable') in ('stable', 'mergesort')
    it = np.int64 if api == 'lexsort64' else np.int32
    part = lambda: ((np.arange(n // 2 + 1) * 2 + op['off']) % n).astype(it)        # some of the rows
    twice = lambda: (np.arange(n) // 2 * 2).astype(it)         # rows named twice
    if op.get('index'):
        def fn():
            ix = {'rev': lambda: np.arange(n, dtype=it)[::-1].copy(), 'id': lambda: np.arange(n, dtype=it), 'part': part, 'twice': twice}[op['index']]()
            k2 = dict(kw)
            k2['index'] = ix
            return f(*keys, **k2) if op.get('va') else f(list(keys), **k2)
        c.fn = fn
    elif len(keys) == 1 and op.get('bare') and not (op.get('fail') and api == 'pn.lexsort'):
        c.fn = lambda: f(keys[0], **kw)
    else:
        c.fn = lambda: f(*keys, **kw) if op.get('va') and api != 'pn.lexsort' else f(list(keys), **kw)
    c.name = '%s(keys=%s, n=%d%s%s%s)' % (api, [k[0] for k in op['keys']], n, ', cutoffs' if cuts else '', ', index ' + op['index'] if op.get('index') else '', ', ' + op['kind'] if op.get('kind') else '')
    if not stable:
        c.compare = lambda exp, got, what: None
        c.again = True

    def ref():
        if op.get('index') in ('part', 'twice'):
            ix = part() if op['index'] == 'part' else twice()
            return ix[np.lexsort([k[ix] for k in keys])]
        if op.get('index') == 'rev':
            r = np.lexsort([k[::-1] for k in keys])
            return (n - 1 - r).astype(it)
        if cuts:
            out, s = [], 0
            for e in cuts:
                out.append(np.lexsort([k[s:e] for k in keys]))
                s = e
            return np.concatenate(out).astype(it)
        return np.lexsort(keys).astype(it)
    c.ref = ref

    def cmpref(exp, got):
        if not isinstance(got, np.ndarray) or got.shape != exp.shape:
            raise Viol('mismatch', '%s returned %r' % (c.name, type(got)))
        if not cuts and op.get('index') not in ('part', 'twice'):
            check_perm(got, n, c.name)
        if not stable:
            # the order of equal elements is left open
            if bytes(np.sort(exp)) != bytes(np.sort(got.astype(exp.dtype))):
                raise Viol('not-permutation', '%s: rows are missing from the result' % c.name)
            for s, e in zip([0] + list(cuts or [])[:-1], cuts or [exp.size]):
                if cuts:
                    check_perm(got[s:e], e - s, c.name)
                x, y = (keys[0][s:e] if cuts else keys[0])[got[s:e]], (keys[0][s:e] if cuts else keys[0])[exp[s:e]]
                if not bits_equal(x, y) and not ((x == y) | (x != x) & (y != y)).all():
                    raise Viol('not-sorted', '%s: %s' % (c.name, first_diff(y, x)))
            return
        if exp.astype(got.dtype).tobytes() != got.tobytes():
            raise Viol('not-sorted', '%s: %s' % (c.name, first_diff(exp.astype(got.dtype), got)))
    c.cmpref = cmpref
    if op.get('fail') and api == 'pn.lexsort':
        # pnumpy.lexsort turns to np.lexsort (64-bit indexes, no cutoffs) when it fails
        c.failexc = (TypeError,)
        c.compare = lambda exp, got, what: cmpref(exp, got)
    return c


# ------------------------------------------------------------------------------------------------ getitem
def api_is_hook(op):
    return op['api'] == 'hook'


def b_bmask(ctx, op):
    c = Call()
    n, dt = op['n'], op['dt']
    if dt == 'O':
        st = abs(op['l'][0])
        v = np.array([i * 7 + 1000 for i in range(n * st)], dtype='O')[::op['l'][0]]
        b = v
    else:
        v, b = ctx.arr(dt, n, op['v'], op['off'], tuple(op['l']))
    m, mb = ctx.arr('?', n, 'rand', op['off'] + 5, tuple(op['ml']))
    d = op['density']
    idx = np.arange(n)
    if d == 'all':
        m[...] = True
    elif d == 'none':
        m[...] = False
    elif d == 'one':
        m[...] = False
        m[op['off'] % n] = True
    elif d == 'last':
        m[...] = False
        m[n - 1] = True
    elif d == 'tail':
        m[...] = idx >= n - (op['off'] % 20000) - 1
    elif d == 'head':
        m[...] = idx < (op['off'] % 20000) + 1
    elif d == 'blocks':
        m[...] = (idx // 16384) % 2 == (op['off'] % 2)
    elif d == 'sparse':
        m[...] = idx % 97 == op['off'] % 97
    if op.get('rows'):
        v, b = ctx.arr(dt, n, op['v'], op['off'])
        r = op['rows']
        k = n // r
        v = v[:r * k].reshape(r, k)
        m = np.ascontiguousarray(m[:r * k]).reshape(r, k)
        if op.get('fortran'):
            v = np.asfortranarray(v)
            c.refuse = (ValueError,) if op['api'] == 'getitem' else ()
    sh = op.get('shape') if api_is_hook(op) else None
    if sh == 'col':
        v = np.ascontiguousarray(v).reshape(n, 1)
    elif sh == 'wide':
        k = n // 3
        v, m = np.ascontiguousarray(v[:k * 3]).reshape(k, 3), np.ascontiguousarray(m[:k])
    elif sh == 'swapped':
        k = n // 2
        v, m = np.ascontiguousarray(v[:k * 2]).reshape(k, 2), np.ascontiguousarray(m[:k * 2]).reshape(2, k)
        c.refuse = (IndexError,)
        c.noref = True
    elif sh == 'zerod':
        v, m = v[:1].reshape(()), m[:1].reshape(())
    c.ins = (v, m)
    api = op['api']
    if api == 'getitem':
        c.fn = lambda: ctx.pnc.getitem(v, m)
        if dt == 'O':
            flat, mf = v.reshape(-1), m.reshape(-1)
            pick = [(op['off'] * 31 + k * 997) % flat.size for k in range(40)]

            def fn():
                before = [sys.getrefcount(flat[k]) for k in pick]
                r = ctx.pnc.getitem(v, m)
                after = [sys.getrefcount(flat[k]) for k in pick]
                for k, x, y in zip(pick, before, after):
                    if y - x != int(mf[k]):
                        raise Viol('refcount', '%s: the result holds %d references to element %d instead of %d' % (c.name, y - x, k, int(mf[k])))
                return r
            c.fn = fn
    elif sh == 'subclass':
        def fn():
            ctx.pnc.hook_enable()
            class Sub(np.ndarray):
                pass
            x = v.view(Sub)
            try:
                r1 = x[m]
            finally:
                ctx.pnc.hook_disable()
            r2 = x[m]
            if type(r1) is not Sub or type(r2) is not Sub:
                raise Viol('type', '%s: indexing an instance of a class derived from ndarray returned %s / %s' % (c.name, type(r1).__name__, type(r2).__name__))
            return np.concatenate([np.asarray(r1), np.asarray(r2)])
        c.fn = fn
        c.ref = lambda: np.concatenate([v[m], v[m]])
    else:
        def fn():
            ctx.pnc.hook_enable()
            try:
                return v[m]
            finally:
                ctx.pnc.hook_disable()
        c.fn = fn
    if sh != 'subclass' and sh != 'swapped':
        c.ref = lambda: v[m]
    c.name = '%s mask (%s, n=%d, %s, step %s%s)' % (api, dt, n, d, op['l'], ', %s rows' % op['rows'] if op.get('rows') else '')
    return c


def b_fancy(ctx, op):
    c = Call()
    n, dt, it, m = op['n'], op['dt'], op['it'], op['m']
    v, b = ctx.arr(dt, m, op['v'], op['off'], tuple(op['l']))
    i, ib = ctx.arr(it, n, 'rand', op['off'] + 5, tuple(op['il']))
    info = np.iinfo(it)
    hi = min(m - 1, info.max)
    r = P['u64'][(np.arange(n) + op['off']) % POOLN]
    base = (r % np.uint64(hi + 1)).astype(np.int64)
    if info.min < 0 and op.get('neg'):
        lo = min(m, -info.min)
        neg = -((r >> np.uint64(20)) % np.uint64(lo)).astype(np.int64) - 1
        base = np.where((r >> np.uint64(50)) % np.uint64(3) == 0, neg, base)
    i[...] = base.astype(it)
    oob = op.get('oob')
    bad = None
    if oob and m - 1 < info.max:
        bad = (np.arange(n) + op['off']) % 911 == 0
        span = min(info.max - m, 1 << 40)
        ob = (m + (r >> np.uint64(8)) % np.uint64(span + 1)).astype(np.uint64).astype(it)
        if info.min < 0 and -m - 1 > info.min:
            ob2 = (-m - 1 - ((r >> np.uint64(9)) % np.uint64(min(-m - 1 - info.min, 1 << 40) + 1)).astype(np.int64)).astype(it)
            ob = np.where((r & np.uint64(1)) == 0, ob, ob2)
        i[bad] = ob[bad]
    c.ins = (v, i)
    api = op['api']
    de = op.get('default')
    if api == 'getitem':
        if de is not None:
            kd = np.dtype(dt).kind
            dv = {'f': float, 'i': int, 'u': int, 'b': bool, 'c': complex, 'U': str}.get(kd, lambda x: x)(de)
            if kd == 'S':
                dv = str(de).encode()
            elif kd == 'V':
                dv = bytes([65 + de % 26]) * np.dtype(dt).itemsize
            elif kd in 'mM':
                dv = np.dtype(dt).type(de, np.datetime_data(dt)[0])
            elif op.get('npdef'):
                dv = np.dtype(dt).type(dv)
            want1 = np.zeros(1, dt)
            want1[0] = dv
            c.fn = lambda: ctx.pnc.getitem(v, i, dv)
        else:
            c.fn = lambda: ctx.pnc.getitem(v, i)
    else:
        def fn():
            ctx.pnc.hook_enable()
            try:
                return v[i]
            finally:
                ctx.pnc.hook_disable()
        c.fn = fn

    def ref():
        ii = i.astype(np.int64) if info.min < 0 else i.astype(np.uint64)
        if bad is None:
            return v[i]
        safe = np.where(bad, np.zeros_like(i), i)
        out = v[safe]
        return out
    c.ref = ref

    def cmpref(exp, got):
        if bad is not None:
            e2, g2 = exp[~bad], got[~bad]
            c.compare(e2, g2, "NumPy's own result")
            gb = got[bad]
            if de is not None:
                want = np.repeat(want1, len(gb))
                if not bits_equal(want, gb):
                    raise Viol('mismatch', '%s: an out-of-range index did not give the default' % c.name)
            elif len(gb) and np.dtype(dt).kind in 'iuf' and not bits_equal(gb[:1], np.array([np.iinfo(dt).min if np.dtype(dt).kind == 'i' else np.iinfo(dt).max if np.dtype(dt).kind == 'u' else np.nan], dt)):
                raise Viol('mismatch', '%s: an out-of-range index gave %r instead of the invalid value' % (c.name, gb[0]))
            elif len(gb) and not bits_equal(gb, np.repeat(gb[:1], len(gb))):
                raise Viol('mismatch', '%s: out-of-range indices do not all give the default' % c.name)
        else:
            c.compare(exp, got, "NumPy's own result")
    c.cmpref = cmpref
    c.name = '%s(%s step %s, %s index n=%d%s%s)' % (api, dt, op['l'], it, n, ', out of range' if oob else '', ', default' if de is not None else '')
    return c


# ------------------------------------------------------------------------------------------------ arange / recarray
def b_arange(ctx, op):
    c = Call()
    dt = np.dtype(op['dt'])
    n = op['n']
    start, step = op['start'], op['step']
    if dt.kind in 'mM':
        s, t = start, step
        a0 = np.dtype('M8[s]').type(int(s), 's') if dt.kind == 'M' else np.timedelta64(int(s), 's')
        td = np.timedelta64(int(t), 's')
        c.fn = lambda: np.arange(a0, a0 + td * n, td)
    elif op.get('py'):
        c.fn = lambda: np.arange(start, start + step * (n - 0.5), step, dtype=dt)
    elif dt.kind == 'f':
        t = dt.type
        c.fn = lambda: np.arange(t(start), t(start) + t(step) * t(n - 0.5), t(step), dtype=dt)
    else:
        c.fn = lambda: np.arange(start, start + step * n, step, dtype=dt)
    c.ref = c.fn
    c.name = 'np.arange(%r, step=%r, n=%d, %s)' % (start, step, n, dt)
    return c


def b_rec(ctx, op):
    c = Call()
    flds = [tuple(x) if len(x) == 2 else (x[0], x[1], tuple(x[2])) for x in op['fields']]
    if op.get('offsets'):
        dt = np.dtype({'names': [f[0] for f in flds], 'formats': [f[1] if len(f) == 2 else (f[1], f[2]) for f in flds], 'offsets': op['offsets'], 'itemsize': op['itemsize']})
    else:
        dt = np.dtype(flds, align=bool(op.get('align')))
    n = op['n']
    step, lead = op['l']
    total = max(n - 1, 0) * abs(step) + 1 + lead
    raw = np.empty(total * dt.itemsize, np.uint8)
    w = P['words'].reshape(-1)
    o = op['off']
    raw[:] = np.resize(w[o:o + 1000003], raw.size)
    base = raw.view(dt)
    a = base[lead::abs(step)][:n]
    if step < 0:
        a = a[::-1]
    if op.get('rows'):
        r = op['rows']
        a = np.ascontiguousarray(a[:n // r * r]).reshape(r, n // r)
        raw = a.reshape(-1).view(np.uint8)
    c.ins = (raw,)
    par = op.get('parallel', True)
    c.fn = lambda: ctx.pn.recarray_to_colmajor(a, parallel=par)

    def ref():
        return {k: np.ascontiguousarray(a[k]) if not op.get('flat') else a[k].copy() for k in dt.names}
    c.ref = ref

    def cmpref(exp, got):
        if not isinstance(got, dict) or list(got) != list(exp):
            raise Viol('mismatch', '%s: returned %r' % (c.name, type(got)))
        for k in exp:
            if not isinstance(got[k], np.ndarray) or got[k].shape != exp[k].shape or got[k].dtype != exp[k].dtype or np.ascontiguousarray(got[k]).tobytes() != np.ascontiguousarray(exp[k]).tobytes():
                raise Viol('mismatch', '%s: field %s: %s' % (c.name, k, explain(exp[k], got[k])))
            if not got[k].flags.c_contiguous:
                raise Viol('mismatch', '%s: field %s is not contiguous' % (c.name, k))

    def cmp(exp, got, what):
        cmpref(exp, got)
    c.compare = cmp
    c.cmpref = cmpref
    c.name = 'recarray_to_colmajor(%d fields, itemsize %d, n=%d, step %d%s%s)' % (len(flds), dt.itemsize, n, step, ', %d rows' % op['rows'] if op.get('rows') else '', '' if par else ', serial')
    return c


# ------------------------------------------------------------------------------------------------ FP errors
def b_fperr(ctx, op):
    c = Call()
    f = getattr(np, op['f'])
    n, dt = op['n'], op['dt']
    a, _ = ctx.arr(dt, n, op['v'][0], op['off'], tuple(op['l']))
    args = [a]
    if f.nin == 2:
        b, _ = ctx.arr(dt, n, op['v'][1], op['off'] + 777)
        args.append(b)
    pos = op['pos'] % n
    if op['bad'] is not None:
        for k, x in enumerate(op['bad'][:f.nin]):
            if x is not None:
                args[k][pos] = np.dtype(dt).type(float(x))
    c.ins = tuple(args)

    def fn():
        seen = []
        old = np.seterrcall(lambda s, fl: seen.append(s))
        with np.errstate(all='call'):
            f(*args) if not op.get('reduce') else f.reduce(args[0])
        np.seterrcall(old)
        return sorted(set(seen))
    c.fn = fn
    c.name = 'floating-point errors reported by np.%s%s(%s, n=%d, bad value %s at %d)' % (op['f'], '.reduce' if op.get('reduce') else '', dt, n, op['bad'], pos)
    return c


def special(dt, t):
    d = np.dtype(dt)
    i = np.finfo(d) if d.kind == 'f' else np.iinfo(d)
    if t.lstrip('-') in ('max', 'min'):
        return {'max': i.max, 'min': i.min, '-max': -i.max}[t]
    if t in ('tiny', 'sub'):
        return i.tiny if t == 'tiny' else i.smallest_subnormal
    if d.kind == 'f':
        with np.errstate(all='ignore'):
            return d.type(float(t))
    x = int(float(t))
    return x if x >= i.min else i.max


def b_fpany(ctx, op):
    c = Call()
    f = getattr(np, op['f'])
    n, dt = op['n'], op['dt']
    args = [ctx.arr(dt, n, op['v'][0], op['off'], tuple(op['l']))[0].copy()]
    if f.nin == 2:
        args.append(ctx.arr(dt, n, op['v'][1] if len(op['v']) > 1 else op['v'][0], op['off'] + 777)[0].copy())
    for pos, x, y in op['bad']:
        args[0][pos % n] = special(dt, x)
        if f.nin == 2:
            args[1][pos % n] = special(dt, y)
    c.ins = tuple(args)

    def fn():
        if op['mode'] == 'raise':
            try:
                with np.errstate(all='raise', under='ignore'):
                    f(*args)
            except FloatingPointError as e:
                return str(e)
            return ''
        seen = []
        old = np.seterrcall(lambda s, fl: seen.append(s))
        try:
            with np.errstate(all='call', under='ignore'):
                f(*args)
        finally:
            np.seterrcall(old)
        return sorted(set(seen))
    c.fn = fn
    c.name = 'floating-point errors (%s) reported by np.%s(%s, n=%d, %s)' % (op['mode'], op['f'], dt, n, op['bad'])
    return c


# ------------------------------------------------------------------------------------------------ cheap history ops
def b_mini(ctx, op):
    """small threaded operations over int8 data with a precomputed answer"""
    c = Call()
    return c


class Mini:
    """A bank of cheap threaded calls used for long histories."""

    def __init__(self, ctx, n=65536):
        ctx.quiet()
        self.ctx = ctx
        self.n = n
        self.a = pooldata('b', 'rand', n, 3).copy()
        self.b = pooldata('b', 'rand', n + 300, 4111)[300:].copy()
        self.f = pooldata('f', 'rand', n, 77).copy()
        self.exp = {}
        self.ops = {
            'add8': lambda: np.add(self.a, self.b),
            'sub8': lambda: np.subtract(self.a, self.b),
            'max8': lambda: np.maximum(self.a, self.b),
            'and8': lambda: np.bitwise_and(self.a, self.b),
            'lt8': lambda: np.less(self.a, self.b),
            'neg8': lambda: np.negative(self.a),
            'sum8': lambda: np.add.reduce(self.a),
            'maxr8': lambda: np.maximum.reduce(self.a),
            'abs8': lambda: np.abs(self.b),
            'mul8': lambda: np.multiply(self.a, self.b),
            'bool8': lambda: self.ctx.pnc.getitem(self.a, self.m),
            'get8': lambda: self.ctx.pnc.getitem(self.small, self.ix),
            'ar16': lambda: np.arange(0, 65536, dtype=np.int32),
            'sort8': lambda: self.ctx.pnc.sort(self.b[:20000]),
            'rec': lambda: self.ctx.pn.recarray_to_colmajor(self.rec)['y'],
        }
        self.m = pooldata('?', 'rand', n, 9).copy()
        self.small = np.arange(100, dtype=np.int8)
        self.ix = (self.a % 100).astype(np.int8)
        self.rec = np.zeros(16400, dtype=[('x', 'i1'), ('y', 'i1')])
        self.rec['y'] = self.b[:16400]
        for k, f in self.ops.items():
            try:
                self.exp[k] = snap(f())
            except Exception:
                self.exp[k] = None

    def run(self, name):
        return self.ops[name]()


def op_hist(ctx, op):
    """a long history of cheap calls; every result is checked"""
    m = Mini(ctx)
    ctx.loud(op.get('atop', 1))
    names = [k for k in op['mix'] if m.exp.get(k) is not None]
    x = op['off'] * 2654435761 % 4294967296
    base = ctx.opi
    for i in range(op['count']):
        x = (x * 1103515245 + 12345) % 2147483648
        k = names[(x >> 8) % len(names)]
        ctx.opi = base
        ctx.s.begin(base * 100000 + i)
        try:
            r = m.run(k)
        except Exception as e:
            ctx.s.end()
            raise Viol('exception', 'call %d of the history (%s) raised %r' % (i, k, e))
        ctx.s.end()
        ctx.checks += 1
        e = m.exp[k]
        if isinstance(r, np.ndarray):
            if r.dtype != e.dtype or r.tobytes() != e.tobytes():
                ctx.quiet()
                raise Viol('mismatch', 'call %d of the history (%s): %s' % (i, k, explain(e, r)))
        elif r != e:
            raise Viol('mismatch', 'call %d of the history (%s): got %r instead of %r' % (i, k, r, e))
        if op.get('churn') and i % op['churn'] == op['churn'] - 1:
            ctx.pn.thread_setworkers(1 + (x >> 4) % 15)
        if op.get('idle') and (x >> 3) % 7 == 0:
            ctx.s.idle(op['idle'], False)
    ctx.s.probe(1) if op['count'] > 1024 else None
    ctx.quiet()


# ------------------------------------------------------------------------------------------------ concurrent callers
TYPES = {c: np.dtype(c).num for c in '?bBhHiIlLqQfdg'}


def client_call(ctx, k):
    """-> (call tuple for simrt.spawn, check function, keepalive)"""
    kind, dt, n, off = k['kind'], k['dt'], k['n'], k['off']
    if kind in ('bin', 'un', 'red'):
        f = getattr(np, k['f'])
        ch = np.dtype(dt)
        a = ctx.arr(dt, n, k.get('v', 'rand'), off)[0]
        ins = [a]
        if kind == 'bin':
            b = ctx.arr(dt, n, k.get('v', 'rand'), off + 123)[0]
            ins.append(b)
        if kind == 'red':
            exp = f.reduce(a)
            if np.asarray(exp).dtype != ch:
                exp = f.reduce(a, dtype=ch)
            lp = ctx.s.ufunc_loop(f, (ch.num,) * 3)
            if lp is None:
                return None
            out = np.empty(4096 * 4, ch)
            out[0] = {'add': 0, 'multiply': 1}.get(k['f'], a[0])
            if k['f'] == 'bitwise_xor':
                out[0] = 0
            call = (0, lp[0], (addr(out), addr(a), addr(out)), n, (0, ch.itemsize, 0), lp[1], None)

            def chk():
                g = out[0]
                if ch.kind == 'f' and k['f'] in ('add', 'multiply'):
                    ok = abs(float(g) - float(exp)) <= 1e-3 * float(np.abs(a).sum()) if k['f'] == 'add' else np.isclose(float(g), float(exp), rtol=1e-3)
                else:
                    ok = (g == exp) or (g != g and exp != exp)
                if not ok:
                    raise Viol('mismatch', 'concurrent np.%s.reduce(%s, n=%d): got %r instead of %r' % (k['f'], dt, n, g, exp))
            return call, chk, (a, out)
        exp = f(*ins)
        ctx.serial(1)
        alt = f(*ins)          # pnumpy's own kernel may round differently
        ctx.quiet()
        lp = ctx.s.ufunc_loop(f, tuple([ch.num] * len(ins) + [exp.dtype.num]))
        if lp is None:
            return None
        v, big = ctx.outbuf(exp.dtype, n, (1, 0))
        pp = [addr(x) for x in ins] + [addr(v)]
        st = [x.itemsize for x in ins] + [v.itemsize]
        while len(pp) < 3:
            pp.append(0)
            st.append(0)
        call = (0, lp[0], tuple(pp), n, tuple(st), lp[1], None)

        def chk():
            g = v.copy()
            if not bits_equal(alt, g) and not (k['f'] in ROUNDED and close(alt, g)) and not bits_equal(np.where((g == alt) | (g != g) & (alt != alt), alt, exp), g):
                raise Viol('mismatch', 'concurrent np.%s(%s, n=%d): %s' % (k['f'], dt, n, explain(alt, g)))
            ctx.check_outside(v, big, 'concurrent np.%s' % k['f'])
        return call, chk, (ins, v, big)
    if kind == 'sort':
        a = ctx.arr(dt, n, k.get('v', 'rand'), off)[0]
        exp = np.sort(a)
        w = a.copy()
        fn = ctx.s.dtype_fn(w.dtype, 'sort', 2 if k.get('stable') else 0)
        call = (1, fn, (addr(w), 0, 0), n, (0, 0, 0), 0, w)

        def chk():
            if not bits_equal(exp, w):
                raise Viol('mismatch', 'concurrent sort(%s, n=%d): %s' % (dt, n, explain(exp, w)))
        return call, chk, (w,)
    if kind == 'argsort':
        a = ctx.arr(dt, n, k.get('v', 'small'), off)[0]
        exp = np.sort(a)
        ix = np.arange(n)
        fn = ctx.s.dtype_fn(a.dtype, 'argsort', 2)
        call = (2, fn, (addr(a), addr(ix), 0), n, (0, 0, 0), 0, a)

        def chk():
            check_perm(ix, n, 'concurrent argsort(%s)' % dt)
            if not bits_equal(a[ix], exp):
                raise Viol('mismatch', 'concurrent argsort(%s, n=%d) does not sort' % (dt, n))
            check_stable(a[ix], ix, 'concurrent argsort(%s)' % dt)
        return call, chk, (a, ix)
    if kind == 'fill':
        st, sp = k.get('start', 1), k.get('step', 3)
        exp = np.arange(n, dtype=dt)
        w = np.empty(n, dt)
        exp[0] = st
        exp[1] = np.dtype(dt).type(st) + np.dtype(dt).type(sp)
        w[:2] = exp[:2]
        # NumPy's definition
        e2 = (exp[0] + np.arange(n).astype(dt) * (exp[1] - exp[0])).astype(dt)
        fn = ctx.s.dtype_fn(w.dtype, 'fill', 0)
        call = (3, fn, (addr(w), 0, 0), n, (0, 0, 0), 0, w)

        def chk():
            if not bits_equal(e2, w):
                raise Viol('mismatch', 'concurrent arange(%s, n=%d): %s' % (dt, n, explain(e2, w)))
        return call, chk, (w,)
    if kind == 'argm':
        a = ctx.arr(dt, n, k.get('v', 'small'), off)[0]
        exp = int(getattr(a, k['f'])())
        res = np.full(1, -1, np.intp)
        fn = ctx.s.dtype_fn(a.dtype, k['f'], 0)
        call = (4, fn, (addr(a), addr(res), 0), n, (0, 0, 0), 0, a)

        def chk():
            if int(res[0]) != exp:
                raise Viol('mismatch', 'concurrent %s(%s, n=%d): %d instead of %d' % (k['f'], dt, n, int(res[0]), exp))
        return call, chk, (a, res)
    if kind == 'switch':
        fn, args = k['f'], tuple(k.get('args', ()))
        cf = ctx.s.cfunc(getattr(ctx.pnc, fn))
        call = (6, cf, (0, 0, 0), 0, (0, 0, 0), 0, args)
        return call, (lambda: None), (args,)
    raise ValueError(kind)


def op_conc(ctx, op):
    ctx.quiet()
    cl = []
    keep = []
    for seq in op['clients']:
        calls, chks = [], []
        for k in seq:
            ctx.quiet()
            r = client_call(ctx, k)
            if r is None:
                continue
            calls.append(r[0])
            chks.append(r[1])
            keep.append(r[2])
        cl.append((calls, chks))
    # main thread's own operations
    mains = []
    for mo in op['main']:
        ctx.quiet()
        c = BUILD[mo['k']](ctx, mo)
        exp_s = None
        if not mo.get('noserial'):
            ctx.serial(op.get('atop', 1))
            try:
                exp_s = snap(c.fn())
            except Exception as ex:
                if not (c.refuse and isinstance(ex, c.refuse)):
                    raise Viol('exception', '%s raised %s with threading off: %s' % (c.name, type(ex).__name__, str(ex)[:200]))
                continue
        ctx.quiet()
        ref = snap(c.ref()) if c.ref and mo.get('useref', 1) else None
        mains.append((mo, c, exp_s, ref))
    ctx.loud(op.get('atop', 1))
    if op.get('ledger'):
        ctx.pn.ledger_enable()
    ids = [ctx.s.spawn(calls) for calls, _ in cl if calls]
    chk = [ch for calls, ch in cl if calls]
    res = []
    for mo, c, exp_s, ref in mains:
        got, e = ctx.run(c.fn)
        if e is not None:
            raise Viol('exception', '%s raised %s: %s while other threads were busy' % (c.name, type(e).__name__, e))
        res.append((mo, c, exp_s, ref, got, snap(got)))
    rets = [ctx.s.join(i) for i in ids]
    if op.get('ledger'):
        ctx.pn.ledger_disable()
    ctx.quiet()
    ctx.s.idle(op.get('idle', 0), False)
    for mo, c, exp_s, ref, got, sn in res:
        if exp_s is not None:
            c.compare(exp_s, sn, 'the same call alone with threading off')
        if ref is not None:
            c.cmpref(ref, sn)
        if not same(sn, snap(got)):
            raise Viol('late-write', '%s: result changed after return' % c.name)
        ctx.checks += 1
    for r, ch in zip(rets, chk):
        for x, f in zip(r, ch):
            if x[0] < 0:
                raise Viol('error-return', 'a concurrent call failed with %d' % x[0])
            f()
            ctx.checks += 1
    return rets


# ------------------------------------------------------------------------------------------------ generic dispatch
BUILD = {'at': b_at, 'fpany': b_fpany, 'red': b_red, 'acc': b_acc, 'reduceat': b_reduceat, 'overlap': b_overlap, 'ew': b_ew, 'sort': b_sort, 'argsort': b_argsort,
         'lexsort': b_lexsort, 'bmask': b_bmask, 'fancy': b_fancy, 'arange': b_arange, 'rec': b_rec, 'fperr': b_fperr,
         'argm': b_argm, 'search': b_search}


def op_settings(ctx, op):
    """checks the query functions against a model of the switches"""
    pn = ctx.pn
    mod = ctx.model = getattr(ctx, 'model', None) or {'atop': pn.atop_isenabled(), 'thread': pn.thread_isenabled(), 'ledger': pn.ledger_isenabled(), 'recycler': pn.recycler_isenabled(), 'w': pn.thread_getworkers(), 'fw': {}, 'hook': False}
    mod['atop'], mod['thread'] = pn.atop_isenabled(), pn.thread_isenabled()
    cfg = ctx.spec['cfg']
    nw = max(0, min(cfg['ncpu'], 15) - 1)
    if cfg.get('aff') in (3, 4):      # the CPUs cannot be counted
        nw = 4
    for a in op['acts']:
        k = a[0]
        ctx.s.fault(10)
        if k in ('atop', 'thread', 'ledger', 'recycler'):
            getattr(pn, '%s_%s' % (k, 'enable' if a[1] else 'disable'))()
            mod[k] = bool(a[1])
        elif k == 'workers':
            prev = pn.thread_setworkers(a[1])
            if prev != mod['w']:
                raise Viol('switch', 'thread_setworkers(%d) returned %r as the previous value, it was %r' % (a[1], prev, mod['w']))
            mod['w'] = min(max(1, a[1]), 15, nw)
        elif k == 'fw':
            prev = pn.atop_setworkers(a[1], a[2], a[3])
            key = (a[1], a[2])
            if mod['atop'] and 0 <= a[3] < 64:
                if key in mod['fw'] and prev != mod['fw'][key]:
                    raise Viol('switch', 'atop_setworkers(%r) returned %r as the previous value, it was %r' % (key, prev, mod['fw'][key]))
                if prev is not False:
                    mod['fw'][key] = a[3]
                    inf = pn.atop_info(a[1], a[2])
                    if inf['MaxThreads'] != a[3]:
                        raise Viol('switch', 'atop_info reports %r workers after atop_setworkers(%d)' % (inf['MaxThreads'], a[3]))
        elif k == 'zigzag':
            r = pn.thread_zigzag()
            exp = not mod.get('zz', False)
            if bool(r) != exp:
                raise Viol('switch', 'thread_zigzag() returned %r' % (r,))
            mod['zz'] = exp
        elif k == 'enable':
            pn.enable()
            mod['atop'] = mod['thread'] = True
        elif k == 'disable':
            pn.disable()
            mod['atop'] = mod['thread'] = False
        elif k == 'hook':
            r = (ctx.pnc.hook_enable if a[1] else ctx.pnc.hook_disable)()
            exp = mod['hook'] != bool(a[1])
            if bool(r) != exp:
                raise Viol('switch', 'hook_%s() returned %r' % ('enable' if a[1] else 'disable', r))
            mod['hook'] = bool(a[1])
        got = {'atop': pn.atop_isenabled(), 'thread': pn.thread_isenabled(), 'ledger': pn.ledger_isenabled(), 'recycler': pn.recycler_isenabled(), 'w': pn.thread_getworkers()}
        for q, v in got.items():
            if v != mod[q]:
                raise Viol('switch', 'after %r the query for %r reports %r instead of %r' % (a, q, v, mod[q]))
        ctx.checks += 1
    if mod['hook']:
        ctx.pnc.hook_disable()
        mod['hook'] = False
    if mod.get('ledger'):
        pn.ledger_disable()
        mod['ledger'] = False


def op_fork(ctx, op):
    """fork now; run the inner operations in the child; the parent continues"""
    calls, chks, keep = [], [], []
    ctx.quiet()
    for seq in op.get('clients', ()):       # other threads of the parent are in the middle of something
        l = [x for x in (client_call(ctx, k) for k in seq) if x]
        ctx.quiet()
        calls.append([x[0] for x in l])
        chks.append([x[1] for x in l])
        keep.append(l)
    if calls:
        ctx.loud()
    ids = [ctx.s.spawn(c) for c in calls]
    if ids:
        ctx.s.idle(op['lead'], True)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import json
        res = None
        try:
            os.close(r)
            ctx.s.after_fork()
            for o in op['child']:
                run_op(ctx, o)
            res = {'ok': ctx.checks}
        except Viol as v:
            res = {'kind': v.kind, 'msg': 'in the forked child: ' + v.msg}
        except BaseException as e:
            import traceback
            res = {'err': traceback.format_exc()[-1500:]}
        os.write(w, json.dumps(res).encode())
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) >= 70:
        os._exit(os.WEXITSTATUS(st))      # the verdict is already in the shared record
    if not buf:
        raise Viol('crash', 'the forked child died (status %r)' % st)
    rets = [ctx.s.join(i) for i in ids]
    ctx.quiet()
    for x, ch in zip(rets, chks):
        for y, chk in zip(x, ch):
            if y[0] < 0:
                raise Viol('error-return', 'a call running when the process forked failed with %d' % y[0])
            chk()
            ctx.checks += 1
    import json
    d = json.loads(buf)
    if 'err' in d:
        raise RuntimeError(d['err'])
    if 'kind' in d:
        raise Viol(d['kind'], d['msg'])
    ctx.checks += d['ok']


def op_leak(ctx, op):
    """more failing calls than the queue of work items is long; then work must still be shared among the threads"""
    a = pooldata('b', 'rand', 65536, op['off']).copy()

    def threaded():
        n0 = ctx.s.state()[5]
        ctx.loud()
        r, e = ctx.run(lambda: np.add(a, a))
        ctx.quiet()
        if e is not None or r.tobytes() != exp.tobytes():
            raise Viol('mismatch', 'np.add after %d failing calls: %r' % (done, e))
        return ctx.s.state()[5] - n0
    ctx.quiet()
    exp = np.add(a, a)
    done = 0
    before = threaded()
    calls = []
    for o in op['ops']:
        c = BUILD[o['k']](ctx, o)
        ctx.serial()
        try:
            want = snap(c.fn())
        except Exception as ex:
            if c.refuse and isinstance(ex, c.refuse):
                continue
            raise
        calls.append((o, c, want))
    ctx.loud()
    for i in range(op['count'] if calls else 0):
        o, c, want = calls[i % len(calls)]
        ctx.loud()
        got, e = ctx.run(c.fn, 2)
        done += 1
        if e is not None:
            if not isinstance(e, (MemoryError, ValueError) + c.failexc):
                raise Viol('exception', '%s raised %s: %s' % (c.name, type(e).__name__, e))
            ctx.exc += 1
            ctx.s.probe(7)
        elif i < 8 or i % 64 == 0:
            ctx.quiet()
            c.compare(want, snap(got), 'the same call with threading off')
    after = threaded()
    if before and not after:
        raise Viol('queue-leak', 'after %d calls of %s whose allocations failed, operations are no longer shared among the threads' % (done, [c.name for _, c, _ in calls]))
    ctx.checks += 1


def op_worker_events(ctx, op):
    """spurious wake-ups, workers that finally get a CPU, quiet periods"""
    if op.get('spur'):
        ctx.s.spurious(op['spur'])
    if op.get('release'):
        ctx.s.release()
    if op.get('idle'):
        ctx.s.idle(op['idle'], bool(op.get('force')))
    for k, v in op.get('setp', {}).items():
        ctx.s.setp(k, v)


def op_set(ctx, op):
    if 'workers' in op:
        ctx.pn.thread_setworkers(op['workers'])
    if op.get('zigzag'):
        ctx.pn.thread_zigzag()
    for f, d, w in op.get('fw', ()):
        ctx.pn.atop_enable()
        ctx.pn.atop_setworkers(f, d, w)


def op_ledger(ctx, op):
    """the operation again with the ledger on"""
    ctx.quiet()
    c = BUILD[op['op']['k']](ctx, op['op'])
    ctx.serial(op['op'].get('atop', 1))
    try:
        exp = snap(c.fn())
    except Exception as ex:
        if c.refuse and isinstance(ex, c.refuse):
            return
        raise Viol('exception', '%s raised %s with threading off: %s' % (c.name, type(ex).__name__, str(ex)[:200]))
    ctx.loud(op['op'].get('atop', 1))
    ctx.pn.ledger_enable()
    got, e = ctx.run(c.fn)
    on = ctx.pn.ledger_isenabled()
    ctx.pn.ledger_disable()
    off = ctx.pn.ledger_isenabled()
    ctx.quiet()
    if e is not None:
        raise Viol('exception', '%s with the ledger on raised %s: %s' % (c.name, type(e).__name__, e))
    if not on:
        raise Viol('switch', 'the ledger switched itself off during %s' % c.name)
    if off:
        raise Viol('switch', 'ledger_disable() left the ledger on')
    c.compare(exp, snap(got), 'the same call with the ledger off')
    ctx.checks += 1


def op_ledgerconc(ctx, op):
    """ledger switched by another thread while operations run: the last switch wins"""
    ctx.pn.ledger_enable() if op['start'] else ctx.pn.ledger_disable()
    rets = op_conc(ctx, dict(op, ledger=0))
    want = op['final']
    got = ctx.pn.ledger_isenabled()
    ctx.pn.ledger_disable()
    if bool(got) != bool(want):
        raise Viol('switch', 'the ledger was switched %s while operations were running, but is %s once they finished' % ('on' if want else 'off', 'on' if got else 'off'))


def op_concsw(ctx, op):
    """concurrent callers plus a thread flipping switches; results must not change"""
    op_conc(ctx, op)
    ctx.s.fault(10)


class FakeRaw(io.RawIOBase):
    """a host file: short reads, an error after some bytes"""
    def __init__(self, data, chunk, eio):
        self.d, self.c, self.e, self.o = data, chunk, eio, 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.e is not None and self.o >= self.e:
            raise OSError(errno.EIO, 'Input/output error')
        n = min(len(b), self.c, len(self.d) - self.o)
        if self.e is not None:
            n = min(n, self.e - self.o)
        b[:n] = self.d[self.o:self.o + n]
        self.o += n
        return n


class FakeHost:
    """/proc and /sys/devices/system/cpu as the seed wants them, behind the functions Python code reads them with"""
    def __init__(self, files, dirs, openerr, eio, chunk, order, sysconf):
        self.f, self.d, self.oe, self.eio, self.chunk, self.order, self.sc = files, dirs, openerr, eio, chunk, order, sysconf

    def mine(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        p = os.path.normpath(p)
        return p if p in ('/proc/cpuinfo', '/proc/stat') or p.startswith('/sys/devices/system/cpu') else None

    def __enter__(self):
        import builtins
        R = self.real = {k: getattr(os, k) for k in ('scandir', 'listdir', 'lstat', 'stat', 'sysconf')}
        self.open = builtins.open

        def err(n, p):
            return OSError(n, os.strerror(n), p)

        def stat(p, **kw):
            q = self.mine(p) if not isinstance(p, int) else None
            if q is None:
                return R['stat'](p, **kw)
            if q in self.f or q in self.d:
                return R['stat']('/dev/null' if q in self.f else '/')
            raise err(errno.ENOENT, q)

        def names(q):
            if q not in self.d:
                raise err(errno.ENOENT, q)
            l = list(self.d[q])
            self.order.shuffle(l)
            return l

        class Entry:
            def __init__(e, q, name):
                e.name, e.path = name, q + '/' + name

            def is_dir(e, **kw):
                return e.path in self.d

            def is_file(e, **kw):
                return e.path in self.f

            def is_symlink(e):
                return False

        class It(list):
            def __enter__(e):
                return e

            def __exit__(e, *a):
                pass

            def close(e):
                pass

        def scandir(p='.'):
            q = self.mine(p) if not isinstance(p, int) else None
            return R['scandir'](p) if q is None else It(Entry(q, n) for n in names(q))

        def listdir(p='.'):
            q = self.mine(p) if not isinstance(p, int) else None
            return R['listdir'](p) if q is None else names(q)

        def fopen(p, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            q = self.mine(p) if not isinstance(p, int) else None
            if q is None:
                return self.open(p, mode, buffering, encoding, errors, newline, closefd, opener)
            if q in self.oe:
                raise err(self.oe[q], q)
            if q not in self.f:
                raise err(errno.ENOENT, q)
            r = io.BufferedReader(FakeRaw(self.f[q], self.chunk, self.eio.get(q)))
            return r if 'b' in mode else io.TextIOWrapper(r, encoding, errors, newline)

        def sysconf(n):
            if n in ('SC_NPROCESSORS_ONLN', 'SC_NPROCESSORS_CONF', os.sysconf_names.get('SC_NPROCESSORS_ONLN'), os.sysconf_names.get('SC_NPROCESSORS_CONF')):
                if isinstance(self.sc, Exception):
                    raise self.sc
                return self.sc
            return R['sysconf'](n)
        os.scandir, os.listdir, os.lstat, os.stat, os.sysconf = scandir, listdir, stat, stat, sysconf
        builtins.open = io.open = fopen

    def __exit__(self, *a):
        import builtins
        for k, v in self.real.items():
            setattr(os, k, v)
        builtins.open = io.open = self.open


def op_host(ctx, op):
    """CPU counting, start-up and the clock on a host whose files and clock misbehave"""
    import random
    r = random.Random(op['rs'])
    pn = ctx.pn
    ctx.quiet()
    cores, smt, sock = op['cores'], op['smt'], op['sockets']
    n = cores * smt * sock
    files, dirs, oe, eio = {}, {'/sys/devices/system/cpu': ['online', 'possible', 'cpufreq', 'cpuidle', 'power']}, {}, {}
    for x in ('cpufreq', 'cpuidle', 'power'):
        dirs['/sys/devices/system/cpu/' + x] = []
    sib = {i: ','.join(str(i % (cores * sock) + k * cores * sock) for k in range(smt)) for i in range(n)}
    alive, newest = set(), op['topo'] in ('both', 'new')
    for i in range(n):
        d = '/sys/devices/system/cpu/cpu%d' % i
        dirs['/sys/devices/system/cpu'].append('cpu%d' % i)
        dirs[d] = []
        if op['topo'] == 'none':
            continue
        dirs[d].append('topology')
        dirs[d + '/topology'] = []
        for name in {'both': ['core_cpus_list', 'thread_siblings_list'], 'new': ['core_cpus_list'], 'old': ['thread_siblings_list']}[op['topo']]:
            dirs[d + '/topology'].append(name)
            files[d + '/topology/' + name] = (sib[i] + '\n').encode()
        if r.random() < op['vanish']:
            e = r.choice([errno.ENOENT, errno.ENOENT, errno.EIO, errno.EACCES])
            for name in dirs[d + '/topology']:
                oe[d + '/topology/' + name] = e
                if e == errno.EIO and r.random() < 0.5:
                    del oe[d + '/topology/' + name]
                    eio[d + '/topology/' + name] = 0
                ctx.s.fault(15)
        else:
            alive.add(i)
    info = []
    for i in range(n):
        info.append('processor\t: %d\nvendor_id\t: GenuineIntel\nflags\t\t: fpu avx2\n' % i)
        if op['info'] != 'noid':
            info.append('physical id\t: %d\nsiblings\t: %d\ncore id\t\t: %d\ncpu cores\t: %d\n' % (i % (cores * sock) // cores, cores * smt, i % cores, cores))
        info.append('bogomips\t: 4800.00\n\n')
    files['/proc/cpuinfo'] = ''.join(info).encode()
    files['/proc/stat'] = ('cpu  1 2 3\n' + ''.join('cpu%d 1 2 3 4\n' % i for i in range(n)) + 'intr 5 6\nctxt 7\n').encode()
    for name, how in (('/proc/cpuinfo', op['info']), ('/proc/stat', op['stat'])):
        if how in ('missing', 'eacces'):
            oe[name] = errno.ENOENT if how == 'missing' else errno.EACCES
        elif how == 'eio':
            eio[name] = r.randrange(len(files[name]))
        elif how == 'trunc':
            files[name] = files[name][:r.randrange(len(files[name]))]
        if how not in ('ok', 'noid'):
            ctx.s.fault(15)
    sc = {'ok': n, 'valueerror': ValueError('unrecognized configuration name'), 'oserror': OSError(errno.EINVAL, 'Invalid argument')}[op['sysconf']]
    if op['sysconf'] != 'ok':
        ctx.s.fault(15)
    st0 = (pn.atop_isenabled(), pn.thread_isenabled(), pn.thread_getworkers())
    with FakeHost(files, dirs, oe, eio, op['chunk'], r, sc):
        try:
            got = pn.cpu_count_linux()
        except Exception as e:
            raise Viol('exception', 'cpu_count_linux raised %s: %s (sysconf %s, topology %s, cpuinfo %s, stat %s)' % (type(e).__name__, e, op['sysconf'], op['topo'], op['info'], op['stat']))
        try:
            pn.init()
        except Exception as e:
            raise Viol('exception', 'init raised %s: %s (sysconf %s, topology %s, cpuinfo %s, stat %s)' % (type(e).__name__, e, op['sysconf'], op['topo'], op['info'], op['stat']))
    logical, phys = got
    if op['sysconf'] == 'ok':
        okl = {n}
    elif op['info'] in ('ok', 'noid'):
        okl = {n}
    elif op['info'] == 'trunc':
        okl = set(range(1, n + 1)) | {None}
    elif op['stat'] == 'ok':
        okl = {n}
    elif op['stat'] == 'trunc':
        okl = set(range(1, n + 1)) | {None}
    else:
        okl = {None}
    lists = len({sib[i] for i in alive})
    if lists:
        okp = {lists} if len(alive) == n else set(range(lists, cores * sock + 1))
    elif op['info'] == 'ok':
        okp = {cores * sock}
    elif op['info'] == 'trunc':
        okp = set(range(1, cores * sock + 1)) | {None}
    else:
        okp = {None}
    if logical not in okl or phys not in okp:
        raise Viol('host', 'cpu_count_linux returned %r on a host of %d CPUs, %d cores (sysconf %s, topology %s with %d CPUs readable, cpuinfo %s, stat %s)' % (got, n, cores * sock, op['sysconf'], op['topo'], len(alive), op['info'], op['stat']))
    if (pn.atop_isenabled(), pn.thread_isenabled(), pn.thread_getworkers()) != st0:
        raise Viol('switch', 'a second init() changed the switches')
    ctx.checks += 1
    # the clock
    last = None
    for base in op['utc']:
        ctx.s.setp('utc', base)
        c0 = ctx.s.state()[3]
        t = pn.timer_getutc()
        c1 = ctx.s.state()[3]
        if not base * 10 ** 9 + c0 * 20 <= t <= base * 10 ** 9 + c1 * 20:
            raise Viol('clock', 'timer_getutc returned %d when the clock showed %d ns since the epoch' % (t, base * 10 ** 9 + c0 * 20))
        v = pn.timer_gettsc()
        if last is not None and v < last:
            raise Viol('clock', 'timer_gettsc ran backwards')
        last = v
        ctx.checks += 1


def op_bench(ctx, op):
    """benchmark leaves the switches as found, whatever the benchmarked function does"""
    pn = ctx.pn
    (pn.atop_enable if op['atop0'] else pn.atop_disable)()
    (pn.thread_enable if op['thread0'] else pn.thread_disable)()
    w0 = pn.thread_getworkers()
    calls = [0]
    base = getattr(np, op['f'])

    class Boom(Exception):
        pass

    def f(*a, **k):
        calls[0] += 1
        if calls[0] == op['boom']:
            ctx.s.fault(5)
            raise Boom()
        return base(*a, **k)
    kw = {'ctypes': [getattr(np, t) for t in op['types']], 'sizes': [op['n']], 'unary': base.nin == 1, 'atop': bool(op['atop']), 'thread': bool(op['thread']), 'recycle': bool(op['recycle'])}
    r, e = ctx.run(lambda: pn.benchmark_func(f, **kw))
    st = (pn.atop_isenabled(), pn.thread_isenabled(), pn.thread_getworkers())
    ctx.quiet()
    if e is not None and not isinstance(e, Boom):
        raise Viol('exception', 'benchmark_func raised %s: %s' % (type(e).__name__, e))
    if (e is None) != (calls[0] < op['boom']):
        raise Viol('exception', 'benchmark_func swallowed the exception of the benchmarked function')
    if st != (bool(op['atop0']), bool(op['thread0']), w0):
        raise Viol('switch', 'benchmark_func found atop %s, threads %s, %d workers and left atop %s, threads %s, %d workers' % (bool(op['atop0']), bool(op['thread0']), w0, st[0], st[1], st[2]))
    ctx.checks += 1


SPECIAL = {'leak': op_leak, 'host': op_host, 'bench': op_bench, 'hist': op_hist, 'conc': op_conc, 'settings': op_settings, 'fork': op_fork, 'ev': op_worker_events, 'set': op_set,
           'ledger': op_ledger, 'ledgerconc': op_ledgerconc, 'concsw': op_concsw, 'red': op_red}


def _misuse(name):
    def f(ctx, op):
        import misuse
        return getattr(misuse, name)(ctx, op)
    return f


SPECIAL['bad'] = _misuse('op_bad')
SPECIAL['nolk'] = _misuse('op_nolk')


def run_op(ctx, op):
    f = SPECIAL.get(op['k'])
    if f:
        f(ctx, op)
    else:
        ctx.quiet()
        execute(ctx, op, BUILD[op['k']](ctx, op))


def child(simrt, req):
    spec = req['spec']
    simrt.config(spec['cfg'], [tuple(x) for x in req['decisions']] if req.get('decisions') is not None else None)
    import pnumpy as pn
    simrt.ready()
    simrt.handler()
    ctx = Ctx(simrt, pn, spec)
    st = spec.get('set', {})
    if 'workers' in st:
        pn.thread_setworkers(st['workers'])
    if st.get('zigzag'):
        pn.thread_zigzag()
    pn.atop_enable()
    for f, d, w in st.get('fw', ()):
        pn.atop_setworkers(f, d, w)
    try:
        for i, op in enumerate(spec['ops']):
            ctx.opi = i
            run_op(ctx, op)
        ctx.quiet()
        if not st.get('noquiesce'):
            simrt.quiesce()
        simrt.check()
    except Viol as v:
        return {'fail': {'kind': v.kind, 'msg': v.msg, 'op': ctx.opi}, 'checks': ctx.checks}
    return {'checks': ctx.checks, 'exc': ctx.exc, 'state': list(simrt.state())}
