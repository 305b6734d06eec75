"""Calls that cannot be carried out (C21), and the account of what calls leave behind (C22)."""
import sys
import numpy as np
import ops as O

ORDINARY = (TypeError, ValueError, IndexError, OverflowError, AttributeError, ZeroDivisionError, KeyError)
SAME, REFUSE, ANY = 'same', 'refuse', 'any'


class Boom(Exception):
    pass


class Moody:
    """an element whose arithmetic fails"""

    def __init__(self, bad):
        self.bad = bad

    def go(self, o):
        if self.bad:
            raise Boom('element')
        return self
    __add__ = __radd__ = __mul__ = __sub__ = __neg__ = __abs__ = go

    def __lt__(self, o):
        if self.bad:
            raise Boom('element')
        return False


def _np(f):
    """the reference: NumPy's answer or the exception it raises"""
    return ('np', f)


def calls(ctx, op):
    """-> {name: (function, arrays, judgement)}"""
    pn, P = ctx.pn, ctx.pnc
    n, dt, x, t = op['n'], op['dt'], op['x'], op['t']
    d = lambda k=0, c=dt, v='small': O.pooldata(c, v, n, op['off'] + k).copy()
    D = {}

    def add(name, fn, ins=(), judge=REFUSE):
        D[name] = (fn, ins, judge)
    w = op['what']
    it = np.int64 if t % 2 else np.int32
    lex = P.lexsort64 if t % 2 else P.lexsort32
    if w.startswith('lex'):
        a, b = d(), d(99)
        ok = np.arange(n, dtype=it)
        order = lambda *k: np.lexsort(k).astype(it)
        at = 1 + x % (n - 1)
        add('lex-lengths', lambda: lex([a, b[:at]]), (a, b))
        add('lex-lengths2', lambda: lex(a[:at], b), (a, b))
        add('lex-pn-lengths', lambda: pn.lexsort((a, b[:at])), (a, b), SAME)
        add('lex-none', lambda: lex([a, None]), (a,))
        add('lex-none1', lambda: lex(None))
        add('lex-number', lambda: lex(x))
        add('lex-list', lambda: lex([a, [1, 2]]), (a,))
        add('lex-0d', lambda: lex(np.array(x)), (), ANY)
        add('lex-2d', lambda: lex(a[:n // 2 * 2].reshape(2, -1)), (a,), ANY)
        add('lex-empty', lambda: lex())
        add('lex-empty2', lambda: lex([]))
        add('lex-pn-empty', lambda: pn.lexsort(), (), SAME)
        add('lex-pn-0d', lambda: pn.lexsort((np.array(5),)), (), SAME)
        odd = [np.zeros(n, 'O'), a.astype('D'), a.astype('e'), np.zeros(n, 'M8[s]'), np.zeros(n, [('a', 'i4')]), a.astype('i8').astype('>i8'), a.astype('F'), np.zeros(n, 'V8')][x % 8]
        add('lex-dtype', lambda: lex(odd), (odd,), ANY)
        add('lex-dtype2', lambda: lex([a, odd]), (a, odd), ANY)
        cut = lambda c, c_dt=np.int64: np.array(c, c_dt)
        e = 1 + x % 1000
        add('lex-cut-last', lambda: lex(a, cutoffs=cut([at, n - e])), (a,))
        add('lex-cut-past', lambda: lex(a, cutoffs=cut([at, n + e])), (a,))
        add('lex-cut-mid', lambda: lex(a, cutoffs=cut([n + e, n])), (a,))
        add('lex-cut-neg', lambda: lex(a, cutoffs=cut([-e, n])), (a,))
        add('lex-cut-neg2', lambda: lex(a, cutoffs=cut([at, -at, n])), (a,))
        add('lex-cut-desc', lambda: lex(a, cutoffs=cut([at, at - 1, n])), (a,))
        add('lex-cut-desc2', lambda: lex([a, b], cutoffs=cut(list(range(0, n, max(1, n // 20))) + [n // 2, n])), (a, b))
        add('lex-cut-none', lambda: lex(a, cutoffs=cut([])), (a,))
        add('lex-cut-dtype', lambda: lex(a, cutoffs=cut([at, n], [np.int32, np.float64, np.uint64, np.int16][x % 4])), (a,))
        seg = lambda: np.concatenate([np.lexsort((a[:at],)), np.lexsort((a[at:],))]).astype(it)
        add('lex-cut-strided', lambda: lex(a, cutoffs=cut([at, 7, n, 7])[::2]), (a,), _np(seg))
        add('lex-cut-swapped', lambda: lex(a, cutoffs=cut([at, n], '>i8')), (a,), _np(seg))
        mis = np.zeros(17, np.uint8)[1:].view(np.int64)
        mis[:] = [at, n]
        add('lex-cut-unaligned', lambda: lex(a, cutoffs=mis), (a,), _np(seg))
        pos = x % n

        def bad(v):
            i = ok.copy()
            i[pos] = v
            return i
        add('lex-ix-high', lambda: lex(a, index=bad(n + e - 1)), (a,))
        add('lex-ix-neg', lambda: lex(a, index=bad(-e)), (a,))
        add('lex-ix-far', lambda: lex(a, index=bad(np.iinfo(it).max - e)), (a,))
        add('lex-ix-long', lambda: lex(a, index=np.concatenate([ok, ok[:e]])), (a,))
        add('lex-ix-dtype', lambda: lex(a, index=ok.astype([np.float64, np.int16, np.uint64, np.int32 if t % 2 else np.int64][x % 4])), (a,))
        add('lex-ix-strided', lambda: lex(a, index=np.repeat(ok, 2)[::2]), (a,), _np(lambda: order(a)))
        add('lex-ix-swapped', lambda: lex(a, index=ok.astype(np.dtype(it).newbyteorder('>'))), (a,), _np(lambda: order(a)))
        ro = ok.copy()
        ro.flags.writeable = False
        add('lex-ix-readonly', lambda: lex(a, index=ro), (a, ro), _np(lambda: order(a)))
        add('lex-ix-cut', lambda: lex(a, index=ok[:at].copy(), cutoffs=cut([at // 2, n])), (a,))
        add('lex-ix-part', lambda: lex(a, index=ok[:at].copy()), (a,), _np(lambda: order(a[:at])))
    elif w.startswith('sort'):
        a = d()
        for nm, f in (('np', np.sort), ('pn', pn.sort)):
            add('sort-%s-axis' % nm, lambda f=f: f(a, axis=1 + x % 5), (a,), SAME)
            add('sort-%s-kind' % nm, lambda f=f: f(a, kind='xyz'), (a,), SAME)
            add('sort-%s-kind2' % nm, lambda f=f: f(a, kind=x), (a,), SAME)
            add('sort-%s-order' % nm, lambda f=f: f(a, order='a'), (a,), SAME)
            add('sort-%s-0d' % nm, lambda f=f: f(x), (), SAME)
            add('sort-%s-none' % nm, lambda f=f: f(None), (), SAME)
        add('sort-list', lambda: P.sort([3, 1, 2]), (), _np(lambda: np.array([1, 2, 3])))
        add('sort-none', lambda: P.sort(None))
        add('sort-args', lambda: P.sort())
        add('sort-args2', lambda: P.sort(a, a), (a,))
        odd = [a.astype('D'), np.zeros(n, 'M8[s]'), a.astype('>f8'), a.astype('F'), np.zeros(n, 'V8'), np.zeros(n, [('a', 'i4')])][x % 6]
        add('sort-dtype', lambda: P.sort(odd), (odd,), _np(lambda: np.sort(odd)))
        k = n // 2
        add('sort-2d', lambda: P.sort(a[:2 * k].reshape(2, k)[:, :k - 1]), (a,), ANY)
        ob = np.array([Moody(i == x % 400) for i in range(400)], dtype='O')
        add('sort-boom', lambda: np.sort(ob), (ob,), SAME)
        add('sort-boom2', lambda: np.argsort(ob, kind='stable'), (ob,), SAME)
        add('sort-argaxis', lambda: pn.argsort(a, axis=3), (a,), SAME)
        ro = a.copy()
        ro.flags.writeable = False
        add('sort-readonly', lambda: ro.sort(), (ro,), SAME)
    elif w.startswith('get'):
        a = d()
        m = O.pooldata('?', 'rand', n, op['off'] + 5).copy()
        ix = (np.arange(n) * 7 + x) % n
        cutn = 1 + x % (n - 1)
        add('get-short-mask', lambda: P.getitem(a, m[:cutn]), (a, m))
        add('get-long-mask', lambda: P.getitem(a[:cutn], m), (a, m))
        add('get-float', lambda: P.getitem(a, ix.astype([np.float64, np.float32, np.complex128, 'M8[s]', 'S8'][x % 5])), (a,))
        add('get-list', lambda: P.getitem(a, [0, 1]), (a,), _np(lambda: a[[0, 1]]))
        add('get-list2', lambda: P.getitem([1, 2], ix))
        add('get-none', lambda: P.getitem(a, None), (a,))
        add('get-none2', lambda: P.getitem(None, ix))
        add('get-args', lambda: P.getitem(a), (a,))
        add('get-args2', lambda: P.getitem(a, ix, 0, 0), (a,))
        if np.dtype(dt).kind in 'biuf':
            add('get-default', lambda: P.getitem(a, ix, ['abc', object(), [1, 2], np.arange(3), {}][x % 5]), (a, ix))
            add('get-default2', lambda: P.getitem(a.astype('i8'), ix, [2 ** 70, -2 ** 70][x % 2]), (a, ix))
        add('get-swapped', lambda: P.getitem(a, ix.astype('>i8')), (a,), _np(lambda: a[ix]))
        ob = np.array([None, 'a', 3.5, Moody(0)] * 300, dtype='O')
        oi = np.arange(1000) % 1200
        add('get-object', lambda: P.getitem(ob, oi), (ob, oi), _np(lambda: ob[oi]))
        add('get-object-mask', lambda: P.getitem(ob, np.arange(1200) % 3 == 0), (ob,), _np(lambda: ob[np.arange(1200) % 3 == 0]))
        for nm, f in {'mask': lambda: a[m[:cutn]], 'float': lambda: a[ix.astype('d')], 'high': lambda: a[np.where(ix == x % n, n + x % 9, ix)], 'low': lambda: a[np.where(ix == x % n, -n - 1 - x % 9, ix)],
                      'two': lambda: a[ix, ix], 'mask0': lambda: a[m, 0], 'name': lambda: a['x'], 'none': lambda: a[None, m], 'dots': lambda: a[m, ...], 'list': lambda: a[[True, False]], 'empty': lambda: a[[]],
                      'obj': lambda: a[ob[:3]], 'str': lambda: a[np.array(['a', 'b'])], 'mask2': lambda: a[m[:n // 2 * 2].reshape(2, -1)], 'far': lambda: a[n + x], 'slice': lambda: a[::0]}.items():
            add('get-hook-' + nm, hooked(P, f), (a, m, ix), ('same', f))
    elif w.startswith('uf'):
        a, b = d(), d(7)
        cutn = 2 + x % (n - 2)
        f = getattr(np, ['add', 'subtract', 'multiply', 'maximum', 'equal', 'less', 'bitwise_and', 'floor_divide', 'sqrt', 'negative'][x % 10])
        two = f.nin == 2
        g = (lambda q, **k: f(q, b, **k)) if two else (lambda q, **k: f(q, **k))
        if two:
            add('uf-lengths', lambda: f(a, b[:cutn]), (a, b), SAME)
        sm = np.zeros(cutn, dt)
        add('uf-out', lambda: g(a, out=sm), (a, b, sm), SAME)
        o8 = np.zeros(n, 'b')
        add('uf-outcast', lambda: g(a.astype('d'), out=o8), (a, b), SAME)
        add('uf-text', lambda: g(np.full(n, 'x')), (), SAME)
        add('uf-none', lambda: g(None), (), SAME)
        add('uf-dtype', lambda: g(a, dtype='S3'), (a, b), SAME)
        add('uf-kw', lambda: g(a, nosuch=1), (a, b), SAME)
        add('uf-where', lambda: g(a, where=np.ones(cutn, '?')), (a, b), SAME)
        ob = np.array([Moody(i == x % 900) for i in range(900)], dtype='O')
        add('uf-boom', lambda: f(ob, ob) if two else f(ob), (ob,), SAME)
        add('uf-boom-red', lambda: np.add.reduce(ob), (ob,), SAME)
        if two:
            add('uf-redaxis', lambda: f.reduce(a, axis=2), (a,), SAME)
            add('uf-redout', lambda: f.reduce(a, out=np.zeros(3, dt)), (a,), SAME)
            add('uf-redempty', lambda: f.reduce(a[:0]), (a,), SAME)
            add('uf-at', lambda: f.at(a.copy(), [0, n + x], 1), (a,), SAME)
            add('uf-reduceat', lambda: f.reduceat(a, [0, n + x]), (a,), SAME)
        ro = np.zeros(n, dt)
        ro.flags.writeable = False
        add('uf-readonly', lambda: g(a, out=ro), (a, b, ro), SAME)

        def raises():
            with np.errstate(all='raise', under='ignore'):
                z = a.astype('d')
                z[x % n] = 0
                return np.true_divide(np.ones(n), z)
        add('uf-raise', raises, (a,), SAME)
    elif w.startswith('rec'):
        r = np.zeros(n, dtype=[('a', 'i4'), ('b', 'f8')])
        r['a'] = np.arange(n)
        add('rec-plain', lambda: pn.recarray_to_colmajor(d()), (), ANY)
        add('rec-none', lambda: pn.recarray_to_colmajor(None))
        add('rec-list', lambda: pn.recarray_to_colmajor([1]))
        add('rec-0d', lambda: pn.recarray_to_colmajor(np.zeros((), r.dtype)), (), ANY)
        add('rec-nobytes', lambda: pn.recarray_to_colmajor(np.zeros(n, [[], [('a', 'S0')], [('a', 'S0'), ('b', 'U0')]][x % 3])), (), ANY)
        add('rec-void', lambda: pn.recarray_to_colmajor(np.zeros(n, 'V8')), (), ANY)
        add('rec-args', lambda: P.recarray_to_colmajor(*[r] * (x % 3)), (r,))
        add('rec-args4', lambda: P.recarray_to_colmajor(r, r, r, r), (r,))
        off = np.array([0, 4])
        ar = np.empty(2, 'O')
        ar[:] = [np.zeros(n, 'i4'), np.zeros(n)]
        add('rec-short', lambda: P.recarray_to_colmajor(r, off, ar[:1]), (r, off))
        add('rec-notobj', lambda: P.recarray_to_colmajor(r, off, np.zeros(2)), (r, off))
        add('rec-notrec', lambda: P.recarray_to_colmajor(d(), off, ar), (off,))
        add('rec-strided', lambda: P.recarray_to_colmajor(r[::2], off, ar), (r, off), ANY)
        tt = np.zeros(n, dtype=[(('title', 'a'), 'i4'), ('b', 'f8')])
        tt['a'] = np.arange(n)
        add('rec-title', lambda: pn.recarray_to_colmajor(tt), (tt,), _np(lambda: {'a': tt['a'].copy(), 'b': tt['b'].copy()}))
        k = Moody(0)
        ro = np.zeros(n, dtype=[('a', 'i4'), ('b', 'O')])
        ro['b'] = k
        add('rec-object', lambda: pn.recarray_to_colmajor(ro), (ro,), _np(lambda: {'a': ro['a'].copy(), 'b': ro['b'].copy()}))
    else:
        a = d()
        big = [10 ** 18, 2 ** 62, 10 ** 30][x % 3]
        for nm, f in {'zero': lambda: np.arange(0, 5, 0), 'nan': lambda: np.arange(0, float('nan')), 'text': lambda: np.arange('a'), 'huge': lambda: np.arange(big), 'str': lambda: np.arange(n, dtype='S3'), 'none': lambda: np.arange(None),
                      'bool': lambda: np.arange(n, dtype='?'), 'cplx': lambda: np.arange(0, 9, 1j), 'over': lambda: np.arange(0, n, dtype='b') if n <= 128 else np.arange(200, 256, dtype='b')}.items():
            add('arr-arange-' + nm, f, (), SAME)
        for nm in ('argmin', 'argmax'):
            f = getattr(pn, nm)
            add('arr-%s-axis' % nm, lambda f=f: f(a, axis=4), (a,), SAME)
            add('arr-%s-empty' % nm, lambda f=f: f([]), (), SAME)
            add('arr-%s-out' % nm, lambda f=f: f(a.reshape(1, n), axis=0, out=np.zeros(n - 1, 'q')), (a,), SAME)
            add('arr-%s-obj' % nm, lambda f=f: f(np.array([Moody(i == x % 30) for i in range(30)], 'O')), (), SAME)
        add('arr-search', lambda: pn.searchsorted(a, 5, side='x'), (a,), SAME)
        for nm, g in {'w-text': lambda: pn.thread_setworkers('a'), 'w-none': lambda: pn.thread_setworkers(), 'w-two': lambda: pn.thread_setworkers(1, 2), 'w-float': lambda: pn.thread_setworkers(1.5), 'w-huge': lambda: pn.thread_setworkers(2 ** 40),
                      'fw-none': lambda: pn.atop_setworkers(), 'fw-num': lambda: pn.atop_setworkers(x, 0, 1), 'fw-huge': lambda: pn.atop_setworkers('add', 2 ** 40, 1), 'info-one': lambda: pn.atop_info('add'), 'info-text': lambda: pn.atop_info('add', 'x'),
                      'info-num': lambda: pn.atop_info(x, 0), 'old': lambda: P.oldinit('nosuch'), 'old2': lambda: P.oldinit(x), 'old3': lambda: P.oldinit()}.items():
            add('arr-set-' + nm, g, (), ANY if nm[0] in 'fi' else REFUSE)      # with atop off these return False
        for nm, g in {'fw-type': lambda: pn.atop_setworkers('add', 21 + x, 1), 'fw-neg': lambda: pn.atop_setworkers('add', -1 - x, 1), 'fw-name': lambda: pn.atop_setworkers('nosuch', 5, 1), 'info-type': lambda: pn.atop_info('add', 21 + x), 'info-name': lambda: pn.atop_info('nosuch', 1),
                      'info-neg': lambda: pn.atop_info('add', -1 - x)}.items():
            add('arr-set-' + nm, g, (), ANY)
    return D



def hooked(P, f):
    def g():
        P.hook_enable()
        try:
            return f()
        finally:
            P.hook_disable()
    return g


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, (type(e), str(e)[:120])


def refs(ins):
    return [(sys.getrefcount(a), sys.getrefcount(a.dtype), [sys.getrefcount(o) for o in a[:4].tolist() if o is not None] if a.dtype == object else None) for a in ins]


def threaded(ctx, a, exp):
    n0 = ctx.s.state()[5]
    ctx.loud()
    r, e = ctx.run(lambda: np.add(a, a))
    ctx.quiet()
    if e is not None or r.tobytes() != exp.tobytes():
        raise O.Viol('mismatch', 'np.add afterwards: %r' % (e,))
    return ctx.s.state()[5] - n0


def switches(pn):
    return (pn.atop_isenabled(), pn.thread_isenabled(), pn.ledger_isenabled(), pn.recycler_isenabled(), pn.thread_getworkers())


def op_bad(ctx, op):
    """a call with arguments that cannot be dealt with: a plain exception, or the right answer, and nothing left behind"""
    ctx.quiet()
    D = calls(ctx, op)
    names = sorted(D)
    pick = names[op['pick'] % len(names)]
    name = '%s (n=%d, %s)' % (pick, op['n'], op['dt'])
    fn, ins, judge = D[pick]
    D = names = None
    probe = O.pooldata('b', 'rand', 65536, op['off']).copy()
    pexp = np.add(probe, probe)
    w0 = threaded(ctx, probe, pexp)
    copies = [a.copy() for a in ins]
    want = werr = None
    if isinstance(judge, tuple) and judge[0] == SAME:
        want, werr = outcome(judge[1])
        want, judge = O.snap(want), SAME
    elif judge == SAME:
        want, werr = outcome(fn)
        want = O.snap(want)
    elif isinstance(judge, tuple):
        want = O.snap(judge[1]())
    rep = op.get('rep', 1)
    base = None
    for i in range(rep):
        ctx.loud(op.get('atop', 1))
        sw = switches(ctx.pn)
        f0 = ctx.s.state()
        ctx.s.begin(ctx.opi, 2 if op.get('fail') else 0)
        try:
            got, err = outcome(fn)
        finally:
            ctx.s.end()
        failed = err is not None and op.get('fail') and issubclass(err[0], (MemoryError, ValueError))
        if switches(ctx.pn) != sw:
            raise O.Viol('switch', '%s changed the settings from %r to %r' % (name, sw, switches(ctx.pn)))
        ctx.quiet()
        if err is not None:
            if judge == SAME:
                if not failed and (werr is None or err[0] != werr[0]):
                    raise O.Viol('exception', '%s raised %s: %s; with the switches off %s' % (name, err[0].__name__, err[1], 'it raised ' + werr[0].__name__ if werr else 'it does not raise'))
            elif not failed and not issubclass(err[0], ORDINARY):
                raise O.Viol('exception', '%s raised %s: %s' % (name, err[0].__name__, err[1]))
        else:
            if judge == REFUSE:
                raise O.Viol('accepted', '%s returned %s' % (name, repr(got)[:100]))
            if judge != ANY:
                if werr is not None:
                    raise O.Viol('exception', '%s returned %s; with the switches off it raised %s' % (name, repr(got)[:80], werr[0].__name__))
                if not O.same(want, got) and not O.close(want, got):
                    raise O.Viol('mismatch', '%s: %s' % (name, O.explain(want, got)))
        got = err = None
        if i % 16 == 0:
            for a, b in zip(copies, ins):
                if a.dtype == object:
                    if not all(p is q for p, q in zip(a.tolist(), b.tolist())):
                        raise O.Viol('input-changed', '%s changed one of its inputs' % name)
                elif not O.bits_equal(a, b):
                    raise O.Viol('input-changed', '%s changed one of its inputs: %s' % (name, O.first_diff(a, b)))
        ctx.checks += 1
    if op.get('idle'):
        ctx.after(list(ins), op['idle'])
    if w0 and not threaded(ctx, probe, pexp) and op['rep'] > 1024:
        raise O.Viol('queue-leak', 'after %d times %s, operations are no longer shared among the threads' % (rep, name))


def op_nolk(ctx, op):
    """the same call over and over: memory, references and work items are back where they were after each"""
    ctx.quiet()
    inner = op['op']
    if inner['k'] in O.SPECIAL and inner['k'] != 'bad':
        O.run_op(ctx, inner)
        n0 = ctx.s.state()[6]
        for _ in range(2):
            O.run_op(ctx, inner)
        n1 = ctx.s.state()[6]
        if n1 != n0:
            raise O.Viol('leak', 'twice %s: %d workspaces are held instead of %d' % (inner['k'], n1, n0))
        ctx.checks += 1
        return
    if inner['k'] == 'bad':
        D = calls(ctx, inner)
        names = sorted(D)
        name = names[inner['pick'] % len(names)]
        fn, ins, _ = D[name]
        D = None
    else:
        c = O.BUILD[inner['k']](ctx, inner)
        fn, ins, name = c.fn, list(c.ins), c.name
        c = None
    fail = inner.get('failmode', 2) if inner.get('fail') else 0

    def once(f):
        ctx.loud(op.get('atop', 1))
        ctx.s.begin(ctx.opi, f)
        try:
            r, e = outcome(fn)
        finally:
            ctx.s.end()
        ctx.quiet()
        return e is not None

    def account():
        st = ctx.s.state()
        return st[6], st[7], refs(ins)
    for _ in range(2):
        once(0)
        once(fail)
    a0 = account()
    nerr = 0
    for _ in range(op['count']):
        nerr += once(fail)
    a1 = account()
    ctx.exc += nerr
    what = '%d times %s%s' % (op['count'], name, ', %d of them failing' % nerr if nerr else '')
    if a1[0] > a0[0]:
        raise O.Viol('leak', '%s: %d more workspaces are held than before' % (what, a1[0] - a0[0]))
    if a1[0] < a0[0]:
        raise O.Viol('leak', '%s: %d workspaces were freed that others hold' % (what, a0[0] - a1[0]))
    if a1[1] != a0[1]:
        raise O.Viol('leak', '%s: NumPy holds %d array buffers instead of %d' % (what, a1[1], a0[1]))
    for i, (p, q) in enumerate(zip(a0[2], a1[2])):
        if p != q:
            raise O.Viol('references', '%s: reference counts of argument %d, its dtype (and its elements) went from %r to %r' % (what, i, p, q))
    ctx.checks += op['count']
