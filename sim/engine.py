"""Run engine: zygote servers that fork one simulated process per run, result collection, replay and minimisation."""
import os, sys, json, time, struct, random, ctypes, signal, subprocess, select, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
import build

RUN_WALL = float(os.environ.get('SIM_RUN_WALL', '60'))
FAULT_NAMES = ['stall', 'spurious_wakeup', 'eintr', 'thread_create_failure', 'workspace_alloc_failure', 'array_alloc_failure',
               'wake_order_shuffle', 'late_wakeup', 'never_scheduled_worker', 'fork', 'switch_toggled', 'time_jump',
               'preempt_in_data', 'lost_wait_race', 'odd_cpu_mask', 'host_file_fault']
PROBE_NAMES = ['old_op', 'ring_wrap', 'concurrent_calls', 'stalled_across_ops', 'caller_waited_for_worker', 'block_wake', 'idle_worker_step', 'saw_exception']


# ------------------------------------------------------------------------------------------------ child / zygote side
def no_aslr_env():
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    env['OMP_NUM_THREADS'] = '1'
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['MALLOC_ARENA_MAX'] = '1'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('PYTHONPATH', None)
    return env


def server_main(pkg, rt, cpu):
    """stdin/stdout: one JSON object per line."""
    libc = ctypes.CDLL(None, use_errno=True)
    if os.environ.get('SIM_NOASLR') != '1':
        cur = libc.personality(ctypes.c_ulong(0xffffffff))
        os.environ['SIM_NOASLR'] = '1'
        if cur >= 0 and libc.personality(ctypes.c_ulong(cur | 0x0040000)) >= 0:
            os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        if cpu >= 0:
            os.sched_setaffinity(0, {cpu})
    except OSError:
        pass
    out = os.dup(1)
    dn = os.open('/dev/null', os.O_WRONLY)
    os.dup2(dn, 1)
    sys.path.insert(0, pkg)
    sys.path.insert(0, rt)
    import numpy as np
    fl = sys.getdlopenflags()
    sys.setdlopenflags(os.RTLD_NOW | os.RTLD_GLOBAL)
    import simrt
    sys.setdlopenflags(fl)
    simrt.shm_create(1 << 19)
    import ops
    import misuse
    ops.init_pools()
    np.seterr(all='ignore')
    import gc
    gc.collect()
    gc.freeze()
    inp = sys.stdin.buffer
    while True:
        line = inp.readline()
        if not line:
            break
        req = json.loads(line)
        if req.get('cmd') == 'cov':
            import base64, zlib
            res = {'cov': base64.b64encode(zlib.compress(simrt.cov())).decode()}
        else:
            res = run_once(simrt, ops, req)
        data = json.dumps(res).encode() + b'\n'
        off = 0
        while off < len(data):
            off += os.write(out, data[off:])


def cpu_seconds(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            t = f.read().rsplit(')', 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return 1e9


def run_once(simrt, ops, req):
    simrt.shm_reset()
    r, w = os.pipe()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import gc
            gc.disable()
            res = ops.child(simrt, req)
        except BaseException as e:   # harness error
            import traceback
            res = {'harness_error': traceback.format_exc()[-3000:]}
        try:
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    deadline = t0 + RUN_WALL
    timed_out = False
    while True:
        left = deadline - time.time()
        if left <= 0:
            # on a crowded machine a run may simply not have had its share of the processor
            if time.time() < t0 + 4 * RUN_WALL and cpu_seconds(pid) < 0.7 * RUN_WALL:
                deadline = time.time() + 5
                continue
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    s = simrt.shm_read()
    out = {'stat': s, 'wall': time.time() - t0}
    if timed_out:
        out['fail'] = {'kind': 'stuck', 'msg': 'the operation did not finish (no scheduling point reached for %ds)' % RUN_WALL, 'op': s['opno']}
    elif s['verdict'] and s['verdict'] < 90:
        out['fail'] = {'kind': {1: 'crash', 2: 'hang', 3: 'livelock', 4: 'dead-frame', 5: 'internal', 6: 'overrun'}.get(s['verdict'], 'crash'), 'msg': s['msg'], 'op': s['opno']}
    elif buf:
        try:
            d = json.loads(buf)
        except ValueError:
            d = {'harness_error': 'bad child output'}
        out.update(d)
    else:
        out['fail'] = {'kind': 'crash', 'msg': 'process died: status %r' % (st,), 'op': s['opno']}
    if out.get('fail') and out['fail']['kind'] == 'internal':
        out['harness_error'] = out['fail']['msg']
        del out['fail']
    if req.get('want_decisions'):
        out['decisions'] = [list(x) for x in simrt.decisions()]
    return out


# ------------------------------------------------------------------------------------------------ parent side
class Server:
    def __init__(self, pkg, rt, cpu=-1):
        self.args = [build.PY, os.path.join(HERE, 'engine.py'), '--server', pkg, rt, str(cpu)]
        self.p = None
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.environ.get('SIM_ERR', os.devnull), 'ab'), env=no_aslr_env(), cwd='/')
        self.busy = None

    def send(self, req):
        self.busy = req
        self.p.stdin.write(json.dumps(req).encode() + b'\n')
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        req, self.busy = self.busy, None
        if not line:
            self.p.wait()
            self.start()
            return req, {'harness_error': 'server died'}
        return req, json.loads(line)

    def call(self, req):
        self.send(req)
        return self.recv()[1]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Pool:
    def __init__(self, n=None):
        self.pkg, self.rt = build.build()
        ncpu = os.cpu_count() or 1
        try:
            cpus = sorted(os.sched_getaffinity(0))
        except OSError:
            cpus = list(range(ncpu))
        n = max(1, min(8, len(cpus))) if n is None else n
        self.s = [Server(self.pkg, self.rt, cpus[i % len(cpus)]) for i in range(n)]

    def map_stream(self, gen, deadline=None):
        """Yields (req,res) while feeding requests from the iterator gen."""
        idle = list(self.s)
        byfd = {}
        done = False
        while True:
            while idle and not done:
                if deadline and time.time() > deadline:
                    done = True
                    break
                try:
                    req = next(gen)
                except StopIteration:
                    done = True
                    break
                s = idle.pop()
                s.send(req)
                byfd[s.p.stdout.fileno()] = s
            if not byfd:
                return
            rd, _, _ = select.select(list(byfd), [], [])
            for fd in rd:
                s = byfd.pop(fd)
                req, res = s.recv()
                idle.append(s)
                yield req, res

    def sites(self):
        """distinct (code site, from kind, to kind) at which control changed hands, over all runs so far"""
        import base64, zlib
        u = None
        for s in self.s:
            try:
                c = zlib.decompress(base64.b64decode(s.call({'cmd': 'cov'})['cov']))
            except Exception:
                continue
            v = int.from_bytes(c, 'little')
            u = v if u is None else u | v
        return bin(u).count('1') if u else 0

    def fresh(self):
        return Server(self.pkg, self.rt, -1)

    def close(self):
        for s in self.s:
            s.close()


def fingerprint(res):
    s = res['stat']
    f = res.get('fail')
    return (s['hash'], s['schedhash'], s['steps'], s['clock'], f and f['kind'], f and f['msg'])


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--server':
        server_main(sys.argv[2], sys.argv[3], int(sys.argv[4]))
