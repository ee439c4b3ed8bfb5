"""
Exploration engine.

A check module provides

    ID            property id
    BOUNDS        text: what is enumerated, and the bound
    ASSUMPTIONS   list of text
    plan(c)       a *choice program*: calls c.choose(label, options) and returns
                  a JSON-able case.  The engine enumerates every path of it
                  (depth-first, simplest alternatives first), optionally
                  bounded in the number of deviations from the first option.
    run(case, x)  executes the case on the real code; every comparison goes
                  through the context x, which counts states/transitions and
                  records violations.

Everything nondeterministic that the code under test draws (numpy's global
generator) is seeded per case; every violation is written to a replay file.
"""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ choices
class Pruned(Exception):
    """Raised by a plan to discard a path that is not a case."""


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.path = []      # (index, number of options, deviating?)

    def choose(self, label, options, dev=False):
        """Take one of `options`. With dev=True, anything but the first option
        counts as one deviation (bounded by c.explore's bound)."""
        options = list(options)
        i = len(self.path)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= len(options):
            raise RuntimeError('replay divergence at choice %d (%s)' % (i, label))
        self.path.append((idx, len(options), dev))
        return options[idx]

    def flag(self, label, dev=False):
        return self.choose(label, [False, True], dev=dev)

    def prune(self):
        raise Pruned()


def enumerate_plan(plan, max_dev=None):
    """All cases of a choice program, in order of increasing path."""
    prefix = []
    while prefix is not None:
        c = Chooser(prefix)
        try:
            case = plan(c)
        except Pruned:
            case = None
        if case is not None:
            if isinstance(case, list):
                for k in case:
                    yield k
            else:
                yield case
        # next path
        path = c.path
        prefix = None
        for i in range(len(path) - 1, -1, -1):
            idx, n, dev = path[i]
            if idx + 1 >= n:
                continue
            devs = sum(1 for a, _, d in path[:i] if d and a)
            if dev and max_dev is not None and devs + 1 > max_dev:
                continue
            prefix = [a for a, _, _ in path[:i]] + [idx + 1]
            break


# ------------------------------------------------------------------ context
class Violation(Exception):
    pass


class SeamMissing(Exception):
    """A harness seam (not an observable behaviour) is unavailable."""


class CaseTimeout(BaseException):
    pass


def digest(*xs):
    h = hashlib.blake2b(digest_size=8)

    def feed(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.shape).encode())
            h.update(np.round(np.asarray(v, float), 9).tobytes())
        elif isinstance(v, float):
            h.update(b'%.9g' % v)
        elif isinstance(v, (list, tuple)):
            h.update(b'[')
            for w in v:
                feed(w)
            h.update(b']')
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                feed(v[k])
        else:
            h.update(repr(v).encode())
    for x in xs:
        feed(x)
    return h.digest()


class Ctx:
    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.comparisons = 0
        self.skips = {}
        self.worst = 0.0      # worst error / tolerance seen in an accepted comparison

    def op(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(digest(*key))

    def outcome(self, *v):
        self.outcomes.add(digest(*v))

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, what, got, want, rtol=1e-7, atol=1e-9):
        """|got - want| <= atol + rtol * max|want|, same shape, finite."""
        self.comparisons += 1
        try:
            g = np.asarray(got, dtype=float)
        except Exception:
            raise Violation('%s: not numeric: %r' % (what, type(got)))
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape))
        if not w.size:
            return
        scale = np.abs(w).max()
        tol = atol + rtol * scale
        d = np.abs(g - w)
        if not np.all(np.isfinite(g)) or not d.max() <= tol:
            i = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(d), d, np.inf))), d.shape) if d.ndim else ()
            raise Violation('%s: got %r, expected %r at %s (error %.3g, tolerance %.3g)' % (
                what, float(g[i]), float(w[i]), i, float(d[i]), tol))
        self.worst = max(self.worst, float(d.max() / tol))
        self.outcomes.add(digest(g))

    def raises(self, what, exc, f):
        self.comparisons += 1
        try:
            r = f()
        except exc as e:
            self.outcomes.add(digest(what, type(e).__name__))
            return e
        except CaseTimeout:
            raise
        except BaseException as e:
            raise Violation('%s: raised %s (%s), expected %s' % (what, type(e).__name__, e, exc))
        raise Violation('%s: expected %s, returned %.80r' % (what, exc, type(r)))


# ------------------------------------------------------------------ running
def case_seed(case):
    s = int(os.environ.get('VERIF_SEED', '1') or 1)
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=4).digest()
    return (struct.unpack('<I', h)[0] ^ (s * 2654435761)) & 0xffffffff


def execute(mod, case, limit):
    """Run one case. Returns (ctx, None | message)."""
    x = Ctx()
    seed = case_seed(case)
    np.random.seed(seed)
    random.seed(seed)

    def on_alarm(sig, frm):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(limit))
    msg = None
    try:
        mod.run(case, x)
    except Violation as e:
        msg = str(e)
    except SeamMissing as e:
        x.skip('seam: %s' % e)
    except CaseTimeout:
        msg = 'did not finish within %d s' % limit
    except MemoryError:
        msg = 'ran out of memory'
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d(%s)' % (f.filename.replace(ROOT + '/', ''), f.lineno, f.name)
                            for f in reversed(tb[-6:]))
        msg = 'raised %s: %s [%s]' % (type(e).__name__, str(e)[:300], where)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return x, msg


def worker(mod, cases, rfd, out, limit, stop_after, flag_path):
    tot = Ctx()
    done = 0
    bad = []
    samples = []
    slow = (0.0, None)
    cur = out + '.cur'
    while True:
        rec = os.read(rfd, 4)
        if len(rec) < 4:
            break
        i = struct.unpack('<I', rec)[0]
        if os.path.exists(flag_path):
            continue
        with open(cur, 'w') as f:
            f.write(str(i))
        t0 = time.time()
        x, msg = execute(mod, cases[i], limit)
        dt = time.time() - t0
        if dt > slow[0]:
            slow = (dt, i)
        done += 1
        tot.transitions += x.transitions
        tot.states |= x.states
        tot.outcomes |= x.outcomes
        tot.comparisons += x.comparisons
        tot.worst = max(tot.worst, x.worst)
        for k, v in x.skips.items():
            tot.skips[k] = tot.skips.get(k, 0) + v
        if len(samples) < 2 and x.comparisons:
            samples.append(i)
        if msg is not None:
            bad.append((i, msg))
            if len(bad) >= stop_after:
                open(flag_path, 'w').close()
    with open(cur, 'w') as f:
        f.write('-1')
    with open(out, 'wb') as f:
        pickle.dump(dict(done=done, transitions=tot.transitions, states=tot.states,
                         outcomes=tot.outcomes, comparisons=tot.comparisons, skips=tot.skips,
                         worst=tot.worst, bad=bad, samples=samples, slow=slow), f)


def explore(mod, cases, procs=8, limit=240, stop_after=int(os.environ.get('MC_STOP', 4)), log=None):
    """Run all cases over forked workers. Returns merged totals."""
    scratch = tempfile.mkdtemp(prefix='mc-')
    flag = os.path.join(scratch, 'stop')
    procs = max(1, min(procs, len(cases)))
    rfd, wfd = os.pipe()
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        for k in range(procs):
            out = os.path.join(scratch, 'w%d' % k)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(wfd)
                    devnull = os.open(os.devnull, os.O_RDWR)
                    os.dup2(devnull, 0)
                    os.dup2(devnull, 1)
                    if not os.environ.get('MC_DEBUG'):
                        os.dup2(devnull, 2)
                    worker(mod, cases, rfd, out, limit, stop_after, flag)
                except BaseException:
                    try:
                        with open(out + '.err', 'w') as f:
                            traceback.print_exc(file=f)
                    except BaseException:
                        pass
                    code = 3
                os._exit(code)
            pids[pid] = out
        os.close(rfd)
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        try:
            buf = b''.join(struct.pack('<I', i) for i in range(len(cases)))
            # write in multiples of 4 bytes
            pos = 0
            while pos < len(buf):
                pos += os.write(wfd, buf[pos:pos + 4096])
        except OSError:
            pass
        os.close(wfd)
        dead = []
        for _ in range(len(pids)):
            pid, st = os.wait()
            out = pids.get(pid)
            if out and (st != 0 or not os.path.exists(out)):
                dead.append((out, st))
        res = dict(done=0, transitions=0, states=set(), outcomes=set(), comparisons=0,
                   skips={}, bad=[], samples=[], worst=0.0, slow=(0.0, None))
        for out in pids.values():
            if not os.path.exists(out):
                continue
            with open(out, 'rb') as f:
                r = pickle.load(f)
            for k in ('done', 'transitions', 'comparisons'):
                res[k] += r[k]
            for k in ('states', 'outcomes'):
                res[k] |= r[k]
            res['bad'] += r['bad']
            res['samples'] += r['samples']
            res['worst'] = max(res['worst'], r['worst'])
            res['slow'] = max(res['slow'], r['slow'])
            for k, v in r['skips'].items():
                res['skips'][k] = res['skips'].get(k, 0) + v
        for out, st in dead:
            err = out + '.err'
            if os.path.exists(err):
                raise RuntimeError('worker failed: ' + open(err).read())
            cur = out + '.cur'
            i = int(open(cur).read() or -1) if os.path.exists(cur) else -1
            if i >= 0:
                res['bad'].append((i, 'the process running this case died (status %#x)' % st))
            else:
                raise RuntimeError('worker died with status %#x' % st)
        res['capped'] = os.path.exists(flag)
        res['bad'].sort()
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
