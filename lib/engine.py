"""
A small property-based testing engine (choice-sequence generation, integrated
shrinking, coverage-guided mutation, replay files).

Every random decision of a generated case goes through a `Draw`, which records
it in a flat sequence of integers.  A case is a pure function of that sequence,
so that:
  * shrinking edits the sequence (deleting and lowering entries) and re-runs;
  * replaying feeds the recorded sequence back;
  * coverage-guided mutation edits sequences of cases that reached new lines or
    branches of the code under test.

One check runs several worker processes (fresh interpreters, distinct derived
seeds); the amount of work is bounded by case counts, never by time.
"""
import ast
import hashlib
import json
import os
import random
import re
import signal
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold on this case."""


class Discard(Exception):
    """The case is outside of the domain (used sparingly)."""


class Hang(BaseException):
    """The case burnt far more CPU than any such case can need."""


# ---------------------------------------------------------------- draws

class Draw(object):
    """Source of choices for one case."""

    __slots__ = ('rng', 'prefix', 'pos', 'rec', 'zero_tail', 'lits', 'size',
                 'nt_key', 'labels', 'case', 'started', 'journal')

    def __init__(self, rng=None, prefix=(), zero_tail=False, lits=None, size=1.0):
        self.rng = rng
        self.prefix = prefix
        self.pos = 0
        self.rec = []
        self.zero_tail = zero_tail
        self.lits = lits or LITS
        self.size = size
        self.nt_key = None
        self.labels = []
        self.case = None
        self.started = False
        self.journal = None

    # One raw choice in [0, k]
    def raw(self, k, gen=None):
        pos = self.pos
        self.pos = pos + 1
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if v > k:
                v = k if self.zero_tail else v % (k + 1)
        elif self.zero_tail:
            v = 0
        elif gen is not None:
            v = gen()
        else:
            v = self.rng.randrange(k + 1)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        """Uniform integer, inclusive bounds. Shrinks to lo."""
        if hi <= lo:
            return lo
        return lo + self.raw(hi - lo)

    def bool(self, p=0.5):
        """True with probability p. Shrinks to False."""
        rng = self.rng
        return bool(self.raw(1, (lambda: 1 if rng.random() < p else 0) if rng else None))

    def choice(self, seq):
        return seq[self.raw(len(seq) - 1)] if len(seq) > 1 else seq[0]

    def weighted(self, pairs):
        """pairs: list of (weight, value). Shrinks to the first one."""
        rng = self.rng

        def gen():
            total = sum(w for w, _ in pairs)
            x = rng.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.raw(len(pairs) - 1, gen if rng else None)][1]

    def wide(self, n, factor=8, p=0.04):
        """A maximum size: n, and once in a while several times that."""
        return n * factor if self.bool(p) else n

    def length(self, lo, hi):
        """A random target length: small ones are more frequent."""
        rng = self.rng
        if rng is None:
            return lo
        r = rng.random()
        span = hi - lo
        if r < 0.35:
            return lo + int(span * rng.random() ** 3)
        if r < 0.9:
            return rng.randint(lo, hi)
        if r < 0.95:
            return hi
        lits = [x for x in self.lits.ints if lo <= x <= hi]
        return rng.choice(lits) if lits else rng.randint(lo, hi)

    def list(self, fn, lo=0, hi=10):
        out = []
        n = self.length(lo, hi)
        while len(out) < hi:
            if len(out) >= lo:
                i = len(out)
                if not self.raw(1, lambda: 1 if i < n else 0):
                    break
            out.append(fn())
        return out

    def text(self, alphabet, lo=0, hi=10):
        k = len(alphabet) - 1
        if k == 0:
            return ''.join(self.list(lambda: alphabet[0], lo, hi))
        raw = self.raw
        return ''.join(self.list(lambda: alphabet[raw(k)], lo, hi))

    def number(self, lo, hi):
        """Integer with a bias towards bounds and integers found in the code."""
        kind = self.weighted(((6, 0), (1, 1), (2, 2)))
        if kind == 1:
            return self.choice((lo, hi, min(lo + 1, hi)))
        if kind == 2:
            lits = self.lits.ints
            v = lits[self.raw(len(lits) - 1)] + self.int(0, 2) - 1
            if lo <= v <= hi:
                return v
        return self.int(lo, hi)

    def shuffled(self, seq):
        out = list(seq)
        for i in range(len(out) - 1, 0, -1):
            # Shrinks to identity
            j = i - self.raw(i)
            out[i], out[j] = out[j], out[i]
        return out

    def lit_str(self):
        return self.choice(self.lits.strs) if self.lits.strs else ''

    # ---- bookkeeping
    def nontrivial(self, key):
        self.nt_key = key

    def label(self, name):
        self.labels.append(name)

    def show(self, case):
        """Declares the (generated) case, printed in samples and replays."""
        self.case = case
        self.started = True
        if self.journal is not None:
            # Written down before the native code runs: survives a crash
            mm, test, index = self.journal
            blob = json.dumps({'test': test, 'index': index, 'case': short(case, 4000), 'choices': self.rec}).encode()
            if len(blob) + 4 <= len(mm):
                mm[:4] = len(blob).to_bytes(4, 'little')
                mm[4:4 + len(blob)] = blob


def call(fn, *args, **kwargs):
    """Calls the code under test: whatever it raises is a violation."""
    try:
        return fn(*args, **kwargs)
    except (Violation, Discard, Hang):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        raise Violation('%s raised %s: %s (at %s:%s)' % (
            getattr(fn, '__name__', 'call'), type(e).__name__, str(e)[:200],
            os.path.relpath(last.filename, REPO) if last.filename.startswith(REPO) else os.path.basename(last.filename),
            last.name))


def lst(fn, *args, **kwargs):
    """Calls the code under test and consumes the returned iterator."""
    def consume():
        return list(fn(*args, **kwargs))
    consume.__name__ = getattr(fn, '__name__', 'call')
    return call(consume)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if got != want:
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


def short(x, n=600):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


# ---------------------------------------------------------------- literals

class Lits(object):
    def __init__(self):
        self.ints = [0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 32]
        self.strs = []
        self.floats = []


LITS = Lits()


def harvest(files):
    """
    Literals of the sources under test: only a bias of the generators (a
    dictionary, in fuzzing terms), never part of an oracle.
    """
    ints, strs, floats = set(LITS.ints), set(), set()
    for f in files:
        path = os.path.join(REPO, f)
        try:
            src = open(path, encoding='utf-8').read()
        except OSError:
            continue
        if path.endswith('.pyx'):
            for m in re.finditer(r'(?<![\w.])\d{1,5}(?![\w.])', src):
                ints.add(int(m.group()))
            for m in re.finditer(r"'([^'\n]{1,8})'", src):
                strs.add(m.group(1))
            continue
        try:
            tree = ast.parse(src)
        except SyntaxError:
            continue
        docs = set()
        for node in ast.walk(tree):
            body = getattr(node, 'body', None)
            if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                docs.add(id(body[0].value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and abs(v) <= 5000:
                    ints.add(v)
                elif isinstance(v, float) and abs(v) < 1e6:
                    floats.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 24:
                    strs.add(v)
    LITS.ints = sorted(ints)
    LITS.strs = sorted(strs)
    LITS.floats = sorted(floats)


# ---------------------------------------------------------------- coverage

class Coverage(object):
    """Lines and branches of the code under test reached so far."""

    def __init__(self, roots):
        self.roots = tuple(roots)
        self.new = False
        self.lines = 0
        self.branches = {}
        self.hits = {}
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        tool = 3
        mon.use_tool_id(tool, 'verif')
        DISABLE = mon.DISABLE
        roots = self.roots

        def on_line(code, line):
            if code.co_filename.startswith(roots):
                self.new = True
                self.lines += 1
            return DISABLE

        def on_branch(code, off, dest):
            if not code.co_filename.startswith(roots):
                return DISABLE
            key = (code, off)
            seen = self.branches.get(key)
            if seen is None:
                self.branches[key] = [1, dest]
                self.new = True
                return None
            if dest not in seen[1:]:
                seen.append(dest)
                self.new = True
                return DISABLE
            seen[0] += 1
            if seen[0] > 3000:
                return DISABLE
            return None

        E = mon.events
        mon.register_callback(tool, E.LINE, on_line)
        mon.register_callback(tool, E.BRANCH, on_branch)
        mon.set_events(tool, E.LINE | E.BRANCH)
        self.on = True

    def take(self):
        n = self.new
        self.new = False
        return n

    def summary(self):
        return {'lines': self.lines,
                'branch_sides': sum(len(v) - 1 for v in self.branches.values())}


# ---------------------------------------------------------------- running

class Test(object):
    """
    fn(draw): draws a case, declares it with draw.show(), runs the code under
    test and raises Violation when the oracle disagrees.
    """

    def __init__(self, fn, quick, thorough=None, name=None, cpu=20, mutate=0.3, wall=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.cpu = cpu
        self.mutate = mutate
        self.wall = wall


def _on_timer(signum, frame):
    raise Hang(signum)


def run_case(test, draw, hard=False):
    """
    Returns None, or the message of the violation.

    A case that waits forever is run twice more: terminating a pool of processes may deadlock by itself, once in a while
    (a worker is ended as it holds the lock of the queue of results), whatever the code which uses the pool.
    """
    message = run_once(test, draw, hard)
    for _ in range(2):
        if message is None or not message.startswith(STUCK):
            break
        import multiprocessing
        for child in multiprocessing.active_children():
            child.kill()
        again = Draw(prefix=list(draw.rec), zero_tail=True, lits=draw.lits)
        message = run_once(test, again, hard)
    return message


STUCK = 'does not terminate: still waiting'


def run_once(test, draw, hard=False):
    if not hard:
        signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu)
        if test.wall:
            signal.setitimer(signal.ITIMER_REAL, test.wall)
    else:
        signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu)
    try:
        test.fn(draw)
        return None
    except Discard:
        draw.nt_key = None
        draw.labels.append('discarded')
        return None
    except Violation as e:
        return str(e)
    except Hang as e:
        if e.args and e.args[0] == signal.SIGALRM:
            return STUCK + ' after %d s, three times, for a case that takes milliseconds' % test.wall
        return 'does not terminate: stopped after %d s for a case that takes milliseconds' % test.cpu
    except Exception as e:
        if not draw.started:
            raise
        # The output could not even be examined by the oracle
        return 'the output could not be examined: %s: %s' % (type(e).__name__, traceback.format_exc(limit=-3)[-600:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if test.wall:
            signal.setitimer(signal.ITIMER_REAL, 0)


def mutate(rng, seq, corpus):
    seq = list(seq)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 5))):
        op = rng.randrange(7)
        n = len(seq)
        if n == 0:
            break
        i = rng.randrange(n)
        if op == 0:
            seq[i] = rng.randrange(max(2, seq[i] * 2 + 2))
        elif op == 1:
            seq[i] = max(0, seq[i] + rng.choice((-1, 1)))
        elif op == 2:
            j = min(n, i + 1 + rng.randrange(8))
            del seq[i:j]
        elif op == 3:
            j = min(n, i + 1 + rng.randrange(8))
            k = rng.randrange(n + 1)
            seq[k:k] = seq[i:j]
        elif op == 4:
            seq[i:] = []
        elif op == 5:
            other = corpus[rng.randrange(len(corpus))]
            if other:
                a = rng.randrange(len(other))
                b = min(len(other), a + 1 + rng.randrange(16))
                seq[i:i + (b - a)] = other[a:b]
        else:
            j = rng.randrange(n)
            seq[i], seq[j] = seq[j], seq[i]
    return seq


def shrink(test, seq, message, lits, budget=1500, cpu_cap=40.0):
    """Greedy shrinking of a failing choice sequence."""
    import time
    if message.startswith(STUCK):
        # Too long to be run again
        return None
    best = [list(seq), message, None]
    count = [0]
    t0 = time.process_time()
    w0 = time.time()
    hang = message.startswith('does not terminate')
    if hang:
        budget = 8
    saved_cpu = test.cpu
    if hang:
        test.cpu = min(test.cpu, 8)
        cpu_cap = 80

    cache = set()

    def attempt(cand):
        key = tuple(cand)
        if key in cache:
            return False
        cache.add(key)
        if count[0] >= budget or time.process_time() - t0 > cpu_cap or time.time() - w0 > 240:
            return False
        count[0] += 1
        d = Draw(prefix=cand, zero_tail=True, lits=lits)
        try:
            m = run_case(test, d)
        except Exception:
            return False
        if m is None:
            return False
        rec = d.rec
        while rec and rec[-1] == 0:
            rec.pop()
        if (len(rec), rec) < (len(best[0]), best[0]):
            best[0], best[1], best[2] = rec, m, d.case
            return True
        return False

    try:
        d = Draw(prefix=seq, zero_tail=True, lits=lits)
        m = run_case(test, d)
        if m is None:
            return None
        best[1], best[2] = m, d.case
        improved = True
        while improved and count[0] < budget and time.process_time() - t0 < cpu_cap:
            improved = False
            for size in (64, 32, 16, 8, 4, 3, 2, 1):
                i = len(best[0]) - size
                while i >= 0:
                    cur = best[0]
                    if attempt(cur[:i] + cur[i + size:]):
                        improved = True
                        i = min(i, len(best[0]) - size)
                    else:
                        i -= 1 if size < 8 else size // 2
            for size in (8, 4, 2):
                i = 0
                while i < len(best[0]):
                    cur = best[0]
                    if any(cur[i:i + size]) and attempt(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                        improved = True
                    i += size
            i = 0
            while i < len(best[0]):
                cur = best[0]
                v = cur[i]
                if v:
                    lo, hi = 0, v
                    if attempt(cur[:i] + [0] + cur[i + 1:]):
                        improved = True
                    else:
                        while lo + 1 < hi:
                            mid = (lo + hi) // 2
                            cur = best[0]
                            if i < len(cur) and attempt(cur[:i] + [mid] + cur[i + 1:]):
                                improved = True
                                hi = mid
                            else:
                                lo = mid
                i += 1
        return {'choices': best[0], 'message': best[1], 'case': best[2], 'executions': count[0]}
    finally:
        test.cpu = saved_cpu


def stable_hash(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def nt_digest(key):
    return hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
