"""Python side of the property-based testing engine (same interface and the
same choice-sequence representation as harness/pbt.hpp).

A property is  def name(s, c)  registered with @prop: it draws its input from
`s`, runs the code under test and calls c.check(cond, tag, message).
"""
import argparse, collections, json, math, multiprocessing as mp, os, random, resource, signal, sys, time, traceback
import numpy as np


class Discard(Exception):
    pass


class Known(Exception):
    pass


class Failure(Exception):
    def __init__(self, tag, msg):
        Exception.__init__(self, msg)
        self.tag, self.msg = tag, msg


class Hang(BaseException):
    pass


class Src(object):
    def __init__(self, seed=None, replay=None):
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None
        self.pos = 0
        self.rec = []

    def draw(self, mx):
        mx = int(mx)
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            v = min(max(v, 0), mx)
        else:
            v = self.rng.randrange(mx + 1)
        self.pos += 1
        self.rec.append(v)
        if len(self.rec) > 200000:
            raise Discard()
        return v

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo)

    def chance(self, p):
        return self.draw(999) >= round(1000 * (1.0 - p))

    def boolean(self):
        return self.draw(1) == 1

    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def uniform(self, lo, hi):
        return lo + (hi - lo) * (self.draw((1 << 40) - 1) / float((1 << 40) - 1))

    def logreal(self, lo, hi):
        return math.exp(self.uniform(math.log(lo), math.log(hi)))

    @staticmethod
    def _near(a, b, k):
        z = min(max(0, a), b)
        up, dn = b - z, z - a
        m = min(up, dn)
        if k <= 2 * m:
            return z + (k + 1) // 2 if k & 1 else z - k // 2
        k -= 2 * m
        return z + m + k if up > dn else z - m - k

    def real(self, lo, hi):
        k = self.draw(3)
        if k == 0:
            a, b = math.ceil(lo), math.floor(hi)
            if a <= b:
                return float(self._near(a, b, self.draw(b - a)))
        elif k == 1:
            a, b = math.ceil(lo * 8), math.floor(hi * 8)
            if a <= b:
                return self._near(a, b, self.draw(b - a)) / 8.0
        return self.uniform(lo, hi)

    def vec(self, n, lo, hi):
        return np.array([self.real(lo, hi) for _ in range(n)], dtype=float)

    def mat(self, m, n, lo, hi):
        return np.array([[self.real(lo, hi) for _ in range(n)] for _ in range(m)], dtype=float).reshape(m, n)

    def uvec(self, n, lo, hi):
        return np.array([self.uniform(lo, hi) for _ in range(n)], dtype=float)

    def umat(self, m, n, lo, hi):
        return np.array([[self.uniform(lo, hi) for _ in range(n)] for _ in range(m)], dtype=float).reshape(m, n)

    def orth(self, n):
        q = np.eye(n)
        for _ in range(n):
            v = self.uvec(n, -1, 1)
            ss = v.dot(v)
            if ss < 1e-3:
                continue
            q = q - (2.0 / ss) * np.outer(v, v.dot(q))
        return q

    def spd(self, n, lo, hi):
        q = self.orth(n)
        d = np.array([self.logreal(lo, hi) for _ in range(n)])
        a = (q * d).dot(q.T)
        return 0.5 * (a + a.T)

    def quat(self):
        """unit quaternion xyzw"""
        for _ in range(50):
            v = self.uvec(4, -1, 1)
            n = np.linalg.norm(v)
            if n > 1e-2:
                return v / n
        return np.array([0., 0., 0., 1.])


class Case(object):
    def __init__(self):
        self.nontrivial = False
        self.labels = collections.Counter()
        self.notes = []

    def label(self, l, b=True):
        if b:
            self.labels[l] += 1

    def note(self, *a):
        self.notes.append(" ".join(np.array2string(x, precision=10, threshold=200, separator=",").replace("\n", "")
                                   if isinstance(x, np.ndarray) else str(x) for x in a))

    def check(self, cond, tag, msg=""):
        if not bool(cond):
            raise Failure(tag, msg() if callable(msg) else str(msg))

    def fail(self, tag, msg=""):
        raise Failure(tag, msg)

    def known(self, kid):
        raise Known(kid)

    def discard_if(self, b):
        if b:
            raise Discard()


REG = collections.OrderedDict()


def prop(limit=60):
    def deco(f):
        REG[f.__name__] = (f, limit)
        return f
    return deco


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return float(np.max(np.abs(a - b))) <= tol * (1.0 + float(np.max(np.abs(a))) + float(np.max(np.abs(b))))


PASS, DISCARD, FAIL, CRASH, HANG = range(5)


class Outcome(object):
    def __init__(self):
        self.st, self.tag, self.msg, self.note = PASS, "", "", ""
        self.rec, self.nontrivial, self.labels = [], False, {}


def _on_alarm(sig, frm):
    raise Hang()


def run_here(name, s):
    f, limit = REG[name]
    o, c = Outcome(), Case()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 4 * limit)
    try:
        f(s, c)
    except Discard:
        o.st = DISCARD
    except Known as k:
        c.label("known:" + str(k))
        c.nontrivial = False
    except Failure as e:
        o.st, o.tag, o.msg = FAIL, e.tag, str(e.msg)
    except Hang:
        o.st, o.tag, o.msg = HANG, "does-not-terminate", "case used more than %d s of CPU" % limit
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        o.st, o.tag = FAIL, "uncaught-exception"
        o.msg = "%s: %s at %s" % (type(e).__name__, e, "; ".join("%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[-4:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    o.rec, o.nontrivial, o.labels = list(s.rec), c.nontrivial, dict(c.labels)
    o.note = "; ".join(c.notes)
    return o


def run_forked(name, src):
    """One case in its own process, so that a crash is an outcome."""
    r, w = mp.Pipe(False)

    def body():
        _quiet()
        o = run_here(name, src)
        w.send(o.__dict__)
        w.close()
        os._exit(0)
    p = mp.get_context("fork").Process(target=body)
    p.start()
    w.close()
    o = Outcome()
    try:
        o.__dict__.update(r.recv())
    except EOFError:
        o.st, o.tag, o.msg = CRASH, "crash", "process died"
        o.rec = list(src.replay or [])
    p.join()
    return o


def _quiet():
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    if not os.environ.get("PBT_STDERR"):
        os.dup2(nul, 2)


def case_seed(name, seed, i):
    return "%s/%d/%d" % (name, seed, i)


def shrink(name, best, budget):
    t0 = time.time()
    tag = best.tag
    st = [best]

    def attempt(cand):
        b = st[0]
        o = run_forked(name, Src(replay=cand)) if tag in ("crash",) else run_here(name, Src(replay=cand))
        if o.st >= FAIL and o.tag == tag:
            if len(o.rec) > len(cand) or not o.rec:
                o.rec = cand
            if (len(o.rec), o.rec) < (len(b.rec), b.rec):
                st[0] = o
                return True
        return False

    def left():
        return time.time() - t0 < budget
    improved = True
    while improved and left():
        improved = False
        for ln in (64, 32, 16, 8, 4, 2, 1):
            i = len(st[0].rec) - ln
            while i >= 0 and left():
                cand = list(st[0].rec)
                del cand[i:i + ln]
                if attempt(cand):
                    improved = True
                    i = min(i, len(st[0].rec) - ln)
                else:
                    i -= max(1, ln // 2)
        for ln in (16, 4, 1):
            i = 0
            while i < len(st[0].rec) and left():
                cand = list(st[0].rec)
                if any(cand[i:i + ln]):
                    cand[i:i + ln] = [0] * len(cand[i:i + ln])
                    if attempt(cand):
                        improved = True
                i += ln
        i = 0
        while i < len(st[0].rec) and left():
            lo, hi, g = 0, st[0].rec[i], 0
            while lo < hi and i < len(st[0].rec) and g < 45 and left():
                g += 1
                mid = lo + (hi - lo) // 2
                cand = list(st[0].rec)
                cand[i] = mid
                if attempt(cand):
                    improved = True
                    hi = min(mid, st[0].rec[i]) if i < len(st[0].rec) else 0
                else:
                    lo = mid + 1
            i += 1
    return st[0]


def _worker(name, seed, w, W, cases, t_end, q, stop):
    _quiet()
    nsamp = 0
    for i in range(w, cases, W):
        if stop.value or time.time() > t_end:
            break
        q.put(("start", w, i))
        o = run_here(name, Src(seed=case_seed(name, seed, i)))
        d = o.__dict__
        d["hash"] = hash(tuple(o.rec))
        sample = o.nontrivial and o.st == PASS and nsamp < 1
        nsamp += sample
        if not sample and o.st < FAIL:
            d["note"] = ""
        if o.st < FAIL:
            d["rec"] = []
        q.put(("done", i, d))
        if o.st >= FAIL:
            break
    q.put(("end", w, None))


def run_prop(name, seed, cases, workers, max_s, shrink_s):
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Value("i", 0)
    t0 = time.time()
    S = dict(prop=name, planned=cases, evaluations=0, discards=0, nontrivial=0, labels=collections.Counter(),
             samples=[], failures=[], unstable=[])
    distinct, raw, cur = set(), [], {}
    ps = [ctx.Process(target=_worker, args=(name, seed, w, workers, cases, t0 + max_s, q, stop)) for w in range(workers)]
    for p in ps:
        p.start()
    live = set(range(workers))
    while live:
        try:
            m = q.get(timeout=1.0)
        except Exception:
            for w in list(live):
                if not ps[w].is_alive() and q.empty():
                    live.discard(w)
                    if ps[w].exitcode != 0:
                        raw.append((cur.get(w, 0), None))
                        S["evaluations"] += 1
                        stop.value = 1
            continue
        if m[0] == "start":
            cur[m[1]] = m[2]
        elif m[0] == "end":
            live.discard(m[1])
        else:
            i, d = m[1], m[2]
            S["evaluations"] += 1
            if d["st"] == DISCARD:
                S["discards"] += 1
            elif d["nontrivial"]:
                S["nontrivial"] += 1
                distinct.add(d["hash"])
            S["labels"].update(d["labels"])
            if d["st"] >= FAIL:
                raw.append((i, d))
                stop.value = 1
            elif d["note"] and len(S["samples"]) < 3:
                S["samples"].append("case %d: %s" % (i, d["note"][:1500]))
    for p in ps:
        p.join()
    tags = set()
    for i, d in sorted(raw, key=lambda x: x[0]):
        if d and (d["tag"] in tags or len(tags) >= 3):
            continue
        o = run_forked(name, Src(replay=d["rec"]) if d else Src(seed=case_seed(name, seed, i)))
        if o.st < FAIL:
            S["unstable"].append(dict(tag=d["tag"] if d else "crash", msg=d["msg"] if d else "", case=d["note"] if d else "",
                                      choices="seed %s" % case_seed(name, seed, i)))
            continue
        if o.tag in tags:
            continue
        tags.add(o.tag)
        first = o
        if o.rec and o.st != HANG:
            o = shrink(name, o, shrink_s)

        def stable(o):
            return all(run_forked(name, Src(replay=o.rec) if o.rec else Src(seed=case_seed(name, seed, i))).st >= FAIL for _ in range(3))
        if not stable(o):
            o = first
            if not stable(o):
                S["unstable"].append(dict(tag=o.tag, msg=o.msg, case=o.note, choices=" ".join(map(str, o.rec))))
                continue
        S["failures"].append(dict(tag=o.tag, msg=o.msg[:4000], case=o.note[:6000],
                                  choices=" ".join(map(str, o.rec)) if o.rec else "seed %s" % case_seed(name, seed, i)))
    S["distinct_nontrivial"] = len(distinct)
    S["wall_s"] = time.time() - t0
    return S


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--max-s", type=float, default=600)
    ap.add_argument("--shrink-s", type=float, default=30)
    ap.add_argument("--replay", nargs=2)
    ap.add_argument("--replay-file", nargs=2)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("todo", nargs="*")
    a = ap.parse_args()
    if a.list:
        print("\n".join(REG))
        return 0
    if a.replay or a.replay_file:
        name, seq = a.replay or a.replay_file
        if a.replay_file:
            seq = open(seq).read()
        src = Src(seed=seq[5:].strip()) if seq.startswith("seed ") else Src(replay=[int(x) for x in seq.split()])
        o = run_here(name, src) if os.environ.get("PBT_DIRECT") else run_forked(name, src)
        print("%s\ntag: %s\nmsg: %s\ncase: %s" % (["PASS", "DISCARD", "FAIL", "CRASH", "HANG"][o.st], o.tag, o.msg, o.note))
        return 1 if o.st >= FAIL else 0
    res, t0 = [], time.time()
    for t in a.todo:
        name, _, n = t.partition(":")
        if name not in REG:
            sys.stderr.write("no such property %s\n" % name)
            return 2
        S = run_prop(name, a.seed, int(n or 100), a.workers, max(1.0, a.max_s - (time.time() - t0)), a.shrink_s)
        res.append(S)
        if os.environ.get("PBT_VERBOSE"):
            sys.stderr.write("%s: %d evals, %d nontrivial (%d distinct), %d discards, %.1f s %s\n" % (
                name, S["evaluations"], S["nontrivial"], S["distinct_nontrivial"], S["discards"], S["wall_s"], dict(S["labels"])))
            for x in S["failures"]:
                sys.stderr.write("  FAIL [%s] %s\n    case: %s\n    choices(%d)\n" % (x["tag"], x["msg"], x["case"][:3000], len(x["choices"].split())))
            for x in S["unstable"]:
                sys.stderr.write("  UNSTABLE [%s] %s\n" % (x["tag"], x["msg"]))
    txt = json.dumps(res)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(txt)
    return 1 if any(S["failures"] for S in res) else 0
