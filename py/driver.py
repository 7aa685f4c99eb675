"""Executes scripted uses of the Python bindings, one JSON line per case, and describes what they did.

Every case is a list of operations. The description of a case is one field per operation:
exceptions as E:<class>, exceptions that are no Exception (a panic) as P:<class>, and values in a
form that shows the bits of every float.
"""
import json, math, os, struct, sys, threading

OUT = os.fdopen(os.dup(1), "w", buffering=1)
NULL = os.open(os.devnull, os.O_WRONLY)
os.dup2(NULL, 1)
os.dup2(NULL, 2)
sys.path.insert(0, sys.argv[1])
import pyglobalsearch as gs

try:
    import numpy as np
except ImportError:
    np = None

M = (1 << 64) - 1
P = 0x100000001B3
H0 = 0xCBF29CE484222325
CAP = 4000  # calls between two looks at the log


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def text_hash(s):
    h = H0
    for b in s.encode():
        h = ((h ^ b) * P) & M
    return h


# ---------------------------------------------------------------- functions
TL = threading.local()


class Boom(Exception):
    pass


def fsum(vals):
    s = -0.0
    for v in vals:
        s += v
    return s


def value(kind, x):
    if kind in ("Sphere", "Patchy"):
        if kind == "Patchy" and fsum(v * v for v in x) > 4.0:
            raise Boom("patchy")
        return fsum((v - 0.3) * (v - 0.3) for v in x)
    if kind == "Wells":
        return fsum((v * v - 1.0) * (v * v - 1.0) for v in x)
    if kind == "Tilted":
        return fsum((v * v - 1.0) * (v * v - 1.0) + 0.25 * v for v in x)
    if kind == "High":
        return 100.0 + value("Tilted", x)
    if kind == "Slope":
        return fsum(0.5 * math.sqrt(1.0 + (v + 4.0) * (v + 4.0)) - 2.0 for v in x)
    if kind == "Flat":
        return 7.0
    if kind == "Rosen":
        if len(x) == 1:
            a, b = 1.0 - x[0], x[0] * x[0] - x[0]
            return a * a + 5.0 * (b * b)
        s = -0.0
        for a, b in zip(x, x[1:]):
            p, q = 1.0 - a, b - a * a
            s += p * p + 20.0 * (q * q)
        return s
    if kind == "Holes":
        if x[0] > 1.2:
            return math.inf
        if 0.5 < x[0] < 0.9:
            return math.nan
        return value("Wells", x)
    raise KeyError(kind)


def grad(kind, x):
    if kind in ("Sphere", "Patchy"):
        return [2.0 * (v - 0.3) for v in x]
    if kind in ("Wells", "Holes"):
        return [4.0 * v * (v * v - 1.0) for v in x]
    if kind in ("Tilted", "High"):
        return [4.0 * v * (v * v - 1.0) + 0.25 for v in x]
    if kind == "Slope":
        return [0.5 * (v + 4.0) / math.sqrt(1.0 + (v + 4.0) * (v + 4.0)) for v in x]
    if kind == "Flat":
        return [0.0 for _ in x]
    if kind == "Rosen":
        g = [0.0] * len(x)
        if len(x) == 1:
            g[0] = -2.0 * (1.0 - x[0]) + 10.0 * (x[0] * x[0] - x[0]) * (2.0 * x[0] - 1.0)
        for i in range(len(x) - 1):
            r = x[i + 1] - x[i] * x[i]
            g[i] += -2.0 * (1.0 - x[i]) - 80.0 * x[i] * r
            g[i + 1] += 40.0 * r
        return g
    raise KeyError(kind)


def hess(kind, x):
    n = len(x)
    h = [[0.0] * n for _ in x]
    if kind == "Rosen":
        if n == 1:
            a = 2.0 * x[0] - 1.0
            h[0][0] = 2.0 + 10.0 * (a * a + 2.0 * (x[0] * x[0] - x[0]))
        for i in range(n - 1):
            h[i][i] += 2.0 - 80.0 * (x[i + 1] - 3.0 * x[i] * x[i])
            h[i][i + 1] += -80.0 * x[i]
            h[i + 1][i] += -80.0 * x[i]
            h[i + 1][i + 1] += 40.0
        return h
    for i, v in enumerate(x):
        if kind in ("Sphere", "Patchy"):
            h[i][i] = 2.0
        elif kind in ("Wells", "Holes", "Tilted", "High"):
            h[i][i] = 12.0 * v * v - 4.0
        elif kind == "Flat":
            h[i][i] = 0.0
        else:
            raise KeyError(kind)
    return h


def constraint(i, x):
    if i == 0:
        return x[0] - 0.5
    if i == 1:
        return -x[0] - 0.25
    if i == 2:
        return x[0] + x[-1] - 1.0
    if i == 3:
        return 1.0 - x[0] * x[0]
    if i == 4:
        raise Boom("constraint")
    if i == 5:
        return "text"
    if i == 6:
        return None
    raise KeyError(i)


BAD = {
    "none": lambda v: None,
    "text": lambda v: "1.0",
    "long": lambda v: list(v) + [list(v[0]) if isinstance(v[0], (list, tuple)) else 0.0],
    "short": lambda v: list(v)[:-1],
    "empty": lambda v: [],
    "wrap": lambda v: [v],
    "ragged": lambda v: [list(v[0]) + [0.0]] + [list(r) for r in v[1:]],
    "thin": lambda v: [list(r)[:-1] for r in v],
    "words": lambda v: ["a" for _ in v],
    "number": lambda v: 3.0,
}


def convert(how, v):
    if how == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in v) if isinstance(v, list) else v
    if how == "numpy" and np is not None:
        return np.array(v) if isinstance(v, list) else np.float64(v)
    if how == "ints":
        return [[int(a) for a in r] for r in v] if isinstance(v, list) else v
    return v


class Fn:
    """One of the user's functions: counts its calls, records them, and misbehaves on request."""

    def __init__(self, env, spec):
        self.env, self.spec = env, spec
        self.n = 0

    def __call__(self, *args):
        spec, env = self.spec, self.env
        what = spec["what"]
        with env.lock:
            self.n += 1
            n = self.n
        t = getattr(TL, "t", None)
        if env.baton is not None and t is not None:
            env.baton.point(t)
        tag = {"obj": 1, "grad": 2, "hess": 3}.get(what)
        if tag and spec.get("log", True):
            x = args[0]
            e = (H0 ^ tag) * P & M
            for v in x:
                e = ((e ^ bits(v)) * P) & M
            with env.lock:
                env.ordered = ((env.ordered * P) ^ e) & M
                env.total = (env.total + e) & M
                env.calls += 1
            if env.calls > CAP:
                raise Boom("cut off")
        fault = spec.get("fault")
        bad = None
        if fault and fault["k"] in (0, n):
            how = fault["how"]
            if how == "raise":
                raise Boom("scripted")
            elif how == "do":
                env.inner.append([env.op(o) for o in fault["ops"]])
            else:
                bad = BAD[how]
        if what == "cb":
            s = fmt(args[0]) + "/" + fmt(args[1])
            with env.lock:
                env.cb_n += 1
                env.cb_h = ((env.cb_h * P) ^ text_hash(s)) & M
            return None
        if what == "bounds":
            v = spec["bounds"]
        elif what == "obj":
            v = value(spec["kind"], args[0])
        elif what == "grad":
            v = grad(spec["kind"], args[0])
        elif what == "hess":
            v = hess(spec["kind"], args[0])
        else:
            v = constraint(spec["i"], args[0])
        if bad:
            return bad(v)
        return convert(spec.get("as"), v)


# ---------------------------------------------------------------- values
def points(v):
    return "[" + ",".join("%016x" % bits(a) for a in v) + "]"


def local(s):
    a, b = s.point, s.x()
    if points(a) != points(b) or bits(s.objective) != bits(s.fun()):
        return "INCONSISTENT(%r)" % s
    return points(a) + "=%016x" % bits(s.objective)


def solution_set(s):
    a = [local(x) for x in s.solutions]
    if [local(x) for x in s] != a or [local(s[i]) for i in range(len(s))] != a:
        return "INCONSISTENT(%r)" % s
    if s.is_empty() != (len(a) == 0) or (s.best_solution() is None) != (len(a) == 0):
        return "INCONSISTENT(%r)" % s
    try:
        s[len(a)]
        return "INCONSISTENT(index)"
    except IndexError:
        pass
    # iterators are independent of each other, and of the set
    if a:
        i, j = iter(s), iter(s)
        if local(next(i)) != local(next(j)) or len(list(i)) != len(a) - 1 or len(list(j)) != len(a) - 1:
            return "INCONSISTENT(iterators)"
    return "{" + ";".join(a) + "}"


def some(t):
    return "None" if t is None else "Some"


def fmt(v):
    if v is None or v is True or v is False:
        return str(v)
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f%016x" % bits(v)
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(fmt(x) for x in v) + "]"
    name = type(v).__name__
    if name == "PySolutionSet":
        return solution_set(v)
    if name == "PyLocalSolution":
        return local(v)
    if name == "PyStage1State":
        str(v), repr(v)
        return "S1(%s,%d,%d,%d,%016x,%s,%s)" % (
            v.current_substage, v.function_evaluations, v.trial_points_generated, v.reference_set_size,
            bits(v.best_objective), "None" if v.best_point is None else points(v.best_point), some(v.total_time))
    if name == "PyStage2State":
        str(v), repr(v)
        return "S2(%d,%d,%d,%d,%d,%016x,%s,%016x,%d,%s,%s)" % (
            v.current_iteration, v.function_evaluations, v.local_solver_calls, v.improved_local_calls,
            v.solution_set_size, bits(v.best_objective), "None" if v.best_point is None else points(v.best_point),
            bits(v.threshold_value), v.unchanged_cycles,
            "None" if v.last_added_point is None else points(v.last_added_point), some(v.total_time))
    if name == "PyObserver":
        str(v)
        return "O(%s,%s,%s,%s,%s,%s,%s)" % (
            v.should_observe_stage1, v.should_observe_stage2, v.is_timing_enabled, some(v.elapsed_time),
            fmt(v.stage1()), fmt(v.stage1_final()), fmt(v.stage2()))
    return "<%s>" % name


# ---------------------------------------------------------------- schedules
class Baton:
    """Two threads, one of which runs at a time; they change over at chosen calls."""

    def __init__(self, switches):
        self.cv = threading.Condition()
        self.turn, self.done = 0, [False, False]
        self.n = [0, 0]
        self.switches = [set(switches[0]), set(switches[1])]
        self.taken = 0

    def point(self, t):
        with self.cv:
            self.n[t] += 1
            if self.n[t] in self.switches[t] and not self.done[1 - t]:
                self.turn = 1 - t
                self.taken += 1
                self.cv.notify_all()
            while self.turn != t and not self.done[1 - t]:
                self.cv.wait()

    def start(self, t):
        with self.cv:
            while self.turn != t and not self.done[1 - t]:
                self.cv.wait()

    def end(self, t):
        with self.cv:
            self.done[t] = True
            self.turn = 1 - t
            self.cv.notify_all()


class Env:
    def __init__(self):
        self.v = {"gs": gs}
        self.lock = threading.Lock()
        self.baton = None
        self.inner = []
        self.clear()

    def clear(self):
        self.ordered, self.total, self.calls = H0, 0, 0
        self.cb_n, self.cb_h = 0, H0

    def val(self, v):
        if isinstance(v, dict):
            if "ref" in v:
                o = self.v[v["ref"]]
                for a in v.get("path", []):
                    o = getattr(o, a)
                return o
            if "np" in v:
                return np.array(self.val(v["np"])) if np is not None else self.val(v["np"])
            if "tuple" in v:
                return tuple(self.val(a) for a in v["tuple"])
            if "many" in v:
                return [self.val(v["many"])] * v["n"]
        if isinstance(v, list):
            return [self.val(a) for a in v]
        return v

    def op(self, o):
        try:
            return self.do(o)
        except Exception as e:
            return "E:" + type(e).__name__
        except BaseException as e:
            return "P:" + type(e).__name__ + ":" + str(e)[:300]

    def do(self, o):
        k = o[0]
        if k == "fn":
            self.v[o[1]] = Fn(self, o[2])
            return "ok"
        if k == "new":
            f = gs
            for a in o[2].split("."):
                f = getattr(f, a)
            r = f(*self.val(o[3]), **{k: self.val(v) for k, v in o[4].items()})
            self.v[o[1]] = r
            return "ok"
        if k == "set":
            setattr(self.v[o[1]], o[2], self.val(o[3]))
            return "ok"
        if k == "get":
            r = getattr(self.v[o[1]], o[2])
            return fmt(r)
        if k == "call":
            return fmt(getattr(self.v[o[1]], o[2])(*self.val(o[3])))
        if k == "show":
            return fmt(self.v[o[1]])
        if k == "str":
            return str(self.v[o[1]]) + "|" + repr(self.v[o[1]])
        if k == "run":
            r = gs.optimize(*self.val(o[1]), **{k: self.val(v) for k, v in o[2].items()})
            if len(o) > 3:
                self.v[o[3]] = r
            return fmt(r)
        if k == "log":
            r = "%d:%016x" % (self.calls, self.total if o[1] else self.ordered)
            r += ":%d:%016x" % (self.cb_n, self.cb_h)
            self.clear()
            return r
        if k == "inner":
            r, self.inner = self.inner, []
            return "|".join(",".join(x) for x in r)
        if k == "caught":  # output of the library while one operation runs
            import tempfile
            with tempfile.TemporaryFile() as f:
                os.dup2(f.fileno(), 1)
                os.dup2(f.fileno(), 2)
                r = self.op(o[1])
                os.dup2(NULL, 1)
                os.dup2(NULL, 2)
                f.seek(0)
                t = f.read().decode("utf-8", "replace")
            return r + "\n" + t
        if k == "threads":
            b = self.baton = Baton(o[3])
            res = [None, None]

            def go(t, ops):
                TL.t = t
                b.start(t)
                try:
                    res[t] = [self.op(x) for x in ops]
                finally:
                    b.end(t)

            ts = [threading.Thread(target=go, args=(t, o[1 + t])) for t in (0, 1)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            self.baton = None
            return "|".join(",".join(r) for r in res)
        raise KeyError(k)


def main():
    for line in sys.stdin:
        ops = json.loads(line)
        env = Env()
        r = [env.op(o) for o in ops]
        OUT.write("\x1f".join(r).replace("\n", "\x1e") + "\n")
        OUT.flush()


main()
