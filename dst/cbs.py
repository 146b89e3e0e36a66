"""User code that a simulation calls: solvers, functions, equations, streams.

All of it lives in sessions and counts its calls; cb_arm() schedules what the
n-th call of one kind does instead of its work.
"""
import array
import math

import devsim

COUNT = {}
ARM = {}
FIRED = {}
DATA = {}


class CallbackError(Exception):
    pass


def cb_arm(faults):
    """faults: list of {kind, at, how}; kind: factor solve init math eq filter out."""
    ARM.clear()
    FIRED.clear()
    COUNT.clear()
    for f in faults:
        ARM[(f["kind"], f.get("at", 0))] = f["how"]


def cb_disarm():
    """Returns (calls per kind, fired per kind)."""
    r = (dict(COUNT), dict(FIRED))
    ARM.clear()
    COUNT.clear()
    FIRED.clear()
    return r


def tick(kind):
    n = COUNT.get(kind, 0)
    COUNT[kind] = n + 1
    how = ARM.get((kind, n))
    if how is not None:
        FIRED[kind] = FIRED.get(kind, 0) + 1
        if how == "raise":
            raise CallbackError("callback %s fails at call %d" % (kind, n))
        if how == "raisedev":
            raise devsim.error("callback %s fails at call %d" % (kind, n))
        if how == "raisebase":
            raise KeyboardInterrupt("callback %s is interrupted at call %d" % (kind, n))
        if how == "nested":
            # a command that fails inside the callback
            devsim.get_node_model_values(device="no such device", region="none", name="none")
    return how


class Evil:
    """Raises wherever the simulator looks at it; length says what it claims to hold."""

    def __init__(self, length=None):
        self.length = length

    def _raise(self, *a):
        raise ValueError("unusable")

    __str__ = __float__ = __int__ = __index__ = __bool__ = __getitem__ = __iter__ = __bytes__ = _raise

    def __len__(self):
        if self.length is None:
            raise ValueError("unusable")
        return self.length

    def __repr__(self):
        return "Evil"


class Liar(list):
    """A list which is empty as soon as it has told its length."""

    def __len__(self):
        n = list.__len__(self)
        self.clear()
        return n


JUNK = {"evil": Evil(), "evil3": Evil(3), "big": 10 ** 40, "surrogate": "a\ud800", "nested-list": [[1, 2], [3.0], [None]], "set": {1, 2},
        "bytes": b"\xff\x00", "type": int, "complex": 1j, "none": None, "str": "junk", "num": 3, "list": [], "badlist": ["a", None], "dict": {}, "obj": object()}


# ------------------------------------------------------------------ solver
class Lu:
    def __init__(self, n):
        self.n = n

    def factor(self, kw):
        Ap, Ai, Ax = kw["Ap"], kw["Ai"], kw["Ax"]
        n = self.n
        cx = kw["is_complex"]
        A = [[0.0] * n for _ in range(n)]
        for c in range(n):
            for k in range(Ap[c], Ap[c + 1]):
                A[Ai[k]][c] += complex(Ax[2 * k], Ax[2 * k + 1]) if cx else Ax[k]
        # row scaling, partial pivoting
        self.sc = []
        for r in A:
            m = max([abs(x) for x in r] + [0.0])
            if not m > 0 or not math.isfinite(m):
                return False
            self.sc.append(1.0 / m)
            for j in range(n):
                r[j] /= m
        p = list(range(n))
        for k in range(n):
            q = max(range(k, n), key=lambda i: abs(A[i][k]))
            if not abs(A[q][k]) > 0:
                return False
            if q != k:
                A[k], A[q] = A[q], A[k]
                p[k], p[q] = p[q], p[k]
            for i in range(k + 1, n):
                if A[i][k] != 0:
                    f = A[i][k] / A[k][k]
                    A[i][k] = f
                    Ak, Aii = A[k], A[i]
                    for j in range(k + 1, n):
                        if Ak[j] != 0:
                            Aii[j] -= f * Ak[j]
        self.A, self.p = A, p
        return True

    def solve(self, b, transpose=False):
        A, n = self.A, self.n
        if not transpose:
            y = [b[i] * self.sc[i] for i in self.p]
            for i in range(n):
                for j in range(i):
                    y[i] -= A[i][j] * y[j]
            for i in reversed(range(n)):
                for j in range(i + 1, n):
                    y[i] -= A[i][j] * y[j]
                y[i] /= A[i][i]
            return y
        y = list(b)
        for i in range(n):
            for j in range(i):
                y[i] -= A[j][i] * y[j]
            y[i] /= A[i][i]
        for i in reversed(range(n)):
            for j in range(i + 1, n):
                y[i] -= A[j][i] * y[j]
        x = [0.0] * n
        for i in range(n):
            x[self.p[i]] = y[i] * self.sc[self.p[i]]
        return x


def solver(**kw):
    action = kw["action"]
    how = tick(action)
    if how in JUNK:
        return JUNK[how]
    r = {"status": True, "message": ""}
    if how == "status":
        r["status"] = False
        r["message"] = "scheduled failure of %s" % action
    if action == "init":
        s = Lu(kw["n"])
        s.transpose = kw["transpose"]
        r["solver_object"] = s
        r["matrix_format"] = "csc"
        if how == "format":
            r["matrix_format"] = "xyz"
    else:
        s = kw["solver_object"]
    if action == "factor":
        if how != "status" and not s.factor(kw):
            r["status"] = False
            r["message"] = "singular"
    elif action == "solve":
        if kw["is_complex"]:
            b = kw["b"]
            b = [complex(b[2 * i], b[2 * i + 1]) for i in range(s.n)] if len(b) == 2 * s.n else list(b)
            x = [v for z in s.solve(b, s.transpose) for v in (complex(z).real, complex(z).imag)]
        else:
            x = s.solve(list(kw["b"]), s.transpose)
        if how == "short":
            x = x[:-1]
        elif how == "long":
            x = x + [0.0]
        elif how == "nan":
            x[len(x) // 2] = math.nan
        elif how == "allnan":
            x = [math.nan] * len(x)
        elif how == "inf":
            x[len(x) // 2] = math.inf
        elif how == "strings":
            x = [str(v) for v in x]
        elif how == "nox":
            x = None
        elif how == "xnum":
            x = 3.0
        elif how in ("xevil", "xevil3"):
            x = JUNK[how[1:]]
        elif how == "xliar":
            x = Liar(x)
        elif how == "xbytes":
            x = b"1234567" * len(x)
        if kw["is_complex"] and type(x) is list and how != "strings":
            # the only form which is accepted
            x = array.array("d", x)
        if x is not None:
            r["x"] = x
    if how == "nostatus":
        del r["status"]
    elif how == "nomessage":
        del r["message"]
    elif how == "badstatus":
        r["status"] = "perhaps"
    elif how == "nosolver":
        r.pop("solver_object", None)
    return r


def use_solver():
    devsim.set_parameter(name="direct_solver", value="custom")
    devsim.set_parameter(name="solver_callback", value=solver)


# ------------------------------------------------------- math functions
def _mval(how, v):
    if how in JUNK:
        return JUNK[how]
    if how == "nan":
        return math.nan
    if how == "inf":
        return math.inf
    return v


def usq(x):
    return _mval(tick("math"), x * x + 0.25 * x)


def dusqdx(x):
    return _mval(tick("math"), 2 * x + 0.25)


def umul(x, y):
    return _mval(tick("math"), x * y)


def dumuldx(x, y):
    return _mval(tick("math"), y)


def dumuldy(x, y):
    return _mval(tick("math"), x)


MATH = {"usq": (usq, 1), "dusqdx": (dusqdx, 1), "umul": (umul, 2), "dumuldx": (dumuldx, 2), "dumuldy": (dumuldy, 2)}


def use_math():
    for n, (f, k) in MATH.items():
        devsim.register_function(name=n, nargs=k, procedure=f)
    devsim.symdiff(expr="declare(dusqdx(x))")
    devsim.symdiff(expr="declare(dumuldx(x,y))")
    devsim.symdiff(expr="declare(dumuldy(x,y))")
    devsim.symdiff(expr="declare(usq(x))")
    devsim.symdiff(expr="define(usq(x), dusqdx(x))")
    devsim.symdiff(expr="declare(umul(x,y))")
    devsim.symdiff(expr="define(umul(x,y), dumuldx(x,y), dumuldy(x,y))")


# ---------------------------------------------------- custom equations
def eqfun(what, mode):
    """Pulls node 1 of the first region towards 0.3 with a resistive and a charge term."""
    how = tick("eq")
    if how in JUNK:
        return JUNK[how]
    dev, reg, var = DATA["eq"]
    ind = int(devsim.get_equation_numbers(device=dev, region=reg, equation=var[1])[1])
    u = devsim.get_node_model_values(device=dev, region=reg, name=var[0])[1]
    g = 0.2 if mode == "DC" else 0.05
    mat, rhs = [], []
    if what != "RHS":
        mat = [ind, ind, g]
    if what != "MATRIXONLY":
        rhs = [ind, g * (u - 0.3)]
    if what == "PERMUTATIONSONLY":
        mat, rhs = [], []
    r = (tuple(rhs), tuple(mat), True)
    r = (list(mat), list(rhs), True)
    if how == "two":
        return r[:2]
    if how == "badbool":
        return (mat, rhs, "maybe")
    if how == "oddmat":
        return (mat + [1], rhs, True)
    if how == "oddrhs":
        return (mat, rhs + [1], True)
    if how == "strmat":
        return (["a", "b", "c"], rhs, True)
    if how == "strrhs":
        return (mat, ["a", "b"], True)
    if how == "bigrow":
        return (mat, [10 ** 6, 1.0], True)
    if how == "negrow":
        return (mat, [-1, 1.0], True)
    if how == "bigmat":
        return ([10 ** 6, ind, 1.0], rhs, True)
    if how == "bigcol":
        return ([ind, 10 ** 6, 1.0], rhs, True)
    if how == "negmat":
        return ([-5, -7, 1.0], rhs, True)
    if how == "bigrowraw":
        return (mat, [10 ** 6, 1.0], False)
    if how == "bigmatraw":
        return ([10 ** 6, 10 ** 6, 1.0], rhs, False)
    if how == "nan":
        return (mat, [ind, math.nan], True)
    if how == "evilbool":
        return (mat, rhs, JUNK["evil"])
    if how == "evilmat":
        return (JUNK["evil3"], rhs, True)
    if how == "evilrhs":
        return (mat, JUNK["evil"], True)
    if how == "hugerow":
        return (mat, [10 ** 40, 1.0], True)
    if how == "matnum":
        return (3, rhs, True)
    if how == "liar":
        return (Liar(mat), Liar(rhs), True)
    return r


def use_eq(dev, reg, var, eqname):
    DATA["eq"] = (dev, reg, (var, eqname))
    devsim.custom_equation(name="ceq", procedure=eqfun)
