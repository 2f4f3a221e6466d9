"""C22: a function marked @native computes what the same Python function
computes under CPython and NumPy.

Every case is a generated function (loops, branches, element and slice
assignments, NumPy calls, returns) and a history of calls with generated
arguments (sizes, memory layouts, values).  The oracle is the undecorated
function on equal arguments: same returned values and the same contents of
every argument afterwards.  A case is a list of integers; failures are shrunk
by deleting and zeroing integers, each attempt in its own process.
"""
import argparse, hashlib, json, os, random, re, select, signal, sys, tempfile, time, traceback, types
import numpy as np

VERIF = os.environ.get("VERIF_DIR", "/verif")

# ---------------------------------------------------------------- choices
class Src:
    def __init__(self, rng=None, data=None):
        self.rng, self.data, self.pos, self.rec = rng, data, 0, []

    def n(self, k):
        """0 <= result < k; 0 is the simplest choice."""
        if self.data is not None:
            v = self.data[self.pos] if self.pos < len(self.data) else 0
            self.pos += 1
            v %= k
        else:
            v = self.rng.randrange(k)
        self.rec.append(v)
        return v

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def p(self, num, den):
        """True with probability num/den; the simplest choice is False."""
        return self.n(den) >= den - num


# ---------------------------------------------------------------- programs
DIMS = ("N", "M", "K")
F, I = "f", "i"


class Prog:
    """Writes one function.  Array shapes are tuples over DIMS, '1', and
    derived lengths such as 'N-1', 'ceil(N/2)'; sizes of N, M, K are >= 3."""

    def __init__(self, s):
        self.s = s
        self.lines, self.ind = [], 1
        self.arr = {}      # name -> (shape, type)
        self.args = []     # (name, kind, shape/None, type)
        self.sc = {}       # scalar name -> type
        self.ro = set()    # scalars never assigned (loop variables, parameters)
        self.labels = set()
        self.nt = 0
        self.loops = []    # (var, dim): 0 <= var < dim
        self.clean = set() # arrays that still hold exact argument values
        self.views = {}    # view name -> base
        self.depth = 0
        self.contig = set()  # operands of matrix products: not called with stepped arrays
        self.ban = None    # array being assigned: its old value is not read as a whole or by slices
        self.whole = True  # the value goes to a whole new array

    # -- helpers
    def emit(self, t):
        self.lines.append("    " * self.ind + t)

    def fresh(self, p):
        self.nt += 1
        return "%s%d" % (p, self.nt)

    def lab(self, x):
        self.labels.add(x)

    def const(self, t):
        if t == I:
            return str(self.s.pick((1, 2, 3, 0, 5)))
        return self.s.pick(("1.0", "0.5", "2.0", "0.25", "1.5", "3.0"))

    def scalars(self, t):
        return [n for n, ty in self.sc.items() if ty == t]

    def base(self, n):
        while n in self.views:
            n = self.views[n]
        return n

    # -- scalar expressions
    def iexpr(self, d=2):
        """Integer scalar expression with small values."""
        s = self.s
        k = s.n(4 if d else 2)
        if k == 0:
            return self.const(I)
        if k == 1:
            xs = self.scalars(I)
            return s.pick(xs) if xs else self.const(I)
        a, b = self.iexpr(d - 1), self.iexpr(d - 1)
        op = s.pick(("+", "-", "*", "//", "%", "&", "|", "^", "min", "max", ">>"))
        self.lab("int " + op)
        if op in ("//", "%"):
            return "(%s %s %s)" % (a, op, s.pick(("3", "2", "4", "5")))
        if op == ">>":
            return "(max(%s, 0) >> %s)" % (a, s.pick(("1", "2")))
        if op in ("min", "max"):
            return "%s(%s, %s)" % (op, a, b)
        if op == "*":
            return "(%s * %s)" % (a, self.const(I))
        return "(%s %s %s)" % (a, op, b)

    def index(self, dim):
        """An expression that is a valid, non-negative index of a dimension."""
        s = self.s
        vs = [v for v, d in self.loops if d == dim]
        if vs and not s.p(1, 5):
            return s.pick(vs)
        base = dim.split("-")[0]
        if dim in DIMS:
            k = s.n(3)
            if k == 2:
                self.lab("negative index")
                return "-" + s.pick(("1", "2"))
            return ("0", "1")[k]
        return "0"

    def element(self, t=F):
        """A read of one array element, or None."""
        s = self.s
        c = [n for n, (sh, ty) in self.arr.items() if ty == t and sh and all(d in DIMS for d in sh)]
        if not c:
            return None
        n = s.pick(c)
        sh = self.arr[n][0]
        idx = []
        for d in sh:
            vs = [v for v, dd in self.loops if dd == d + "-1"]
            if vs and s.p(1, 2):
                self.lab("neighbour index")
                v = s.pick(vs)
                idx.append(s.pick((v, v + " + 1")))
            else:
                idx.append(self.index(d))
        return "%s[%s]" % (n, ", ".join(idx))

    def fexpr(self, d=2):
        s = self.s
        k = s.n(7 if d else 3)
        if k == 0:
            return self.const(F)
        if k == 1:
            xs = self.scalars(F)
            return s.pick(xs) if xs else self.const(F)
        if k == 2:
            return self.element() or self.const(F)
        if k == 5:
            f = s.pick(("math.fabs", "min", "max", "neg", "math.sqrt", "math.exp", "math.sin", "math.floor"))
            self.lab("scalar " + f)
            a = self.fexpr(d - 1)
            if f == "neg":
                return "(-(%s + 0.0))" % a
            if f in ("min", "max"):
                return "%s(%s, %s)" % (f, a, self.fexpr(d - 1))
            if f == "math.sqrt":
                return "math.sqrt(math.fabs(%s))" % a
            if f == "math.exp":
                return "math.exp(-math.fabs(%s))" % a
            if f == "math.floor":
                v = self.exact()
                return "math.floor(%s)" % v
            return "%s(%s)" % (f, a)
        if k == 6:
            xs = self.scalars(I)
            if xs:
                self.lab("mixed int float")
                return "(%s %s %s)" % (s.pick(xs), s.pick("+-*"), self.fexpr(d - 1))
        op = s.pick(("+", "-", "*", "/", "//", "%"))
        a = self.fexpr(d - 1)
        if op == "/":
            return "(%s / %s)" % (a, s.pick(("2.0", "4.0", "3.0", "-1.5")))
        if op in ("//", "%"):
            self.lab("float " + op)
            return "(%s %s %s)" % (self.exact(), op, s.pick(("2.0", "0.75", "-1.5")))
        return "(%s %s %s)" % (a, op, self.fexpr(d - 1))

    def exact(self):
        """A scalar float read whose value is an argument value (no rounding
        error, so that comparisons cannot depend on it)."""
        c = [n for n in self.arr if n in self.clean and self.arr[n][1] == F and self.arr[n][0]]
        ps = [n for n, k, sh, t in self.args if k == "scalar" and t == F]
        k = self.s.n(2)
        if c and (k == 0 or not ps):
            n = self.s.pick(c)
            return "%s[%s]" % (n, ", ".join(self.index(d) for d in self.arr[n][0]))
        if ps:
            return self.s.pick(ps)
        return "1.5"

    def cond(self):
        s = self.s
        op = s.pick(("<", "<=", ">", ">=", "==", "!="))
        if s.p(1, 2):
            c = "%s %s %s" % (self.iexpr(1), op, self.iexpr(1))
        else:
            c = "%s %s %s" % (self.exact(), op, s.pick(("0.0", "0.5", "-0.75")))
        k = s.n(6)
        if k >= 4:
            o = ("and", "or")[k - 4]
            self.lab(o)
            return "%s %s %s" % (c, o, "%s %s %s" % (self.iexpr(1), s.pick(("<", ">", "==")), self.iexpr(1)))
        if k == 3:
            self.lab("not")
            return "not (%s)" % c
        return c

    # -- array expressions
    def leaf(self, sh, t, exact=False):
        """Names, slices and views of the given shape."""
        s = self.s
        c = []
        for n, (a, ty) in self.arr.items():
            if ty != t or (exact and n not in self.clean):
                continue
            if self.ban is not None and self.base(n) == self.ban:
                continue
            if a == sh:
                c.append(n)
            if len(a) == len(sh):
                ix = self.slices(a, sh)
                if ix:
                    c.append("%s[%s]" % (n, ix))
            if len(a) == 2 and len(sh) == 1:
                if a[1] == sh[0] and a[0] in DIMS:
                    c.append("%s[%s, :]" % (n, self.index(a[0])))
                if a[0] == sh[0] and a[1] in DIMS:
                    c.append("%s[:, %s]" % (n, self.index(a[1])))
            if len(a) == 2 and a == tuple(reversed(sh)) and len(sh) == 2:
                c.append(n + ".T")
            if a == sh and a:
                c.append("np.flip(%s)" % n)
                if len(a) == 2:
                    c.append("np.flip(%s, axis=%d)" % (n, s.n(2)))
        if not c:
            return None
        x = s.pick(c)
        for key, l in ((".T", "transpose view"), ("flip", "flip view"), (":", "slice read")):
            if key in x:
                self.lab(l)
        return x

    def bare(self, sh, t):
        c = [n for n, (a, ty) in self.arr.items() if ty == t and a == sh and n not in self.views
             and (self.ban is None or self.base(n) != self.ban)]
        if not c:
            return None
        n = self.s.pick(c)
        self.contig.add(n)
        return n

    def slices(self, a, sh):
        """Index text that turns shape a into shape sh by slicing, or None."""
        if a == sh:
            return None
        out = []
        for x, y in zip(a, sh):
            if x == y:
                out.append(self.s.pick((":", ":", "::-1")) if x in DIMS else ":")
            elif x in DIMS and y == x + "-1":
                out.append(self.s.pick(("1:", ":-1", "0:-1")))
            elif x in DIMS and y == x + "-2":
                out.append(self.s.pick(("1:-1", "2:", ":-2")))
            elif x in DIMS and y == "ceil(%s/2)" % x:
                out.append("::2")
            elif x in DIMS and y == "2":
                out.append(self.s.pick((":2", "1:3", "0:2", "-2:")))
            else:
                return None
        return ", ".join(out)

    def aexpr(self, sh, t=F, d=2):
        s = self.s
        if d == 0:
            x = self.leaf(sh, t)
            if x:
                return x
            return self.make(sh, t)
        k = s.n(12)
        if k <= 2:
            x = self.leaf(sh, t)
            if x:
                return x
            k = 3
        if k <= 6:
            op = s.pick(("+", "-", "*", "/", "np.minimum", "np.maximum", "**"))
            if op == "/" and t == I:
                op = "+"
            if op == "**":
                if t == I:
                    op = "*"
                else:
                    self.lab("array pow")
                    return "(%s ** 2)" % self.aexpr(sh, t, d - 1)
            self.lab("array " + op)
            a = self.aexpr(sh, t, d - 1)
            b = self.operand(sh, t, d - 1)
            if op == "/":
                b = s.pick(("2.0", "4.0", "(np.abs(%s) + 1.0)" % self.aexpr(sh, t, 0)))
            elif s.p(1, 3):
                a, b = b, a
            if op.startswith("np"):
                return "%s(%s, %s)" % (op, a, b)
            return "(%s %s %s)" % (a, op, b)
        if k == 7:
            if t == I:
                return "(-%s)" % self.aexpr(sh, t, d - 1)
            f = s.pick(("np.abs", "np.sqrt", "np.exp", "np.tanh", "neg", "np.clip", "np.absolute"))
            self.lab(f)
            a = self.aexpr(sh, t, d - 1)
            if f == "neg":
                return "(-%s)" % a
            if f == "np.sqrt":
                return "np.sqrt(np.abs(%s))" % a
            if f == "np.exp":
                return "np.exp(np.minimum(%s, 1.0))" % a
            if f == "np.clip":
                return "np.clip(%s, -1.0, 1.25)" % a
            return "%s(%s)" % (f, a)
        if k == 8:
            x = self.leaf(sh, t, exact=True)
            if x:
                self.lab("np.where")
                return "np.where(%s %s %s, %s, %s)" % (
                    x, s.pick((">", "<", ">=", "<=", "==", "!=")), "0.5" if t == F else "1",
                    self.aexpr(sh, t, d - 1), self.operand(sh, t, d - 1))
        if k == 9 and len(sh) == 2 and t == F and self.whole:
            kk = s.pick(DIMS)
            a = self.bare((sh[0], kk), t) or self.make((sh[0], kk), t)
            b = self.bare((kk, sh[1]), t) or self.make((kk, sh[1]), t)
            self.lab("matmul")
            return s.pick(("(%s @ %s)", "np.matmul(%s, %s)", "np.dot(%s, %s)")) % (a, b)
        if k == 9 and len(sh) == 1 and t == F and self.whole:
            kk = s.pick(DIMS)
            a = self.bare((sh[0], kk), t) or self.make((sh[0], kk), t)
            b = self.bare((kk,), t) or self.make((kk,), t)
            self.lab("matvec")
            return "(%s @ %s)" % (a, b)
        if k == 10 and t == F:
            if len(sh) == 2 and self.whole and s.p(1, 2):
                a = self.bare((sh[0],), t)
                b = self.bare((sh[1],), t)
                if a and b:
                    o = s.pick(("np.outer", "np.add.outer", "np.multiply.outer", "np.subtract.outer"))
                    self.lab(o)
                    return "%s(%s, %s)" % (o, a, b)
            if len(sh) == 1:
                kk = s.pick(DIMS)
                ax = s.n(2)
                full = (sh[0], kk) if ax else (kk, sh[0])
                a = self.leaf(full, t)
                if a:
                    f = s.pick(("np.sum", "np.max", "np.min", "np.mean", "np.std"))
                    self.lab(f + " axis")
                    return "%s(%s, axis=%s)" % (f, a, s.pick((str(ax), str(ax - 2))))
        return self.make(sh, t)

    def operand(self, sh, t, d):
        """Second operand of an array operation: array, scalar or broadcast."""
        s = self.s
        k = s.n(6)
        if k == 0:
            return self.const(t)
        if k == 1:
            xs = self.scalars(t)
            if xs:
                self.lab("array op scalar variable")
                return s.pick(xs)
        if k == 2 and len(sh) == 2:
            x = self.leaf((sh[1],), t)
            if x:
                self.lab("broadcast row")
                return x
        if k == 3:
            x = self.leaf(("1",) + sh[1:], t) if len(sh) == 2 else None
            if x:
                self.lab("broadcast size-1 dimension")
                return x
        return self.aexpr(sh, t, d)

    def dim_text(self, d):
        if d in self.sc or d == "1":
            return d
        for n, (sh, _) in self.arr.items():
            if d in sh and n in [a[0] for a in self.args]:
                return "%s.shape[%d]" % (n, sh.index(d))
        m = re.match(r"([NMK])-(\d)$", d)
        if m:
            b = self.dim_text(m.group(1))
            return b and "%s - %s" % (b, m.group(2))
        if d == "2":
            return "2"
        return None

    def make(self, sh, t):
        s = self.s
        like = [n for n, (a, ty) in self.arr.items() if a == sh and ty == t]
        dims = [self.dim_text(d) for d in sh]
        dt = "np.float64" if t == F else "np.int64"
        opts = []
        if all(dims):
            tup = dims[0] if len(dims) == 1 and s.p(1, 2) else "(%s%s)" % (", ".join(dims), "," if len(dims) == 1 else "")
            opts += ["np.zeros(%s, dtype=%s)" % (tup, dt), "np.ones(%s, dtype=%s)" % (tup, dt)]
            if len(sh) == 2 and sh[0] == sh[1] and t == F:
                opts += ["np.eye(%s)" % dims[0]]
        if like:
            opts += ["np.zeros_like(%s)" % s.pick(like)]
        if not opts:
            raise Reject()
        x = s.pick(opts)
        self.lab(x.split("(")[0])
        return x

    # -- statements
    def shape(self):
        s = self.s
        have = [sh for n, (sh, t) in self.arr.items() if sh and "1" not in sh]
        if have and not s.p(1, 4):
            sh = s.pick(have)
        else:
            sh = tuple(s.pick(DIMS) for _ in range(s.pick((1, 2))))
        if s.p(1, 5):
            i = s.n(len(sh))
            if sh[i] in DIMS:
                new = s.pick((sh[i] + "-1", sh[i] + "-2", "2", "ceil(%s/2)" % sh[i]))
                sh = sh[:i] + (new,) + sh[i + 1:]
        return sh

    def stmt(self, budget):
        s = self.s
        inloop = bool(self.loops)
        k = s.n(13)
        if k <= 1:
            return self.st_scalar()
        if k == 2:
            return self.st_iscalar()
        if k <= 4:
            return self.st_element()
        if k <= 6 and budget > 0:
            return self.st_for(budget)
        if k == 7 and budget > 0:
            return self.st_if(budget)
        if k == 8 and budget > 0 and not inloop:
            return self.st_while(budget)
        if k <= 10 and self.depth < 2:
            return self.st_array()
        if k == 11:
            return self.st_slice()
        if k == 12:
            return self.st_reduce()
        return self.st_scalar()

    def target_scalar(self, t):
        own = [n for n in self.scalars(t) if n not in self.ro]
        if own and (self.depth or self.s.p(1, 2)):
            return self.s.pick(own), False
        if self.depth:
            return None, False      # Python scalars born in a branch may stay unbound
        return self.fresh("x" if t == F else "c"), True

    def st_scalar(self):
        n, new = self.target_scalar(F)
        if n is None:
            return
        e = self.fexpr()
        if new:
            self.emit("%s = %s" % (n, "0.0 + " + e))
        elif self.s.p(1, 2):
            self.lab("augmented assignment")
            self.emit("%s %s= %s" % (n, self.s.pick("+-"), e))
        else:
            self.emit("%s = 0.0 + %s" % (n, e))
        self.sc[n] = F

    def st_iscalar(self):
        n, new = self.target_scalar(I)
        if n is None:
            return
        e = self.iexpr(1 if self.loops else 2)
        if self.loops and not new:
            # keep values small over many iterations
            self.emit("%s = (%s + %s) %% %s" % (n, n, e, self.s.pick(("7", "5", "11"))))
            self.lab("int %")
        else:
            self.emit("%s = %s" % (n, e))
        self.sc[n] = I

    def writable(self, t=F, dims=None):
        return [n for n, (sh, ty) in self.arr.items()
                if ty == t and sh and all(d in DIMS for d in sh)]

    def dirty(self, n):
        b = self.base(n)
        for x in list(self.clean):
            if self.base(x) == b:
                self.clean.discard(x)

    def st_element(self):
        s = self.s
        t = F
        c = self.writable(t)
        if not c:
            return self.st_scalar()
        n = s.pick(c)
        idx = [self.index(d) for d in self.arr[n][0]]
        e = self.fexpr()
        self.dirty(n)
        self.lab("element store")
        tgt = "%s[%s]" % (n, ", ".join(idx))
        if s.p(1, 3):
            self.lab("augmented element store")
            self.emit("%s %s= %s" % (tgt, s.pick("+-"), e))
        else:
            self.emit("%s = %s" % (tgt, e))

    def block(self, budget, n):
        self.ind += 1
        self.depth += 1
        before = len(self.lines)
        arrs, scs = dict(self.arr), dict(self.sc)
        for _ in range(n):
            self.stmt(budget - 1)
        if len(self.lines) == before:
            self.emit("pass" if False else "_ = 0")
        self.ind -= 1
        self.depth -= 1
        self.arr = {k: v for k, v in self.arr.items() if k in arrs}
        self.sc = {k: v for k, v in self.sc.items() if k in scs}

    def st_for(self, budget):
        s = self.s
        ds = [d for d in DIMS if self.dim_text(d)]
        if not ds or len(self.loops) >= 3:
            return self.st_scalar()
        # Every array may be written in the loop, so no comparison relies on it.
        self.clean -= {n for n in self.arr if n in self.clean and s.p(0, 2)}
        v = self.fresh("i")
        k = s.n(6)
        d = s.pick(ds)
        dt = self.dim_text(d)
        self.lab("for")
        saved = set(self.clean)
        if k <= 2:
            rng, dom = "range(%s)" % dt, d
        elif k == 3:
            rng, dom = "range(%s - 1)" % dt, d + "-1"
        elif k == 4:
            rng, dom = s.pick(("range(1, %s)", "range(0, %s, 2)", "range(1, %s, 2)")) % dt, d
            self.lab("for with start or step")
        else:
            rng, dom = "range(%s - 1, -1, -1)" % dt, d
            self.lab("for downwards")
        inner = [x[0] for x in self.loops]
        if inner and k <= 2 and s.p(1, 3):
            o = [x for x in self.loops if x[1] == d]
            if o:
                rng = s.pick(("range(%s)", "range(%s + 1)")) % o[0][0]
                self.lab("triangular loop")
        self.emit("for %s in %s:" % (v, rng))
        self.loops.append((v, dom))
        self.sc[v] = I
        self.ro.add(v)
        # values read inside may have been written in an earlier iteration
        self.clean = set()
        self.block(budget, 1 + s.n(3))
        self.loops.pop()
        self.sc.pop(v, None)
        self.clean = {n for n in saved if not self.written_since(n)} if False else set()

    def st_if(self, budget):
        s = self.s
        self.lab("if")
        self.emit("if %s:" % self.cond())
        self.block(budget, 1 + s.n(2))
        k = s.n(3)
        if k == 1:
            self.lab("else")
            self.emit("else:")
            self.block(budget, 1 + s.n(2))
        elif k == 2:
            self.lab("elif")
            self.emit("elif %s:" % self.cond())
            self.block(budget, 1 + s.n(2))
            self.emit("else:")
            self.block(budget, 1)

    def st_while(self, budget):
        s = self.s
        self.lab("while")
        c = self.fresh("w")
        self.emit("%s = 0" % c)
        self.sc[c] = I
        self.ro.add(c)
        self.emit("while %s < %s:" % (c, s.pick(("3", "2", "5"))))
        self.ind += 1
        self.emit("%s = %s + 1" % (c, c))
        if s.p(1, 3):
            self.lab("break / continue")
            self.emit("if %s == %s:" % (c, s.pick(("2", "4"))))
            self.emit("    " + s.pick(("break", "continue")))
        self.ind -= 1
        self.clean = set()
        self.block(budget, 1 + s.n(2))

    def st_array(self):
        s = self.s
        t = F
        sh = self.shape()
        if self.depth:
            return self.st_slice()
        e = self.aexpr(sh, t, 2)
        n = self.fresh("T")
        self.lab("array temporary")
        if re.match(r"^[A-Za-z]\w*(\[.*\]|\.T)?$", e) or e.startswith("np.flip"):
            # a bare name or view: an alias
            root = re.match(r"(?:np\.flip\()?([A-Za-z]\w*)", e).group(1)
            if s.p(1, 2) and root == e:
                self.lab("alias")
                self.views[n] = root
            else:
                e = "(%s + 0.0)" % e
        self.emit("%s = %s" % (n, e))
        self.arr[n] = (sh, t)

    def st_slice(self):
        """Assignment into (a part of) an array."""
        s = self.s
        c = self.writable(F)
        if not c:
            return self.st_scalar()
        n = s.pick(c)
        sh = self.arr[n][0]
        idx, tsh = [], []
        for d in sh:
            k = s.n(6)
            if k <= 2:
                idx.append(":")
                tsh.append(d)
            elif k == 3:
                idx.append(s.pick(("1:", ":-1", "0:-1")))
                tsh.append(d + "-1")
            elif k == 4:
                idx.append(s.pick(("1:-1", "2:")))
                tsh.append(d + "-2")
            else:
                idx.append(self.index(d))
        if not tsh:
            idx[0] = ":"
            tsh = [sh[0]]
        tsh = tuple(tsh)
        tgt = "%s[%s]" % (n, ", ".join(idx))
        self.lab("slice store")
        k = s.n(5)
        if k == 0:
            e = self.fexpr(1)
            self.lab("slice filled with a scalar")
        elif k == 1:
            self.lab("augmented slice store")
            self.ban, self.whole = self.base(n), False
            self.emit("%s %s= %s" % (tgt, s.pick("+-*"), self.operand(tsh, F, 1)))
            self.ban, self.whole = None, True
            return self.dirty(n)
        else:
            self.ban, self.whole = self.base(n), False
            e = self.aexpr(tsh, F, 2)
            self.ban, self.whole = None, True
        self.emit("%s = %s" % (tgt, e))
        self.dirty(n)

    def st_reduce(self):
        s = self.s
        n, new = self.target_scalar(F)
        c = [a for a, (sh, t) in self.arr.items() if t == F and sh]
        if n is None or not c:
            return self.st_scalar()
        k = s.n(4)
        if k == 3:
            d = s.pick(DIMS)
            a, b = self.bare((d,), F), self.bare((d,), F)
            if a and b:
                self.lab("dot product")
                self.emit("%s = %s" % (n, s.pick(("np.dot(%s, %s)", "%s @ %s")) % (a, b)))
                self.sc[n] = F
                return
        f = s.pick(("np.sum", "np.max", "np.min", "np.mean", "np.std"))
        self.lab(f)
        a = s.pick(c)
        x = a if s.p(1, 2) else self.aexpr(self.arr[a][0], F, 1)
        self.emit("%s = %s(%s)" % (n, f, x))
        self.sc[n] = F

    def ret(self):
        s = self.s
        k = s.n(5)
        if k == 0:
            return
        vals = []
        for _ in range(1 if k < 4 else 2):
            j = s.n(4)
            fs, own = self.scalars(F), [a for a, (sh, t) in self.arr.items() if sh]
            if j == 0 and fs:
                vals.append(s.pick(fs))
            elif j == 1 and own:
                a = s.pick(own)
                vals.append(a)
            elif j == 2 and own:
                vals.append(self.aexpr(self.arr[s.pick(own)][0], F, 1))
            elif fs:
                vals.append(s.pick(fs))
            elif own:
                vals.append(s.pick(own))
        if vals:
            self.lab("returns %d value(s)" % len(vals))
            self.emit("return %s" % ", ".join(vals))

    def build(self):
        s = self.s
        na = 1 + s.n(4)
        for i in range(na):
            name = "ABCD"[i]
            k = s.n(8)
            if k == 7:
                sh = ("1", s.pick(DIMS))
                self.lab("argument with a size-1 dimension")
            else:
                sh = tuple(s.pick(DIMS) for _ in range((1, 2, 2, 1, 2, 1, 3)[k] if k < 7 else 2))
            self.arr[name] = (sh, F)
            self.args.append((name, "array", sh, F))
            self.clean.add(name)
        if s.p(1, 4):
            d = s.pick(DIMS)
            self.arr["J"] = ((d,), I)
            self.args.append(("J", "array", (d,), I))
        for nm, t in (("p", F), ("q", F), ("m", I)):
            if s.p(1, 3):
                self.sc[nm] = t
                self.ro.add(nm)
                self.args.append((nm, "scalar", None, t))
        for d in DIMS:
            if s.p(1, 5):
                self.sc[d] = I
                self.ro.add(d)
                self.args.append((d, "dim", None, I))
                self.lab("size argument")
        n = 1 + s.n(5)
        for _ in range(n):
            self.stmt(3)
        self.ret()
        if not self.lines:
            self.emit("return 0.0")
        names = [a[0] for a in self.args]
        return "def kernel(%s):\n%s\n" % (", ".join(names), "\n".join(self.lines))


class Reject(Exception):
    pass


GUARD = 4


def make_call(s, args, prev, contig=()):
    """One argument list: returns (values, description)."""
    if prev is not None and s.p(1, 3):
        sizes = dict(prev)
    else:
        sizes = {d: s.pick((4, 3, 5, 6, 7)) for d in DIMS}
    sizes["1"] = 1
    vals, desc = [], []
    rs = random.Random(s.n(1 << 16))
    for name, kind, sh, t in args:
        if kind == "dim":
            vals.append(sizes[name])
            desc.append("%s=%d" % (name, sizes[name]))
            continue
        if kind == "scalar":
            v = rs.randrange(-12, 13) / 4.0 if t == F else rs.randrange(-4, 9)
            vals.append(v)
            desc.append("%s=%r" % (name, v))
            continue
        shape = tuple(sizes[d] for d in sh)
        n = int(np.prod(shape))
        dt = np.float64 if t == F else np.int64
        raw = np.array([(rs.randrange(-12, 13) / 4.0 if t == F else rs.randrange(-4, 9)) for _ in range(n)], dtype=dt)
        lay = s.pick(("C", "C", "C", "F", "step"))
        if lay == "step" and len(shape) == 1 or (lay != "C" and name in contig):
            lay = "C"
        a = layout(raw.reshape(shape), lay)
        vals.append(a)
        desc.append("%s%s %s" % (name, list(shape), lay))
    return vals, "; ".join(desc), sizes


def layout(x, lay):
    """A copy of x in the given layout, inside a guarded buffer."""
    pad = np.nan if x.dtype.kind == "f" else -77777
    if lay == "F":
        buf = np.full(x.size + 2 * GUARD, pad, dtype=x.dtype)
        a = buf[GUARD:GUARD + x.size].reshape(x.shape, order="F")
    elif lay == "step":
        shp = x.shape[:-1] + (x.shape[-1] * 2,)
        m = int(np.prod(shp))
        buf = np.full(m + 2 * GUARD, pad, dtype=x.dtype)
        a = buf[GUARD:GUARD + m].reshape(shp)[..., ::2]
    else:
        buf = np.full(x.size + 2 * GUARD, pad, dtype=x.dtype)
        a = buf[GUARD:GUARD + x.size].reshape(x.shape)
    a[...] = x
    return a


def root(a):
    while a.base is not None:
        a = a.base
    return a


def clone(vals):
    out = []
    for v in vals:
        if isinstance(v, np.ndarray):
            b = root(v).copy()
            off = v.__array_interface__["data"][0] - root(v).__array_interface__["data"][0]
            out.append(np.ndarray(v.shape, v.dtype, b, off, v.strides))
        else:
            out.append(v)
    return out


def gen_case(s):
    p = Prog(s)
    src = p.build()
    target = s.pick(("none", "checked"))
    calls, prev = [], None
    for _ in range(1 + s.n(3)):
        vals, desc, prev = make_call(s, p.args, prev, p.contig)
        calls.append((vals, desc))
    if len(calls) > 1:
        p.lab("several calls")
    for v, d in calls:
        for l in ("F", "step"):
            if re.search(r"\] %s(;|$)" % l, d):
                p.lab("layout " + l)
    return src, target, calls, p.labels


# ---------------------------------------------------------------- execution
def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.allclose(a, b, rtol=1e-8, atol=1e-9, equal_nan=True))


def flat(r):
    if r is None:
        return []
    return list(r) if isinstance(r, tuple) else [r]


def short(x):
    return np.array2string(np.asarray(x), precision=6, threshold=24, separator=",").replace("\n", "")


def run_case(src, target, calls, tmp, stage=lambda: None):
    """Executes a case in this process: (status, message)."""
    import math
    from docc.python.python_program import PythonProgram
    path = os.path.join(tmp, "kernel_%s.py" % hashlib.sha1(src.encode()).hexdigest()[:12])
    with open(path, "w") as f:
        f.write("import math\nimport numpy as np\n\n\n" + src)
    mod = types.ModuleType("kernel_mod")
    exec(compile(open(path).read(), path, "exec"), mod.__dict__)
    os.environ["DOCC_TMP"] = tmp
    prog = PythonProgram(mod.kernel, target=target)
    inner = prog.compile

    def compile_then_run(*a, **k):
        out = inner(*a, **k)
        stage()
        return out
    prog.compile = compile_then_run
    for i, (vals, desc) in enumerate(calls):
        with np.errstate(all="ignore"):
            want_args = clone(vals)
            try:
                want = flat(mod.kernel(*want_args))
            except (ZeroDivisionError, OverflowError, FloatingPointError) as e:
                return "undefined", "%s" % e
        for w in want:
            if isinstance(w, np.ndarray) and w.dtype == object:
                return "undefined", "object"
        big = [x for x in want + want_args if not np.all(np.abs(np.asarray(x, dtype=float)[np.isfinite(np.asarray(x, dtype=float))]) < 1e12)]
        if big:
            return "undefined", "values too large to compare"
        got_args = clone(vals)
        got = flat(prog(*got_args))
        if len(want) != len(got):
            return "fail", "call %d (%s): %d values returned, Python returns %d" % (i + 1, desc, len(got), len(want))
        for j, (w, g) in enumerate(zip(want, got)):
            if not close(w, g):
                return "fail", "call %d (%s): returned value %d is %s, Python returns %s" % (i + 1, desc, j, short(g), short(w))
        for a, w, g in zip([x for x in vals], want_args, got_args):
            if isinstance(w, np.ndarray):
                if not close(w, g):
                    return "fail", "call %d (%s): an argument holds %s afterwards, in Python %s" % (i + 1, desc, short(g), short(w))
                if not close(root(w), root(g)):
                    return "fail", "call %d (%s): memory around an argument array was written" % (i + 1, desc)
    return "ok", ""


def child(src, target, calls, timeout=60):
    """run_case in a forked process; a crash or a hang is a failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.close(r)
        tmp = tempfile.mkdtemp(prefix="c22-")
        try:
            dn = os.open(os.path.join(tmp, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                res = run_case(src, target, calls, tmp, lambda: os.write(w, b"\n"))
            except NotImplementedError as e:
                res = ("rejected", "NotImplementedError: %s" % e)
            except BaseException as e:
                res = ("rejected", "%s: %s" % (type(e).__name__, str(e)[:300]))
                if os.environ.get("C22_TRACE"):
                    traceback.print_exc()
            os.write(w, json.dumps(res).encode())
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
            os._exit(0)
    os.close(w)
    data, end = b"", time.time() + timeout
    while True:
        ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ready:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(r)
            return "timeout", "no answer within %d s" % timeout
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data.strip():
        if data:
            return "fail", "the process died with status %d while running the compiled function" % st
        return "rejected", "the process died with status %d while compiling the function" % st
    return tuple(json.loads(data))


def evaluate(data=None, rng=None):
    s = Src(rng, data)
    try:
        src, target, calls, labels = gen_case(s)
    except Reject:
        return s.rec, ("discarded", ""), "", [], set(), ""
    res = child(src, target, calls)
    return s.rec, res, src, [d for _, d in calls], labels, target


BAD = ("fail", "error")


def shrink(data, kind, deadline):
    best = evaluate(data)
    assert best[1][0] in BAD
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        tries += 1
        r = evaluate(cand)
        if r[1][0] == kind and (len(r[0]), r[0]) < (len(best[0]), best[0]):
            best = r
            return True
        return False

    size = max(1, len(best[0]) // 2)
    while time.time() < deadline:
        changed = False
        i = 0
        while i < len(best[0]) and time.time() < deadline:
            d = best[0]
            if attempt(d[:i] + d[i + size:]):
                changed = True
                continue
            z = d[:i] + [0] * min(size, len(d) - i) + d[i + size:]
            if z != d and attempt(z):
                changed = True
            i += size
        if size == 1 and not changed:
            break
        if not changed or size > 1:
            size = max(1, size // 2)
    return best, tries


def setup():
    """Imports the package once; registers a target that only normalises."""
    sys.setrecursionlimit(5000)
    import docc.python.python_program as pp
    from docc.python.target_registry import register_target
    register_target("checked", lambda sdfg, category: None)
    real = pp.StructuredSDFG._compile

    def compile_none(self, output_folder, target="none", instrumentation_mode="", capture_args=False):
        return real(self, output_folder=output_folder, target="none",
                    instrumentation_mode=instrumentation_mode, capture_args=capture_args)
    pp.StructuredSDFG._compile = compile_none


def worker(idx, seed, count, deadline, fd):
    out = os.fdopen(fd, "w")
    for k in range(count):
        if time.time() > deadline:
            break
        rng = random.Random("%d/%d/%d" % (seed, idx, k))
        rec, res, src, desc, labels, target = evaluate(rng=rng)
        out.write(json.dumps([rec, res, src, desc, sorted(labels), target]) + "\n")
        out.flush()
        if res[0] in BAD and not os.environ.get("C22_GOON"):
            break
    out.close()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--replay-dir")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    setup()
    if a.replay:
        data = json.load(open(a.replay))["choices"]
        rec, res, src, desc, labels, target = evaluate(data)
        print("target=%s\n%s\ncalls: %s\n%s: %s" % (target, src, desc, res[0], res[1]))
        return 1 if res[0] in BAD else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    total = int(os.environ.get("C22_N") or (500 if tier == "quick" else 10000))
    budget = 240 if tier == "quick" else 780
    nw = int(os.environ.get("C22_J") or (os.cpu_count() or 4))
    t0 = time.time()
    deadline = t0 + budget
    fds, pids = [], []
    for i in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker(i, seed, (total + nw - 1) // nw, deadline, w)
        os.close(w)
        fds.append(r)
        pids.append(pid)
    seen, samples, labels, kinds = set(), [], {}, {}
    failure, bufs, live = None, {f: b"" for f in fds}, set(fds)
    log = open(os.environ["C22_ALL"], "w") if os.environ.get("C22_ALL") else None
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for f in ready:
            b = os.read(f, 1 << 16)
            if not b:
                live.discard(f)
                continue
            bufs[f] += b
            *lines, bufs[f] = bufs[f].split(b"\n")
            for l in lines:
                rec, res, src, desc, labs, target = json.loads(l)
                kinds[res[0]] = kinds.get(res[0], 0) + 1
                if log and res[0] not in ("ok", "discarded"):
                    log.write(l.decode() + "\n")
                    log.flush()
                if res[0] == "ok":
                    h = hashlib.sha1((src + repr(desc)).encode()).hexdigest()
                    if h not in seen and src.count("\n") > 2:
                        seen.add(h)
                        if len(samples) < 4 and len(labs) > 4:
                            samples.append("%s calls: %s" % (src, " | ".join(desc)))
                for x in labs:
                    labels[x] = labels.get(x, 0) + 1
                if res[0] in BAD and (failure is None or len(rec) < len(failure[0])):
                    failure = (rec, res)
        if failure and not os.environ.get("C22_GOON"):
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except OSError:
                    pass
            break
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    n = sum(kinds.values())
    result = {
        "evaluations": n, "requested": total, "distinct_nontrivial": len(seen),
        "rule": "a generated function of more than one statement that the front end compiled and ran, compared with CPython/NumPy on every call of its history",
        "samples": samples, "labels": {**{"case " + k: v for k, v in kinds.items()}, **labels},
        "verdict": "pass", "unreproduced": 0,
    }
    if failure and not os.environ.get("C22_GOON"):
        again = evaluate(failure[0])
        if again[1][0] in BAD:
            best, tries = shrink(failure[0], again[1][0], time.time() + 150)
            h = hashlib.sha1(json.dumps(best[0]).encode()).hexdigest()[:10]
            os.makedirs(a.replay_dir, exist_ok=True)
            path = os.path.join(a.replay_dir, "C22-%s.json" % h)
            json.dump({"choices": best[0], "source": best[2], "calls": best[3], "target": best[5],
                       "message": best[1][1]}, open(path, "w"), indent=1)
            result.update(verdict="fail", message=best[1][1], replay=path,
                          trace=best[2].split("\n") + best[3])
        else:
            result["unreproduced"] = 1
    if a.out:
        json.dump(result, open(a.out, "w"), indent=1)
    if os.environ.get("C22_GOON"):
        print(kinds, "%.0fs" % (time.time() - t0))
        print(sorted(labels.items(), key=lambda x: -x[1]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
