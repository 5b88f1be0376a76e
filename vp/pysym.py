"""Symbolic execution of Python source (the ctypes wrapper). The source is executed by CPython itself on symbolic values;
a truth value or an index that depends on a symbol asks z3 which outcomes are possible and every outcome becomes a path
(paths are re-executed from the start with a prefix of decisions). ctypes, numpy and mpi4py are replaced by models of
their contracts; the C library by a model of its documented interface (harness/pywrap.py).
With -replay the same scenario runs once with concrete inputs on the real ctypes and numpy, the C library being replaced
by real C function pointers with the prototypes of cconviqt.h.
usage: pysym.py HARNESS -entry NAME [-p K=V]... [-deadline S] [-o FILE] [-log FILE] [-replay INPUTS]"""
import sys, os, re, json, time, gc, types, math, builtins, numbers
import numpy as rnp
import ctypes as rct
import ctypes.util


class Unsupported(BaseException): pass
class PathEnd(BaseException): pass
class Stop(BaseException): pass

X = None     # the current execution


class Exec:
    """one exploration (symbolic) or one run (concrete)"""
    def __init__(self, conc=None, params=None, deadline=60):
        self.conc, self.params, self.end = conc, params or {}, time.time() + deadline
        self.paths = self.cut = self.obl = self.dis = self.inc = self.q = self.unk = self.steps = 0
        self.solver_s = 0.; self.viol = []; self.reach = {}; self.funcs = set(); self.notes = []
        if conc is None:
            import z3
            self.z3 = z3

    # ---- one path
    def begin(self, prefix):
        self.prefix, self.dec, self.inputs, self.pc, self.n, self.bad = prefix, [], {}, [], {}, None
        if self.conc is None:
            self.s = self.z3.Solver(); self.s.set("timeout", 20000)

    def uniq(self, name):
        k = self.n[name] = self.n.get(name, 0) + 1
        return name if k == 1 else "%s.%d" % (name, k)

    def check(self, *e):
        if time.time() > self.end: raise Stop("deadline")
        self.q += 1; t = time.time()
        r = self.s.check(*e); self.solver_s += time.time() - t
        if r == self.z3.unknown: self.unk += 1
        return r

    def add(self, e):
        self.s.add(e); self.pc.append(e)

    def branch(self, cond):
        """cond: z3 Bool; returns the truth value of this path"""
        z3 = self.z3; cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        self.steps += 1
        i = len(self.dec)
        if i < len(self.prefix): v = self.prefix[i]
        else:
            t = self.check(cond) != z3.unsat; f = self.check(z3.Not(cond)) != z3.unsat
            if not t and not f: raise PathEnd("infeasible")
            v = t
            if t and f: self.todo.append(self.prefix_now() + [False])
        self.dec.append(v); self.add(cond if v else z3.Not(cond))
        return v

    def prefix_now(self): return list(self.dec)

    def concretise(self, e):
        """an integer expression as a Python int: every possible value becomes a path"""
        z3 = self.z3; e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        for _ in range(200):
            i = len(self.dec)
            if i < len(self.prefix): v = self.prefix[i][1]
            else:
                if self.check() != z3.sat: raise PathEnd("infeasible")
                v = self.s.model().eval(e, model_completion=True).as_long()
            self.steps += 1
            if i < len(self.prefix): take = self.prefix[i][0]
            else:
                take = True
                if self.check(e != v) != z3.unsat: self.todo.append(self.prefix_now() + [(False, v)])
            self.dec.append((take, v)); self.add(e == v if take else e != v)
            if take: return v
        raise Unsupported("too many values of an index")

    # ---- interface of the scenarios
    def param(self, k, d): return int(self.params.get(k, d))
    def int(self, name, lo, hi):
        name = self.uniq(name)
        if self.conc is not None: return int(self.conc.get(name, max(lo, min(hi, 0))))
        v = self.z3.Int(name); self.inputs[name] = v; self.add(v >= lo); self.add(v <= hi); return SymInt(v)
    def bool(self, name):
        name = self.uniq(name)
        if self.conc is not None: return bool(int(self.conc.get(name, 1)))
        v = self.z3.Int(name); self.inputs[name] = v; self.add(v >= 0); self.add(v <= 1); return bool(SymBool(v == 1))
    def real(self, name, lo=None, hi=None):
        name = self.uniq(name)
        if self.conc is not None: return float(self.conc.get(name, 0.))
        v = self.z3.Real(name); self.inputs[name] = v
        if lo is not None: self.add(v >= lo)
        if hi is not None: self.add(v <= hi)
        return SymReal(v)
    def choose(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return v if self.conc is not None else self.concretise(v.e)
    def assume(self, c):
        if not c: raise PathEnd("assumption")
    def violate(self, msg, model=None, fatal=False):
        """the current path breaks the property whatever the inputs"""
        self.obl += 1
        if self.conc is not None: self.viol.append({"kind": "assert", "msg": msg, "loc": where(), "inputs": {}, "stack": ""})
        else:
            if model is None:
                if self.check() != self.z3.sat: self.inc += 1; return
                model = self.s.model()
            self.viol.append({"kind": "assert", "msg": msg, "loc": where(), "stack": "", "inputs": {k: tonum(self.z3, model.eval(v, model_completion=True)) for k, v in self.inputs.items()}})
        if fatal: raise PathEnd("violation")
    def require(self, c, msg):
        if isinstance(c, SymBool):
            z3 = self.z3; r = self.check(z3.Not(c.e))
            if r == z3.unsat: self.obl += 1; self.dis += 1
            elif r == z3.sat: self.violate(msg, self.s.model())
            else: self.obl += 1; self.inc += 1
        elif c: self.obl += 1; self.dis += 1
        else: self.violate(msg)
    def done(self, label="done"): self.reach[label] = self.reach.get(label, 0) + 1


def tonum(z3, v):
    if z3.is_int_value(v): return str(v.as_long())
    if z3.is_rational_value(v): return repr(float(v.as_fraction()))
    if z3.is_algebraic_value(v): return repr(float(v.approx(20).as_fraction()))
    return str(v)


def where():
    f = sys._getframe(2); out = "?"
    while f:
        if f.f_code.co_filename == WRAPFILE: return "%s:%d (%s)" % (os.path.basename(WRAPFILE), f.f_lineno, f.f_code.co_name)
        if out == "?" and f.f_code.co_filename.endswith("pywrap.py"): out = "pywrap.py:%d (%s)" % (f.f_lineno, f.f_code.co_name)
        f = f.f_back
    return out
WRAPFILE = ""


# ------------------------------------------------------------------ symbolic values
def iz(x):
    if isinstance(x, SymInt): return x.e
    if isinstance(x, SymBool): return X.z3.If(x.e, X.z3.IntVal(1), X.z3.IntVal(0))
    if isinstance(x, bool): return X.z3.IntVal(int(x))
    if isinstance(x, (int, rnp.integer)): return X.z3.IntVal(int(x))
    return None
def rz(x):
    if isinstance(x, SymReal): return x.e
    e = iz(x)
    if e is not None: return X.z3.ToReal(e)
    if isinstance(x, (float, rnp.floating)):
        if not math.isfinite(x): raise Unsupported("non-finite number")
        n, d = float(x).as_integer_ratio(); return X.z3.Q(n, d)
    return None

class Sym:
    def __hash__(self): raise Unsupported("hash of a symbolic value")
    def __repr__(self): return "<sym>"
    def __str__(self): return "<sym>"
    def __format__(self, spec): return "<sym>"

class SymBool(Sym):
    def __init__(self, e): self.e = e
    def __bool__(self): return X.branch(self.e)
    def __eq__(self, o): 
        if isinstance(o, SymBool): return SymBool(self.e == o.e)
        e = iz(o); return NotImplemented if e is None else SymBool(iz(self) == e)
    def __ne__(self, o):
        r = self.__eq__(o); return r if r is NotImplemented else SymBool(X.z3.Not(r.e))
    def __and__(self, o): return SymBool(X.z3.And(self.e, o.e if isinstance(o, SymBool) else bool(o)))
    def __or__(self, o): return SymBool(X.z3.Or(self.e, o.e if isinstance(o, SymBool) else bool(o)))
    __rand__ = __and__; __ror__ = __or__
    def __invert__(self): raise Unsupported("~bool")
    def __index__(self): return int(bool(self))
    __int__ = __index__
    __hash__ = Sym.__hash__

def _cmp(name):
    def f(self, o):
        a, b = iz(self), iz(o)
        if isinstance(self, SymReal) or b is None:
            if isinstance(o, (complex, SymC)): return NotImplemented
            if isinstance(o, float) and not math.isfinite(o):
                if math.isnan(o): return name == "ne"
                return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[name]
            a, b = rz(self), rz(o)
        if a is None or b is None: return {"eq": False, "ne": True}.get(name, NotImplemented)
        return SymBool({"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b, "eq": lambda: a == b, "ne": lambda: a != b}[name]())
    return f
class Ordered(Sym):
    __lt__ = _cmp("lt"); __le__ = _cmp("le"); __gt__ = _cmp("gt"); __ge__ = _cmp("ge"); __eq__ = _cmp("eq"); __ne__ = _cmp("ne")
    __hash__ = Sym.__hash__
    def __bool__(self): return X.branch(self.e != 0)
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def __pos__(self): return self
    def __abs__(self): return type(self)(X.z3.If(self.e >= 0, self.e, -self.e))
    def __neg__(self): return type(self)(-self.e)

def _arith(op, swap=False):
    def f(self, o):
        if isinstance(o, rnp.ndarray): return NotImplemented
        if isinstance(o, (complex, SymC)):
            a, b = SymC.of(self), SymC.of(o)
            if swap: a, b = b, a
            return {"+": a.__add__, "-": a.__sub__, "*": a.__mul__}[op](b) if op in "+-*" else NotImplemented
        a, b = iz(self), iz(o)
        if isinstance(self, SymInt) and b is not None and op != "/":
            if swap: a, b = b, a
            return SymInt({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]())
        a, b = rz(self), rz(o)
        if b is None: return NotImplemented
        if swap: a, b = b, a
        if op == "/":
            if X.branch(b == 0): raise ZeroDivisionError("division by zero")
        return SymReal({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]())
    return f
for _c in ():
    pass
class SymInt(Ordered):
    def __init__(self, e): self.e = e
    def _div(self, o, what):
        if not isinstance(o, int) or o <= 0: raise Unsupported("division by a symbolic or negative number")
        return SymInt(self.e / o if what == "/" else self.e % o)
    def __floordiv__(self, o): return self._div(o, "/")
    def __mod__(self, o): return self._div(o, "%")
    def __lshift__(self, o):
        if not isinstance(o, int): raise Unsupported("shift"); 
        return SymInt(self.e * (1 << o))
    def __rshift__(self, o):
        if not isinstance(o, int): raise Unsupported("shift")
        return SymInt(self.e / (1 << o))
    def __and__(self, o):
        if o == 1: return SymInt(self.e % 2)
        raise Unsupported("&")
    def __pow__(self, o):
        if o == 2: return SymInt(self.e * self.e)
        raise Unsupported("**")
    def __index__(self): return X.concretise(self.e)
    __int__ = __index__
    def __float__(self): return float(X.concretise(self.e))
    def bit_length(self): raise Unsupported("bit_length")
class SymReal(Ordered):
    def __init__(self, e): self.e = e
    def __float__(self): raise Unsupported("float() of a symbolic number")
    def __int__(self): raise Unsupported("int() of a symbolic number")
for _c in (SymInt, SymReal):
    for _o, _n in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "truediv")):
        setattr(_c, "__%s__" % _n, _arith(_o)); setattr(_c, "__r%s__" % _n, _arith(_o, True))
class SymC(Sym):
    """complex number; the parts are SymReal or float"""
    def __init__(self, re, im): self.re, self.im = re, im
    @staticmethod
    def of(x):
        if isinstance(x, SymC): return x
        if isinstance(x, (complex, rnp.complexfloating)): return SymC(x.real, x.imag)
        if isinstance(x, (Ordered, SymBool, int, float, rnp.integer, rnp.floating)): return SymC(x, 0)
        return None
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conjugate(self): return SymC(self.re, -self.im)
    def __neg__(self): return SymC(-self.re, -self.im)
    def __complex__(self): raise Unsupported("complex() of a symbolic number")
    def __float__(self): raise TypeError("can't convert complex to float")
    def _b(f):
        def g(self, o):
            if isinstance(o, rnp.ndarray): return NotImplemented
            o = SymC.of(o); return NotImplemented if o is None else f(self, o)
        return g
    __add__ = __radd__ = _b(lambda a, b: SymC(a.re + b.re, a.im + b.im))
    __sub__ = _b(lambda a, b: SymC(a.re - b.re, a.im - b.im)); __rsub__ = _b(lambda a, b: SymC(b.re - a.re, b.im - a.im))
    __mul__ = __rmul__ = _b(lambda a, b: SymC(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))
    def __eq__(self, o):
        o = SymC.of(o); return False if o is None else both(self.re == o.re, self.im == o.im)
    def __ne__(self, o): raise Unsupported("complex !=")
    __hash__ = Sym.__hash__
def both(a, b):
    a = a.e if isinstance(a, SymBool) else X.z3.BoolVal(bool(a)); b = b.e if isinstance(b, SymBool) else X.z3.BoolVal(bool(b))
    return SymBool(X.z3.And(a, b))


# ------------------------------------------------------------------ numpy: real arrays of objects
class SArr(rnp.ndarray):
    """array of symbolic numbers"""
    @property
    def real(self): return rnp.ndarray.__array_wrap__(self, rnp.array(self, copy=True)).view(SArr) if False else smap(lambda x: x.real, self)
    @property
    def imag(self): return smap(lambda x: x.imag, self)
    def astype(self, dtype, *a, **k):
        if rnp.dtype(dtype).kind in "fcO":
            if rnp.dtype(dtype).kind == "f": return smap(lambda x: x.real, self)
            return self.copy()
        raise Unsupported("astype(%s)" % dtype)
    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], rnp.ndarray) or not a and not k: return super().view(*a, **k)
        raise Unsupported("view of a symbolic array")
    def tofile(self, *a): raise Unsupported("tofile")
    def tobytes(self, *a): raise Unsupported("tobytes")
    def sum(self, *a, **k): raise Unsupported("sum")
def smap(f, a):
    r = rnp.empty(a.shape, dtype=object).view(SArr)
    for i in rnp.ndindex(*a.shape): r[i] = f(rnp.ndarray.__getitem__(a, i))
    return r
def sarr(x):
    if isinstance(x, SArr): return x.copy()
    if isinstance(x, CArray): x = list(x)
    r = rnp.array(x, dtype=object); return r.view(SArr)
class NumpyModel(types.ModuleType):
    def __init__(self):
        super().__init__("numpy"); self.ctypeslib = types.ModuleType("numpy.ctypeslib"); self.ctypeslib.as_array = as_array
    def __getattr__(self, n):
        if n in ("frombuffer", "fromiter", "savetxt", "loadtxt", "copyto", "memmap"): raise Unsupported("numpy." + n)
        return getattr(rnp, n)
    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        r = sarr(x); return r if dtype is None else r.astype(dtype)
    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, SArr) and dtype is None: return x
        return NumpyModel.array(x, dtype)
    ascontiguousarray = asarray
    @staticmethod
    def zeros(n, dtype=float, **k):
        r = rnp.empty(NumpyModel._shape(n), dtype=object); r[...] = 0.; return r.view(SArr)
    empty = zeros
    @staticmethod
    def _shape(n): return tuple(int(i) for i in n) if isinstance(n, (tuple, list)) else int(n)
    @staticmethod
    def real(x): return x.real
    @staticmethod
    def imag(x): return x.imag


# ------------------------------------------------------------------ ctypes
class ArgumentError(Exception): pass
class Block:
    """memory: cells of one element type at an address"""
    def __init__(self, addr, cells, size, owner=None): self.addr, self.cells, self.size, self.alive, self.owner = addr, cells, size, True, owner
class Space:
    def __init__(self): self.blocks, self.next = [], 0x7f3a00000000
    def new(self, n, size, owner=None):
        c = rnp.empty(n, dtype=object); c[...] = 0.
        b = Block(self.next, c, size, owner); self.next += (n * size + 0x1fffff) & ~0xfffff; self.blocks.append(b); return b
    def find(self, addr):
        for b in self.blocks:
            if b.addr <= addr <= b.addr + len(b.cells) * b.size: return b, addr - b.addr
        return None, 0
SP = None
class CMeta(type):
    def __mul__(cls, n):
        n = int(n)
        if n < 0: raise ValueError("Array length must be >= 0")
        return ArrayType(cls, n)
    __rmul__ = __mul__
class CData(metaclass=CMeta): pass
def mkint(name, size, signed):
    def wrap(x):
        if isinstance(x, CData): x = x.value
        if isinstance(x, (Sym,)) and iz(x) is None or not isinstance(x, (int, Sym)): raise TypeError("int expected instead of %s instance" % type(x).__name__)
        if isinstance(x, int):
            x &= (1 << 8 * size) - 1
            return x - (1 << 8 * size) if signed and x >> (8 * size - 1) else x
        e = iz(x); lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
        if X.check(X.z3.Or(e < lo, e > hi)) == X.z3.unsat: return SymInt(e)
        off = 1 << 8 * size - 1 if signed else 0
        return SymInt((e + off) % (1 << 8 * size) - off)
    t = CMeta(name, (CData,), dict(size=size, kind="i", wrap=staticmethod(wrap)))
    def init(self, v=0): self.value = wrap(v)
    t.__init__ = init
    t.from_address = classmethod(lambda cls, a: from_address(cls, a))
    return t
def from_address(cls, a):
    b, off = SP.find(int(a))
    if b is None: raise Unsupported("from_address of an unknown address")
    r = cls(); v = b.cells[off // b.size]
    if b.size < cls.size: X.violate("an object is read through a wider type than it has"); raise PathEnd("violation")
    r.value = cls.wrap(v) if cls.kind == "i" else v; return r
c_int = mkint("c_int", 4, True); c_uint = mkint("c_uint", 4, False); c_long = mkint("c_long", 8, True); c_ulong = mkint("c_ulong", 8, False)
c_longlong = c_int64 = c_ssize_t = c_long; c_int32 = c_int; c_uint32 = c_uint; c_size_t = c_uint64 = c_ulonglong = c_ulong
c_byte = c_int8 = mkint("c_byte", 1, True); c_ubyte = c_uint8 = mkint("c_ubyte", 1, False); c_short = c_int16 = mkint("c_short", 2, True)
class c_bool(CData):
    size, kind = 1, "i"
    @staticmethod
    def wrap(x): return bool(x.value if isinstance(x, CData) else x)
    def __init__(self, v=False): self.value = self.wrap(v)
def mkflt(name, size):
    def wrap(x):
        if isinstance(x, CData): x = x.value
        if isinstance(x, (SymC, complex, rnp.complexfloating)) or not isinstance(x, (Sym, numbers.Real)): raise TypeError("must be real number, not " + type(x).__name__)
        if isinstance(x, SymInt): return SymReal(rz(x))
        return x if isinstance(x, SymReal) else SymReal(rz(x)) if isinstance(x, SymBool) else float(x)
    t = CMeta(name, (CData,), dict(size=size, kind="f", wrap=staticmethod(wrap)))
    def init(self, v=0.): self.value = wrap(v)
    t.__init__ = init; return t
c_float, c_double = mkflt("c_float", 4), mkflt("c_double", 8)
class c_void_p(CData):
    size, kind = 8, "p"
    def __init__(self, v=None): self.value = None if v in (None, 0) else int(v)
    from_address = classmethod(lambda cls, a: from_address(cls, a))
class c_char_p(CData):
    size, kind = 8, "s"
    def __init__(self, v=None): self.value = v
class c_char(CData):
    size, kind = 1, "c"
class ArrayType:
    def __init__(self, t, n): self.t, self.n, self.size = t, n, t.size * n
    def __call__(self, *v):
        a = CArray(self.t, self.n)
        for i, x in enumerate(v): a[i] = x
        return a
    def from_address(self, addr):
        b, off = SP.find(int(addr)); chk(b, off, self.t, self.n); return CArray(self.t, self.n, b, off // b.size)
    def from_buffer(self, *a): raise Unsupported("from_buffer")
    from_buffer_copy = from_buffer
def chk(b, off, t, n):
    if b is None or off % t.size or b.size != t.size or off // b.size + n > len(b.cells): X.violate("memory is accessed outside of the object", fatal=True)
    if not b.alive: X.violate("memory is accessed after it was released", fatal=True)
class CArray(CData):
    kind = "a"
    def __init__(self, t, n, b=None, o=0): self._t, self._length_, self.b, self.o = t, n, b or SP.new(n, t.size), o
    def __len__(self): return self._length_
    def __iter__(self): return (self[i] for i in range(len(self)))
    def __getitem__(self, i):
        if isinstance(i, slice): return [self.b.cells[self.o + k] for k in range(*idx(i).indices(len(self)))]
        i = int(i); i += len(self) if i < 0 else 0
        if not 0 <= i < len(self): raise IndexError("invalid index")
        return self.b.cells[self.o + i]
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            r = range(*idx(i).indices(len(self))); v = list(v)
            if len(r) != len(v): raise ValueError("Can only assign sequence of same size")
            for k, x in zip(r, v): self.b.cells[self.o + k] = self._t.wrap(x)
            return
        i = int(i); i += len(self) if i < 0 else 0
        if not 0 <= i < len(self): raise IndexError("invalid index")
        self.b.cells[self.o + i] = self._t.wrap(v)
def idx(s): return slice(*[None if x is None else int(x) for x in (s.start, s.stop, s.step)])
class StrBuf(CData):
    kind = "b"
    def __init__(self, n): self.n, self.raw_ = n, b""
    @property
    def value(self): return self.raw_
    @property
    def raw(self): return self.raw_ + b"\0" * (self.n - len(self.raw_))
    def __len__(self): return self.n
def create_string_buffer(n, size=None):
    if isinstance(n, bytes): b = StrBuf(size or len(n) + 1); b.raw_ = n; return b
    return StrBuf(int(n))
class Ref:
    def __init__(self, obj): self.obj = obj
    @property
    def contents(self): return self.obj
def byref(o): return Ref(o)
pointer = byref
_pt = {}
def POINTER(t):
    if t not in _pt: _pt[t] = type("LP_" + getattr(t, "__name__", "array"), (Pointer,), dict(t=t))
    return _pt[t]
class Pointer(CData):
    kind, size, t = "p", 8, None
    def __init__(self, addr=0): self.addr = addr or 0
    def __bool__(self): return self.addr != 0
    def _at(self, k):
        if not self.addr: raise ValueError("NULL pointer access")
        b, off = SP.find(self.addr); off += k * self.t.size
        if b is None or off < 0: X.violate("memory is accessed outside of the object", fatal=True)
        chk(b, off, self.t, 1); return b, off // b.size
    def __getitem__(self, i):
        if isinstance(i, slice):
            i = idx(i)
            if i.stop is None: raise ValueError("slice stop is required")
            st = i.step or 1
            if i.start is None and st < 0: raise ValueError("slice start is required for step < 0")
            return [self[k] for k in range(i.start or 0, i.stop, st)]
        b, o = self._at(int(i)); return b.cells[o]
    def __setitem__(self, i, v): b, o = self._at(int(i)); b.cells[o] = self.t.wrap(v)
    @property
    def contents(self): raise Unsupported("contents")
def addr_of(o):
    if o is None: return 0
    if isinstance(o, int): return o
    if isinstance(o, Pointer): return o.addr
    if isinstance(o, CArray): return o.b.addr + o.o * o.b.size
    if isinstance(o, c_void_p): return 0 if o.value is None else o.value
    raise Unsupported("address of " + type(o).__name__)
def cast(o, t):
    if t is c_void_p: return c_void_p(addr_of(o))
    if isinstance(t, type) and issubclass(t, Pointer): return t(addr_of(o))
    raise Unsupported("cast")
def memmove(dst, src, n):
    n = int(n); d, s = addr_of(dst), addr_of(src)
    if n <= 0: return d
    (db, do), (sb, so) = SP.find(d), SP.find(s)
    for b, o in ((db, do), (sb, so)):
        if b is None or o + n > len(b.cells) * b.size: X.violate("memory is accessed outside of the object", fatal=True)
        if not b.alive: X.violate("memory is accessed after it was released", fatal=True)
    if db.size != sb.size or do % db.size or so % sb.size or n % db.size: raise Unsupported("memmove of parts of elements")
    v = list(sb.cells[so // sb.size:(so + n) // sb.size])
    for k, x in enumerate(v): db.cells[do // db.size + k] = x
    return d
def sizeof(t): return t.size if not isinstance(t, (CArray, StrBuf)) else (len(t) * t._t.size if isinstance(t, CArray) else t.n)
def addressof(o): return addr_of(o)
def as_array(p, shape=None):
    if isinstance(p, CArray): b, o, n = p.b, p.o, (len(p),) if shape is None else shape
    else:
        if shape is None: raise TypeError("as_array() requires a shape argument when called on a pointer")
        if not p.addr: raise ValueError("NULL pointer access")
        b, o = SP.find(p.addr)
        n = shape if isinstance(shape, (tuple, list)) else (shape,)
        chk(b, o, p.t, 0); o //= b.size
    n = tuple(int(i) for i in n); k = 1
    for i in n: k *= i
    if k < 0: raise ValueError("negative dimensions are not allowed")
    if o + k > len(b.cells): X.violate("an array reaches beyond the memory of the object", fatal=True)
    return b.cells[o:o + k].reshape(n).view(SArr)


class Func:
    def __init__(self, lib, name): self._lib, self._name, self.restype, self.argtypes = lib, name, c_int, None
    def __setattr__(self, k, v):
        if k == "errcheck": raise Unsupported("errcheck")
        object.__setattr__(self, k, v)
    def __call__(self, *args):
        ret, params = self._lib.protos[self._name]; at = self.argtypes
        if at is not None and len(args) < len(at): raise TypeError("this function takes at least %d arguments (%d given)" % (len(at), len(args)))
        conv = []
        for i, a in enumerate(args):
            t = at[i] if at is not None and i < len(at) else None
            try: conv.append(self._conv(a, t))
            except TypeError as e: raise ArgumentError("argument %d: %s" % (i + 1, e))
        if len(conv) < len(params): X.violate("%s is called with too few arguments" % self._name, fatal=True)
        cargs = []
        for (kind, v), pt in zip(conv, params):
            # what the C function sees
            if pt in INTS and not (pt == "MPI_Comm" and INTS[pt] is c_ulong):
                if kind == "f" : X.violate("%s: a floating-point number is passed for an integer" % self._name, fatal=True)
                if kind in "psb": X.violate("%s: a pointer is passed for an integer" % self._name, fatal=True)
                if kind == "n": v = 0
                cargs.append(INTS[pt].wrap(v))
            elif pt == "double":
                if kind != "f8": X.violate("%s: something else is passed for a double" % self._name, fatal=True)
                cargs.append(v)
            elif pt == "char*":
                if kind in ("s", "b"): cargs.append(v)
                elif kind == "n" or v == 0: cargs.append(None)
                else: raise Unsupported("char* argument")
            elif pt == "double*":
                if kind == "r" and isinstance(v, c_double): cargs.append(v)
                elif kind == "n" or v == 0: cargs.append(None)
                else: raise Unsupported("double* argument")
            else: # void*
                if kind in ("f", "f8"): X.violate("%s: a number is passed for a pointer" % self._name, fatal=True)
                cargs.append(0 if kind == "n" else v)
        r = self._lib.model(self._name, cargs)
        t = self.restype
        if t is None: return None
        if ret in ("int", "long"):
            if t in (c_float, c_double): X.violate("%s: the result type is not that of the C function" % self._name, fatal=True)
            return (c_int64 if t in (c_long, c_ulong) else t).wrap(r) if getattr(t, "kind", "") == "i" else self._bad()
        if ret == "double": return r if t is c_double else X.violate("%s: the result type is not that of the C function" % self._name, fatal=True)
        if t is c_void_p: return r or None
        if isinstance(t, type) and issubclass(t, Pointer): return t(r)
        if getattr(t, "kind", "") == "i": return t.wrap(r)
        return self._bad()
    def _bad(self): raise Unsupported("result type")
    def _conv(self, a, t):
        if t is None:
            if a is None: return "n", 0
            if isinstance(a, (bool, SymBool, int, SymInt)): return "i", c_int.wrap(a)
            if isinstance(a, bytes): return "s", a
            if isinstance(a, StrBuf): return "b", a
            if isinstance(a, Ref): return "r", a.obj
            if isinstance(a, (Pointer, CArray, c_void_p)): return "p", addr_of(a)
            if isinstance(a, CData): return ("f8" if isinstance(a, c_double) else a.kind), a.value
            raise TypeError("Don't know how to convert parameter")
        if isinstance(t, type) and issubclass(t, Pointer):
            if a is None: return "n", 0
            if isinstance(a, Ref) and isinstance(a.obj, t.t): return "r", a.obj
            if isinstance(a, Pointer) and a.t is t.t or isinstance(a, CArray) and a._t is t.t: return "p", addr_of(a)
            raise TypeError("expected %s instance" % t.__name__)
        if t is c_void_p:
            if a is None: return "n", 0
            if isinstance(a, int): return "p", a & (1 << 64) - 1
            if isinstance(a, (Pointer, CArray, c_void_p)): return "p", addr_of(a)
            if isinstance(a, bytes): return "s", a
            if isinstance(a, StrBuf): return "b", a
            if isinstance(a, Ref): return "r", a.obj
            if isinstance(a, SymInt): return "p", a
            raise TypeError("wrong type")
        if t is c_char_p:
            if a is None: return "n", 0
            if isinstance(a, bytes): return "s", a
            if isinstance(a, StrBuf): return "b", a
            if isinstance(a, c_char_p): return "s", a.value
            raise TypeError("bytes or integer address expected instead of %s instance" % type(a).__name__)
        if t.kind == "i":
            if isinstance(a, CData) and not isinstance(a, t): raise TypeError("expected %s instance instead of %s" % (t.__name__, type(a).__name__))
            return "i", t.wrap(a)
        if t.kind == "f":
            if isinstance(a, CData) and not isinstance(a, t): raise TypeError("wrong type")
            return ("f8" if t is c_double else "f"), t.wrap(a)
        raise Unsupported("argument type")


class CtypesModel(types.ModuleType):
    NAMES = "ArgumentError c_int c_uint c_long c_ulong c_longlong c_int64 c_ssize_t c_int32 c_uint32 c_size_t c_uint64 c_ulonglong c_byte c_int8 c_ubyte c_uint8 c_short c_int16 c_bool c_float c_double c_void_p c_char_p c_char create_string_buffer byref pointer POINTER cast memmove sizeof addressof".split()
    def __init__(self, loader):
        super().__init__("ctypes")
        for n in self.NAMES: setattr(self, n, globals()[n])
        self.CDLL = self.PyDLL = loader.cdll; self.cdll = types.SimpleNamespace(LoadLibrary=loader.cdll)
        self.util = types.ModuleType("ctypes.util"); self.util.find_library = loader.find_library
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("ctypes." + n)
INTS = {}


class Lib:
    """stand-in of the shared library in symbolic mode"""
    def __init__(self, protos, model): self.__dict__.update(protos=protos, model=model)
    def __getattr__(self, n):
        if n not in self.protos: raise AttributeError("undefined symbol: " + n)
        f = Func(self, n); self.__dict__[n] = f; return f
    def __getitem__(self, n): return getattr(self, n)


_protos = {}
def prototypes(repo):
    if repo in _protos: return _protos[repo]
    t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(os.path.join(repo, "src", "cconviqt.h")).read(), flags=re.S); out = {}
    for m in re.finditer(r"([\w ]+?[\s*]+)(conviqt_\w+)\s*\(([^)]*)\)\s*;", t):
        norm = lambda s: re.sub(r"\s+", "", re.sub(r"\bconst\b", "", s))
        ps = [p for p in (x.strip() for x in m.group(3).split(",")) if p and p != "void"]
        out[m.group(2)] = (norm(m.group(1)), [norm(re.sub(r"\w+$", "", p)) for p in ps])
    _protos[repo] = out; return out


# ------------------------------------------------------------------ the real ctypes, for replays
def real_lib(protos, model, commtype):
    CT = {"int": rct.c_int, "long": rct.c_long, "char": rct.c_byte, "double": rct.c_double, "char*": rct.c_void_p, "double*": rct.c_void_p, "void*": rct.c_void_p, "MPI_Comm": commtype}
    keep = []
    class F(rct._CFuncPtr): _flags_ = rct._FUNCFLAG_CDECL if hasattr(rct, "_FUNCFLAG_CDECL") else 1; _restype_ = rct.c_int
    class RealLib: pass
    lib = RealLib()
    for name, (ret, ps) in protos.items():
        def mk(name, ret, ps):
            def cb(*a):
                v = []
                for x, p in zip(a, ps):
                    if p == "char*": v.append(None if not x else RealStr(x))
                    elif p == "double*": v.append(None if not x else rct.c_double.from_address(x))
                    elif p in ("void*",): v.append(x or 0)
                    else: v.append(x if x is not None else 0)
                try: return model(name, v)
                except BaseException as e: X.notes.append("callback " + name + " " + repr(e)); return 0
            return cb
        c = rct.CFUNCTYPE(CT[ret], *[CT[p] for p in ps])(mk(name, ret, ps)); keep.append(c)
        setattr(lib, name, F(rct.cast(c, rct.c_void_p).value))
    lib._keep = keep
    return lib
class RealStr:
    def __init__(self, addr): self.addr, self.bytes = addr, rct.string_at(addr)
    def put(self, b): rct.memmove(self.addr, b + b"\0", len(b) + 1)


# ------------------------------------------------------------------ importing the source under test
_code = {}
def code(path):
    if path not in _code: _code[path] = compile(open(path).read(), path, "exec")
    return _code[path]
class Loader:
    def __init__(self, repo, fakes): self.repo, self.fakes, self.mods = repo, fakes, {}
    def load(self, pkg, path):
        m = types.ModuleType(pkg); m.__file__, m.__package__, m.__path__ = path, pkg, [os.path.dirname(path)]
        b = dict(vars(builtins)); b["__import__"] = self.imp; b["print"] = lambda *a, **k: None
        m.__dict__["__builtins__"] = b; self.mods[pkg] = m
        exec(code(path), m.__dict__); return m
    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        if level:
            base = g["__package__"] + ("." + name if name else "")
            def get(n):
                if n not in self.mods:
                    p = os.path.join(self.repo, "python", *n.split(".")) + ".py"
                    if not os.path.exists(p): raise ImportError(n)
                    self.load(n, p); self.mods[n].__package__ = g["__package__"]
                return self.mods[n]
            if name: return get(base)
            r = types.SimpleNamespace()
            for f in fromlist: setattr(r, f, get(g["__package__"] + "." + f))
            return r
        top = name.split(".")[0]
        if top in self.fakes:
            m = self.fakes[top]
            if fromlist:
                for part in name.split(".")[1:]: m = getattr(m, part)
            return m
        return builtins.__import__(name, g, l, fromlist, level)


def run(harness, entry, repo, conc=None, params=None, deadline=60, log=None, out=None, jobs=1):
    global X, SP, WRAPFILE
    WRAPFILE = os.path.join(repo, "python", "libconviqt_wrapper", "__init__.py")
    ns = {"__file__": harness, "__name__": "pywrap"}
    here = sys.modules[__name__]; sys.modules["pysym"] = here
    exec(compile(open(harness).read(), harness, "exec"), ns)
    X = Exec(conc, params, deadline); X.todo = [[]]
    lost = []
    sys.unraisablehook = lambda a: lost.append(a.exc_value) if isinstance(a.exc_value, (Unsupported, Stop, PathEnd)) else None
    def prof(frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(os.path.dirname(WRAPFILE)): X.funcs.add(frame.f_code.co_qualname)
    gc.collect(); gc.freeze(); gc.disable()
    def explore(until=0):
        global SP
        while X.todo:
            if until and len(X.todo) >= until: return
            X.begin(X.todo.pop(0 if until else -1)); SP = Space(); del lost[:]
            try:
                if X.paths < 20: sys.setprofile(prof)
                try: ns[entry](X)
                finally: sys.setprofile(None)
                gc.collect()
                if lost: raise lost[0]
                X.paths += 1
            except PathEnd as e: X.cut += str(e) != "assumption"
            except Unsupported as e:
                X.cut += 1; X.inc += 1; X.obl += 1
                if len(X.notes) < 5: X.notes.append("U unsupported: %s" % e)
            except Stop: X.inc += 1; X.obl += 1; X.notes.append("U deadline"); return
            except Exception as e:
                if conc is not None: X.viol.append({"kind": "assert", "msg": "unexpected exception " + repr(e), "loc": where(), "inputs": {}, "stack": ""})
                else:
                    X.obl += 1; X.inc += 1; X.cut += 1
                    import traceback
                    if len(X.notes) < 5: X.notes.append("U " + repr(e) + " " + traceback.format_exc()[-700:].replace("\n", " | "))
            gc.collect()
            if conc is not None or len(X.viol) > 20: return
    COUNT = ("paths", "cut", "obl", "dis", "inc", "q", "unk", "steps", "solver_s")
    if jobs > 1 and conc is None:
        explore(8 * jobs); todo, X.todo = X.todo, []
        if len(X.viol) <= 20 and todo:
            kids = []
            for j in range(jobs):
                r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for c in COUNT: setattr(X, c, 0)
                    X.viol, X.reach, X.notes, X.todo = [], {}, [], todo[j::jobs]
                    try: explore()
                    except BaseException as e: X.notes.append("U worker " + repr(e)); X.inc += 1; X.obl += 1
                    with os.fdopen(w, "w") as f: json.dump(dict(n=[getattr(X, c) for c in COUNT], viol=X.viol, reach=X.reach, notes=X.notes, funcs=sorted(X.funcs)), f)
                    os._exit(0)
                os.close(w); kids.append((pid, r))
            for pid, r in kids:
                with os.fdopen(r) as f: t = f.read()
                os.waitpid(pid, 0)
                if not t: X.notes.append("U worker lost"); X.inc += 1; X.obl += 1; continue
                d = json.loads(t)
                for c, v in zip(COUNT, d["n"]): setattr(X, c, getattr(X, c) + v)
                X.viol += d["viol"]; X.notes += d["notes"]; X.funcs |= set(d["funcs"])
                for k, v in d["reach"].items(): X.reach[k] = X.reach.get(k, 0) + v
    else: explore()
    if log:
        with open(log, "w") as f:
            for v in X.viol: f.write("V " + json.dumps(v) + "\n")
            for k, n in X.reach.items(): f.write(("R " + k + "\n") * min(n, 3))
            for n in X.notes: f.write(n + "\n")
    if out: json.dump(dict(paths=X.paths, cut=X.cut, steps=X.steps, obligations=X.obl, discharged=X.dis, inconclusive=X.inc, queries=X.q, unknown=X.unk, solver_s=round(X.solver_s, 3), functions=sorted("libconviqt_wrapper." + f for f in X.funcs)), open(out, "w"))
    return X


def main():
    a = sys.argv[1:]; harness, entry, params, dl, out, log, rep, jobs = a.pop(0), "", {}, 60, None, None, None, 1
    while a:
        o = a.pop(0)
        if o == "-entry": entry = a.pop(0)
        elif o == "-p": k, v = a.pop(0).split("="); params[k] = v
        elif o == "-deadline": dl = float(a.pop(0))
        elif o == "-jobs": jobs = int(a.pop(0))
        elif o == "-o": out = a.pop(0)
        elif o == "-log": log = a.pop(0)
        elif o == "-replay": rep = dict(l.split(" ", 1) for l in open(a.pop(0)).read().split("\n") if " " in l)
        else: a and a.pop(0)
    repo = os.environ.get("VP_REPO", "/repo")
    x = run(harness, entry, repo, rep, params, dl, log, out, jobs)
    for v in x.viol[:10]: print("VP_ASSERT", v["msg"], v["loc"], v["inputs"])
    for n in x.notes: print(n)
    print("VP_DONE" if x.reach.get("done") else "VP_INCOMPLETE", x.paths, "paths", x.cut, "cut", x.obl, x.dis, x.inc)
    return 77 if x.viol and rep is not None else 0
INTS.update({"int": c_int, "long": c_long, "char": c_byte, "MPI_Comm": c_ulong})
if __name__ == "__main__":
    sys.exit(main())
