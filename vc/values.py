"""Symbolic values of the verification-condition generator.

Integers are mathematical.  `SInt`/`SBool` wrap z3 terms; `SSeq` is a Python sequence given by a
length and an element function; `Wide` is a non-negative integer given lane by lane (lanes of a
fixed number of bits), so that shifts, masks and byte extraction of bus-wide words stay linear.
"""
import z3

CTX = [None]            # the running path context (see engine.Ctx)


class Unsupported(Exception):
    """the construct is outside the verified subset: undecided, never a violation"""


def is_z(v):
    return isinstance(v, (SInt, SBool))


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX[0].fork(self)

    def __and__(self, o):
        return mkbool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == zb(o))
        return toint(self) == o

    def __ne__(self, o):
        return ~(self == o) if not isinstance(self == o, bool) else not (self == o)

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return "SBool(%s)" % (self.e,)

    def _i(self):
        return toint(self)

    def __add__(self, o):
        return toint(self)+o
    __radd__ = __add__

    def __sub__(self, o):
        return toint(self)-o

    def __rsub__(self, o):
        return o-toint(self)

    def __mul__(self, o):
        return toint(self)*o
    __rmul__ = __mul__

    def __lt__(self, o):
        return toint(self) < o

    def __le__(self, o):
        return toint(self) <= o

    def __gt__(self, o):
        return toint(self) > o

    def __ge__(self, o):
        return toint(self) >= o


def _lin(e):
    return e


class SInt:
    """mathematical integer; `byte` marks a term known to be in 0..2**bits-1"""
    __slots__ = ("e", "bits", "enum")

    def __init__(self, e, bits=None, enum=None):
        self.e = e
        self.bits = bits
        self.enum = enum

    def __repr__(self):
        return "SInt(%s)" % (self.e,)

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return CTX[0].fork(mkbool(self.e != 0))

    def __index__(self):
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __add__(self, o):
        return _arith("+", self, o, lambda a, b: a+b)
    __radd__ = __add__

    def __sub__(self, o):
        return _arith("-", self, o, lambda a, b: a-b)

    def __rsub__(self, o):
        return _arith("-", o, self, lambda a, b: a-b)

    def __mul__(self, o):
        if not isinstance(o, (int, SInt, SBool)):
            return NotImplemented
        return _arith("*", self, o, lambda a, b: a*b)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __mod__(self, o):
        return mod(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __rmod__(self, o):
        return mod(o, self)

    def __lshift__(self, o):
        return lshift(self, o)

    def __rlshift__(self, o):
        return lshift(o, self)

    def __rshift__(self, o):
        return rshift(self, o)

    def __rrshift__(self, o):
        return rshift(o, self)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __pow__(self, o):
        raise Unsupported("power of a symbolic base")

    def __rpow__(self, o):
        return o**CTX[0].concretize(self)

    def __lt__(self, o):
        return _cmp("<", self, o, lambda a, b: a < b)

    def __le__(self, o):
        return _cmp("<=", self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return _cmp(">", self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return _cmp(">=", self, o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple)):
            return False
        return _cmp("==", self, o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple)):
            return True
        return _cmp("!=", self, o, lambda a, b: a != b)

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic integer")


# Terms are hash-consed by z3 and fresh names recur from path to path, so the simplified result of an operation is
# kept by operation and operands (the entry keeps the operands alive, so their addresses stay theirs).
_MEMO = {}
_IV = {}


def _iv(n):
    r = _IV.get(n)
    if r is None:
        r = _IV[n] = z3.IntVal(n)
    return r


def _key(v):
    t = type(v)
    if t is SInt:
        return v.e.ast.value
    if t is SBool:
        return -v.e.ast.value
    if t is int or t is bool:
        return (int(v),)
    return None


def zi(v):
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, _iv(1), _iv(0))
    if isinstance(v, bool):
        return _iv(1 if v else 0)
    if isinstance(v, int):
        return _iv(int(v))
    if isinstance(v, Wide):
        return zi(v.as_int())
    raise Unsupported("not an integer: %r" % (v,))


def zb(v):
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SInt):
        return v.e != 0
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    raise Unsupported("not a boolean: %r" % (v,))


def mkint(e, bits=None):
    k = ("i", e.ast.value)
    r = _MEMO.get(k)
    if r is None:
        x = z3.simplify(e, som=False)
        r = (x.as_long() if z3.is_int_value(x) else x, e)
        _MEMO[k] = r
    r = r[0]
    return r if isinstance(r, int) else SInt(r, bits)


def mkbool(e):
    k = ("b", e.ast.value)
    r = _MEMO.get(k)
    if r is None:
        x = z3.simplify(e)
        r = (True if z3.is_true(x) else False if z3.is_false(x) else x, e)
        _MEMO[k] = r
    r = r[0]
    return r if isinstance(r, bool) else SBool(r)


def _memo(op, a, b, f):
    """f(a, b) for numbers, through the memo; a result is an int, a bool or a fresh wrapper"""
    ka, kb = _key(a), _key(b)
    if ka is None or kb is None:
        return f()
    k = (op, ka, kb)
    r = _MEMO.get(k)
    if r is None:
        v = f()
        _MEMO[k] = r = (v, a, b)
        return v
    v = r[0]
    if type(v) is SInt:
        return SInt(v.e, v.bits, v.enum)
    return v


def toint(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SBool):
        return mkint(z3.If(v.e, _iv(1), _iv(0)), 1)
    return v


def _arith(op, a, b, f):
    if isinstance(a, Wide):
        a = a.as_int()
    if isinstance(b, Wide):
        b = b.as_int()
    if not isinstance(a, (int, SInt, SBool)) or not isinstance(b, (int, SInt, SBool)):
        return NotImplemented
    return _memo(op, a, b, lambda: mkint(f(zi(a), zi(b))))


def _cmp(op, a, b, f):
    if isinstance(a, Wide):
        a = a.as_int()
    if isinstance(b, Wide):
        b = b.as_int()
    if not isinstance(b, (int, SInt, SBool)):
        return NotImplemented
    return _memo(op, a, b, lambda: mkbool(f(zi(a), zi(b))))


def floordiv(a, b):
    if isinstance(b, SInt):
        b = CTX[0].concretize(b)
    if isinstance(a, Wide):
        a = a.as_int()
    if b == 0:
        CTX[0].raise_py(ZeroDivisionError("integer division or modulo by zero"))
    if isinstance(a, (int,)) and isinstance(b, int):
        return int(a)//int(b)
    if b < 0:
        raise Unsupported("negative divisor")
    return _memo("//", a, b, lambda: mkint(zi(a)/_iv(int(b))))


def mod(a, b):
    if isinstance(b, SInt):
        b = CTX[0].concretize(b)
    if isinstance(a, Wide):
        a = a.as_int()
    if b == 0:
        CTX[0].raise_py(ZeroDivisionError("integer division or modulo by zero"))
    if isinstance(a, int) and isinstance(b, int):
        return int(a) % int(b)
    if b < 0:
        raise Unsupported("negative modulus")
    r = _memo("%", a, b, lambda: mkint(zi(a) % _iv(int(b))))
    if isinstance(r, SInt) and b & (b-1) == 0:
        r.bits = b.bit_length()-1
    return r


def smin(*a):
    r = a[0]
    for b in a[1:]:
        r = ite(b < r, b, r)
    return r


def smax(*a):
    r = a[0]
    for b in a[1:]:
        r = ite(b > r, b, r)
    return r


def ite(c, a, b):
    """merge when both sides are numbers, otherwise branch"""
    if isinstance(c, SInt):
        c = c != 0
    if not isinstance(c, SBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c.e, zb(a), zb(b)))
    if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
        bits = None
        ba, bb = bits_of(a), bits_of(b)
        if ba is not None and bb is not None:
            bits = max(ba, bb)
        k = ("ite", c.e.ast.value, _key(a), _key(b))
        v = _MEMO.get(k)
        if v is None:
            v = (mkint(z3.If(c.e, zi(a), zi(b))), c, a, b)
            _MEMO[k] = v
        v = v[0]
        return SInt(v.e, bits) if isinstance(v, SInt) else v
    return a if CTX[0].fork(c) else b


def bits_of(v):
    if isinstance(v, (bool, SBool)):
        return 1
    if isinstance(v, int):
        return v.bit_length() if v >= 0 else None
    if isinstance(v, SInt):
        return v.bits
    return None


def _junct(op, zero, mk, a):
    r = []
    for x in a:
        if not isinstance(x, (bool, SBool)):
            x = x != 0
        if isinstance(x, bool):
            if x is zero:
                return zero
        else:
            r.append(x)
    if not r:
        return not zero
    if len(r) == 1:
        return r[0]
    k = (op,)+tuple(x.e.ast.value for x in r)
    v = _MEMO.get(k)
    if v is None:
        v = (mkbool(mk([x.e for x in r])), r)
        _MEMO[k] = v
    return v[0]


def And(*a):
    return _junct("and", False, z3.And, a)


def Or(*a):
    return _junct("or", True, z3.Or, a)


def Not(a):
    if isinstance(a, bool):
        return not a
    if not isinstance(a, SBool):
        return Not(a != 0)
    k = ("not", a.e.ast.value)
    v = _MEMO.get(k)
    if v is None:
        v = (mkbool(z3.Not(a.e)), a)
        _MEMO[k] = v
    return v[0]


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return mkbool(zb(a) == zb(b))


_OR = z3.Function("bitor", z3.IntSort(), z3.IntSort(), z3.IntSort())
_AND = z3.Function("bitand", z3.IntSort(), z3.IntSort(), z3.IntSort())


def lane_or(a, b, g):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if g == 1:
        return mkint(z3.If(z3.Or(zi(a) != 0, zi(b) != 0), _iv(1), _iv(0)), 1)
    za, zb_ = zi(a), zi(b)
    t = _OR(za, zb_)
    CTX[0].axiom(z3.And(t >= 0, t < 2**g))
    return mkint(z3.If(za == 0, zb_, z3.If(zb_ == 0, za, z3.If(za == zb_, za, t))), g)


def lane_and(a, b, g):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    full = (1 << g)-1
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == full:
                return y
    if g == 1:
        return mkint(z3.If(z3.And(zi(a) != 0, zi(b) != 0), _iv(1), _iv(0)), 1)
    za, zb_ = zi(a), zi(b)
    t = _AND(za, zb_)
    CTX[0].axiom(z3.And(t >= 0, t <= za, t <= zb_))
    return mkint(z3.If(z3.Or(za == 0, zb_ == 0), _iv(0),
                       z3.If(za == full, zb_, z3.If(zb_ == full, za, t))), g)


class Wide:
    """non-negative integer given by lanes of g bits; `lanes` is an upper bound on the number of
    non-zero lanes (int) or None"""
    __slots__ = ("g", "lanes", "f", "onehot", "tag")

    def __init__(self, g, lanes, f, onehot=None, tag=None):
        self.g = g
        self.lanes = lanes
        self.f = f
        self.onehot = onehot
        self.tag = tag

    def lane(self, i):
        inb = And(i >= 0, i < self.lanes) if self.lanes is not None else (i >= 0)
        if isinstance(inb, bool):
            return self.f(i) if inb else 0
        v = self.f(i)
        return ite(inb, v, 0)

    def as_int(self):
        if self.lanes is not None and self.lanes <= 1:
            v = self.lane(0)
            return v
        if self.lanes is not None and self.lanes*self.g <= 64:
            r = 0
            for k in range(self.lanes):
                r = r+self.lane(k)*(1 << (k*self.g))
            if isinstance(r, SInt):
                r.bits = self.lanes*self.g
            return r
        raise Unsupported("wide word used as a number")

    def __bool__(self):
        if self.onehot is not None:
            return CTX[0].truth(self.onehot[1] != 0)
        if self.lanes is not None and self.lanes <= 16:
            c = False
            for k in range(self.lanes):
                c = Or(c, self.lane(k) != 0)
            return CTX[0].truth(c)
        raise Unsupported("truth of a wide word")

    def regran(self, g):
        if g == self.g:
            return self
        if self.lanes is not None and self.g % g == 0 and g == 1:
            k = self.g
            return Wide(1, self.lanes*k, lambda i: mod(floordiv(self.lane(i//k), 1)
                                                       if not isinstance(i, SInt) else
                                                       _bitsel(self, i, k), 2)
                        if isinstance(i, SInt) else (self.lane(i//k)//(1 << (i % k))) % 2)
        if g % self.g == 0 and self.lanes is not None:
            k = g//self.g
            n = -(-self.lanes//k)

            def f(i, self=self, k=k):
                r = 0
                for j in range(k):
                    r = r+self.lane(i*k+j)*(1 << (j*self.g))
                if isinstance(r, SInt):
                    r.bits = g
                return r
            return Wide(g, n, f)
        raise Unsupported("regranulate %d -> %d" % (self.g, g))

    def __lshift__(self, o):
        return lshift(self, o)

    def __rshift__(self, o):
        return rshift(self, o)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __add__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return self.as_int()+o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int()-o

    def __mul__(self, o):
        return self.as_int()*o

    def __floordiv__(self, o):
        if isinstance(o, int) and o & (o-1) == 0 and (o.bit_length()-1) % self.g == 0:
            return rshift(self, o.bit_length()-1)
        return self.as_int()//o

    def __mod__(self, o):
        if isinstance(o, int) and o & (o-1) == 0:
            return band(self, o-1)
        return self.as_int() % o

    def _eq(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            o = const_wide(o, self.g)
        if isinstance(o, Wide) and o.g == self.g and self.lanes is not None and o.lanes is not None:
            c = True
            for k in range(max(self.lanes, o.lanes)):
                c = And(c, self.lane(k) == o.lane(k))
            return c
        return self.as_int() == o

    def __eq__(self, o):
        if o is None:
            return False
        return self._eq(o)

    def __ne__(self, o):
        if o is None:
            return True
        return Not(self._eq(o))

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    __hash__ = None

    def __repr__(self):
        return "Wide(g=%d,lanes=%s)" % (self.g, self.lanes)


def _bitsel(w, i, k):
    raise Unsupported("bit of a wide word at a symbolic position")


def const_wide(v, g):
    n = -(-v.bit_length()//g)
    ones = v == (1 << v.bit_length())-1
    mask = (1 << g)-1

    def f(i, v=v):
        if isinstance(i, SInt):
            if ones and v.bit_length() % g == 0:
                return ite(And(i >= 0, i < n), mask, 0)
            r = 0
            for k in reversed(range(n)):
                r = ite(i == k, (v >> (k*g)) & mask, r)
            return r
        return (v >> (i*g)) & mask if i >= 0 else 0
    return Wide(g, n, f)


def gran_hint():
    return getattr(CTX[0], "gran", 8)


def _shift_lanes(sh, g):
    """shift amount as a number of g-bit lanes, or None"""
    if isinstance(sh, int):
        return sh//g if sh % g == 0 else None
    if g == 1:
        return sh
    if CTX[0].valid(mkbool(sh.e % g == 0)):
        return mkint(sh.e/g)
    return None


def lshift(a, sh):
    if isinstance(sh, SBool):
        sh = toint(sh)
    if isinstance(a, (int, SBool)) and isinstance(sh, int):
        return toint(a)*(1 << sh) if isinstance(a, SBool) else a << sh
    if isinstance(a, SBool):
        a = toint(a)
    if isinstance(a, Wide):
        k = _shift_lanes(sh, a.g)
        if k is None:
            raise Unsupported("shift not by whole lanes")
        if isinstance(k, int):
            return Wide(a.g, None if a.lanes is None else a.lanes+k, lambda i: a.lane(i-k))
        oh = None
        if a.onehot is not None:
            oh = (a.onehot[0]+k, a.onehot[1])
        return Wide(a.g, None, lambda i: a.lane(i-k), onehot=oh)
    if isinstance(a, SInt) and isinstance(sh, int):
        b = a.bits
        if b is not None and sh and b+sh > 64 and sh % gran_hint() == 0 and b <= gran_hint():
            g = gran_hint()
            return lshift(Wide(g, 1, lambda i: ite(i == 0, a, 0), onehot=(0, a)), sh)
        r = mkint(a.e*(1 << sh))
        if isinstance(r, SInt) and b is not None:
            r.bits = b+sh
        return r
    # symbolic shift amount
    if isinstance(a, int):
        if a == 0:
            return 0
        if a == 1:
            return lshift(Wide(1, 1, lambda i: ite(i == 0, 1, 0), onehot=(0, 1)), sh)
        if a & (a+1) == 0:
            return lshift(const_wide(a, 1), sh)
        return lshift(const_wide(a, gran_hint()), sh)
    if isinstance(a, SInt):
        g = gran_hint()
        if a.bits == 1:
            k8 = _shift_lanes(sh, g) if g != 1 else None
            if k8 is None:
                g = 1
        if a.bits is not None and a.bits <= g:
            return lshift(Wide(g, 1, lambda i: ite(i == 0, a, 0), onehot=(0, a)), sh)
    raise Unsupported("symbolic shift")


def rshift(a, sh):
    if isinstance(a, int) and isinstance(sh, int):
        return a >> sh
    if isinstance(a, SBool):
        a = toint(a)
    if isinstance(a, int):
        if a & (a+1) == 0:
            a = const_wide(a, 1)
        else:
            a = const_wide(a, gran_hint())
    if isinstance(a, Wide):
        k = _shift_lanes(sh, a.g)
        if k is None and isinstance(sh, int) and a.lanes is not None:
            return rshift(a.regran(1), sh)
        if k is None:
            raise Unsupported("shift not by whole lanes")
        neg = k < 0
        if neg is not False and CTX[0].truth(neg):
            CTX[0].raise_py(ValueError("negative shift count"))
        if isinstance(k, int):
            return Wide(a.g, None if a.lanes is None else max(a.lanes-k, 0), lambda i: ite(i >= 0, a.lane(i+k), 0))
        return Wide(a.g, a.lanes, lambda i: ite(i >= 0, a.lane(i+k), 0))
    if isinstance(a, SInt) and isinstance(sh, int):
        r = floordiv(a, 1 << sh)
        if isinstance(r, SInt) and a.bits is not None:
            r.bits = max(a.bits-sh, 0)
        return r
    if isinstance(a, SInt):
        return floordiv(a, 1 << CTX[0].concretize(sh))
    raise Unsupported("shift")


def band(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return And(a, b)
    a, b = toint(a), toint(b)
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(b, (SInt, Wide)) and isinstance(a, int):
        a, b = b, a
    if isinstance(a, SInt) and isinstance(b, int):
        if b == 0:
            return 0
        if b < 0:
            m = ~b      # a & ~m
            if m & (m+1) == 0:
                return a-mod(a, m+1)
            raise Unsupported("mask")
        if b & (b+1) == 0:
            if a.bits is not None and b.bit_length() >= a.bits:
                return a
            return mod(a, b+1)
        # contiguous run of ones
        low = (b & -b).bit_length()-1
        m = b >> low
        if m & (m+1) == 0:
            return mod(floordiv(a, 1 << low), m+1)*(1 << low)
        if a.bits is not None and a.bits <= 16:
            r = 0
            for k in range(a.bits):
                if b >> k & 1:
                    r = r+mod(floordiv(a, 1 << k), 2)*(1 << k)
            return r
        raise Unsupported("mask")
    if isinstance(a, Wide) or isinstance(b, Wide):
        if isinstance(b, Wide) and not isinstance(a, Wide):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return 0
            if b < 0:
                raise Unsupported("negative mask")
            if b & (b+1) == 0 and b.bit_length() % a.g == 0:
                k = b.bit_length()//a.g
                n = k if a.lanes is None else min(k, a.lanes)
                if n <= 1:
                    return a.lane(0)
                return Wide(a.g, n, a.f if a.lanes is not None and a.lanes <= n else a.lane)
            if b & (b+1) == 0 and b.bit_length() < a.g:
                return band(a.lane(0), b)
            b = const_wide(b, a.g)
        elif isinstance(b, SInt):
            if b.bits is not None and b.bits <= a.g:
                return band(a.lane(0), b)
            raise Unsupported("and with a symbolic mask")
        if a.g != b.g:
            if a.g % b.g == 0:
                a = a.regran(b.g)
            elif b.g % a.g == 0:
                b = b.regran(a.g)
        for x, y in ((a, b), (b, a)):
            if x.onehot is not None:
                pos, val = x.onehot
                v = lane_and(val, y.lane(pos), a.g)
                return Wide(a.g, None, lambda i: ite(i == pos, v, 0), onehot=(pos, v))
        n = min([x.lanes for x in (a, b) if x.lanes is not None], default=None)
        g = a.g
        return Wide(g, n, lambda i: lane_and(a.lane(i), b.lane(i), g))
    if isinstance(a, SInt) and isinstance(b, SInt):
        for x, y in ((a, b), (b, a)):
            if x.bits == 1:
                return ite(x == 0, 0, mod(y, 2))
        if a.bits is not None and b.bits is not None and max(a.bits, b.bits) <= 8:
            return lane_and(a, b, max(a.bits, b.bits))
    raise Unsupported("bitwise and")


def bor(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return Or(a, b)
    a, b = toint(a), toint(b)
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(b, Wide) and not isinstance(a, Wide):
        a, b = b, a
    if isinstance(a, Wide):
        if isinstance(b, int):
            b = const_wide(b, a.g)
        elif isinstance(b, SInt):
            bb = b
            if b.bits is None or b.bits > a.g:
                raise Unsupported("or with a symbolic number")
            b = Wide(a.g, 1, lambda i: ite(i == 0, bb, 0))
        if a.g != b.g:
            if a.g % b.g == 0:
                a = a.regran(b.g)
            else:
                b = b.regran(a.g)
        n = None
        if a.lanes is not None and b.lanes is not None:
            n = max(a.lanes, b.lanes)
        g = a.g
        return Wide(g, n, lambda i: lane_or(a.lane(i), b.lane(i), g))
    if isinstance(a, SInt) or isinstance(b, SInt):
        ba, bb = bits_of(a), bits_of(b)
        if ba is not None and bb is not None:
            # disjoint constant-shifted parts: a multiple of 2**k plus something below it
            for x, y, by in ((a, b, bb), (b, a, ba)):
                if isinstance(x, SInt) and CTX[0].valid(mkbool(x.e % (1 << by) == 0)):
                    r = x+y
                    if isinstance(r, SInt):
                        r.bits = max(ba, bb)
                    return r
                if isinstance(x, int) and x % (1 << by) == 0:
                    r = x+y
                    if isinstance(r, SInt):
                        r.bits = max(ba, bb)
                    return r
            if max(ba, bb) <= 8:
                return lane_or(a, b, max(ba, bb))
    raise Unsupported("bitwise or")


class SSeq:
    """Python sequence: kind in bytes/bytearray/list/tuple/memoryview; either `items` (a native list,
    concrete length) or a length `n` with an element function `f`."""

    def __init__(self, kind, items=None, n=None, f=None, elem_bits=None, label=None):
        self.kind = kind
        self.items = items
        self._n = n
        self.f = f
        self.elem_bits = elem_bits if elem_bits is not None else (8 if kind in ("bytes", "bytearray") else None)
        self.label = label
        self.serial = CTX[0].new_serial() if CTX[0] is not None else 0
        self.folds = {}         # measure name -> value over the whole sequence (symbolic case)
        self.prefix = {}        # measure name -> function k -> value over the first k elements
        self.tag = None
        self.hook = None        # called after every change of the contents

    @property
    def n(self):
        return len(self.items) if self.items is not None else self._n

    @property
    def mutable(self):
        return self.kind in ("bytearray", "list")

    @property
    def is_bytes(self):
        return self.kind in ("bytes", "bytearray")

    def at(self, i):
        """element at an in-range index (no check)"""
        if self.items is not None:
            if isinstance(i, int):
                if 0 <= i < len(self.items):
                    return self.items[i]
                return 0
            if not self.items:
                return 0
            r = self.items[-1]
            for k in reversed(range(len(self.items)-1)):
                r = ite(i == k, self.items[k], r)
            return r
        v = self.f(i)
        return v

    def fold(self, name):
        init, step = CTX[0].measures[name]
        if self.items is not None:
            r = init
            for x in self.items:
                r = step(r, x)
            return r
        if name not in self.folds:
            raise Unsupported("measure %s of an unknown sequence" % name)
        return self.folds[name]

    def concrete(self):
        return self.items is not None and all(not isinstance(x, (SInt, SBool, SSeq, Wide)) for x in self.items)

    def native(self):
        assert self.concrete()
        if self.kind == "bytes":
            return bytes(self.items)
        if self.kind == "bytearray":
            return bytearray(self.items)
        if self.kind == "tuple":
            return tuple(self.items)
        return list(self.items)

    def copy(self, kind):
        if self.items is not None:
            r = SSeq(kind, items=list(self.items))
        else:
            r = SSeq(kind, n=self._n, f=self.f, elem_bits=self.elem_bits)
            r.folds = dict(self.folds)
            r.prefix = dict(self.prefix)
        r.tag = self.tag
        return r

    def set_to(self, other):
        """in-place replacement of the contents"""
        CTX[0].note_write(self, None)
        if other.items is not None:
            self.items, self._n, self.f = list(other.items), None, None
        else:
            self.items, self._n, self.f = None, other._n, other.f
        self.folds = dict(other.folds)
        self.prefix = dict(other.prefix)
        self.tag = None
        if self.hook:
            self.hook()

    def append(self, x):
        if self.items is not None:
            CTX[0].note_write(self, None)
            self.items.append(x)
            if self.hook:
                self.hook()
            return
        old_n, old_f = self._n, self.f
        folds = {}
        for m in self.folds:
            folds[m] = CTX[0].measures[m][1](self.folds[m], x)
        prefix = {m: (lambda k, p=p, m=m: ite(k <= old_n, p(k), folds[m])) for m, p in self.prefix.items()}
        CTX[0].note_write(self, None)
        self._n = old_n+1
        self.f = lambda i: ite(i < old_n, old_f(i), x) if not _same(i, old_n) else x
        self.folds = folds
        self.prefix = prefix
        self.tag = None
        if self.hook:
            self.hook()

    def extend(self, o):
        if self.items is not None and o.items is not None:
            CTX[0].note_write(self, None)
            self.items.extend(o.items)
            if self.hook:
                self.hook()
            return
        r = concat(self, o, self.kind)
        self.set_to(r)

    def __repr__(self):
        return "SSeq(%s,n=%s)" % (self.kind, self.n)

    def __len__(self):
        n = self.n
        if isinstance(n, int):
            return n
        raise Unsupported("length of a symbolic sequence in a native context")

    def __getitem__(self, k):
        from engine import getitem
        return getitem(CTX[0], self, k)


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.e.eq(b.e)
    return False


def concat(a, b, kind):
    if a.items is not None and b.items is not None:
        return SSeq(kind, items=a.items+b.items)
    an, bn = a.n, b.n
    if isinstance(an, int) and an == 0:
        return b.copy(kind)
    if isinstance(bn, int) and bn == 0:
        return a.copy(kind)
    fa, fb = (list(a.items), None) if a.items is not None else (None, a.f), None
    aa, bb = a.copy(kind), b.copy(kind)
    r = SSeq(kind, n=an+bn, f=lambda i: ite(i < an, aa.at(i), bb.at(i-an)), elem_bits=a.elem_bits)
    for m in CTX[0].measures:
        try:
            x = a.fold(m)
            if b.items is not None:
                for it in b.items:
                    x = CTX[0].measures[m][1](x, it)
                r.folds[m] = x
        except Unsupported:
            pass
    return r
