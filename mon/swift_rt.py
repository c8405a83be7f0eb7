"""What the emulated Swift runs on: fixed-width integers that trap, value types, Data with its start index, raw memory with bounds.

A condition on which a Swift program stops (overflow, index out of range, nil unwrapped, memory touched outside its buffer) raises Trap.
"""
import struct, unicodedata
from .swift_front import Unsupported


class Trap(Exception):
    pass


class CompileError(Exception):
    """something no Swift compiler accepts"""


class SwiftError(Exception):
    def __init__(self, v):
        self.v = v
        super().__init__(repr(v))


class NilChain(Exception):
    pass


# ---------------------------------------------------------------- integers

def wrapint(cls, v):
    v &= cls.MASK
    return cls._mk(v - cls.MASK - 1 if v > cls.HI else v)


class SInt(int):
    __slots__ = ()
    SIGNED, BITS, LO, HI, MASK = True, 0, 0, 0, 0

    @classmethod
    def _mk(cls, v):
        return int.__new__(cls, v)

    @classmethod
    def chk(cls, v):
        if cls.LO <= v <= cls.HI:
            return int.__new__(cls, v)
        raise Trap(f"arithmetic overflow: {v} in {cls.__name__}")

    @classmethod
    def co(cls, v):
        t = type(v)
        if t is cls:
            return v
        if t is int:
            if not cls.LO <= v <= cls.HI:
                raise CompileError(f"integer literal {v} overflows {cls.__name__}")
            return int.__new__(cls, v)
        if t is Impl:
            return getattr(cls, "p_" + v.name)
        raise CompileError(f"{tname(v)} where {cls.__name__} is needed")

    # conversions
    @classmethod
    def c__0(cls, v):
        if isinstance(v, bool):
            raise CompileError(f"{cls.__name__}(Bool)")
        if isinstance(v, int):
            if type(v) is int:
                return cls.co(v)
            if cls.LO <= v <= cls.HI:
                return int.__new__(cls, v)
            raise Trap(f"not enough bits: {v} converted to {cls.__name__}")
        if isinstance(v, (SFloat, float)):
            f = v.f if isinstance(v, SFloat) else v
            if f != f or f in (float("inf"), float("-inf")):
                raise Trap("not a finite number")
            return cls.chk(int(f))
        if isinstance(v, Str):
            try:
                n = int(v) if not any(c in v for c in " _\t\n") else None
            except ValueError:
                return None
            return cls._mk(n) if n is not None and cls.LO <= n <= cls.HI else None
        raise Unsupported(f"{cls.__name__}({tname(v)})")

    @classmethod
    def c__(cls):
        return cls._mk(0)

    @classmethod
    def c__littleEndian(cls, v):
        return cls.co(v)

    @classmethod
    def c__bigEndian(cls, v):
        return cls.co(v).p_byteSwapped

    @classmethod
    def c__truncatingIfNeeded(cls, v):
        return wrapint(cls, int(v))

    @classmethod
    def c__bitPattern(cls, v):
        if isinstance(v, SFloat):
            return wrapint(cls, v.bits)
        return wrapint(cls, int(v))

    @classmethod
    def c__exactly(cls, v):
        return cls._mk(int(v)) if cls.LO <= v <= cls.HI else None

    @classmethod
    def c__clamping(cls, v):
        return cls._mk(min(max(int(v), cls.LO), cls.HI))

    @property
    def p_littleEndian(self):
        return self

    @property
    def p_byteSwapped(self):
        n = self.BITS // 8
        return wrapint(type(self), int.from_bytes((int(self) & self.MASK).to_bytes(n, "little"), "big"))

    p_bigEndian = p_byteSwapped

    @property
    def p_magnitude(self):
        return abs(int(self))

    @property
    def p_description(self):
        return Str(int(self))

    @property
    def p_nonzeroBitCount(self):
        return Int._mk(bin(int(self) & self.MASK).count("1"))

    def raw(self):
        return (int(self) & self.MASK).to_bytes(self.BITS // 8, "little")

    @classmethod
    def fromraw(cls, b):
        return cls._mk(int.from_bytes(b, "little", signed=cls.SIGNED))

    def _other(self, o):
        t = type(o)
        if t is type(self):
            return o
        if t is int:
            return o
        raise CompileError(f"arithmetic between {type(self).__name__} and {tname(o)}")

    def __add__(self, o): return self.chk(int.__add__(self, self._other(o)))
    def __radd__(self, o): return self.chk(int.__add__(self, self._other(o)))
    def __sub__(self, o): return self.chk(int.__sub__(self, self._other(o)))
    def __rsub__(self, o): return self.chk(int.__rsub__(self, self._other(o)))
    def __mul__(self, o): return self.chk(int.__mul__(self, self._other(o)))
    def __rmul__(self, o): return self.chk(int.__mul__(self, self._other(o)))
    def __and__(self, o): return self._mk(int.__and__(self, self._other(o)))
    def __rand__(self, o): return self._mk(int.__and__(self, self._other(o)))
    def __or__(self, o): return self._mk(int.__or__(self, self._other(o)))
    def __ror__(self, o): return self._mk(int.__or__(self, self._other(o)))
    def __xor__(self, o): return self._mk(int.__xor__(self, self._other(o)))
    def __rxor__(self, o): return self._mk(int.__xor__(self, self._other(o)))
    def __neg__(self): return self.chk(int.__neg__(self))
    def __invert__(self): return wrapint(type(self), ~int(self))

    def __lshift__(self, o):
        if o < 0:
            return self >> -int(o)
        return wrapint(type(self), int(self) << int(o)) if o < self.BITS else self._mk(0)

    def __rlshift__(self, o):
        return Int._mk(o) << self

    def __rshift__(self, o):
        if o < 0:
            return self << -int(o)
        return self._mk(int(self) >> min(int(o), 200))

    def __rrshift__(self, o):
        return Int._mk(o) >> self
    __hash__ = int.__hash__

    def m_isMultiple__of(self, o):
        return int(self) % int(o) == 0 if o else self == 0

    def m_addingReportingOverflow__0(self, o):
        v = int(self) + int(self._other(o))
        return Over(wrapint(type(self), v), not self.LO <= v <= self.HI)

    def m_multipliedReportingOverflow__by(self, o):
        v = int(self) * int(self._other(o))
        return Over(wrapint(type(self), v), not self.LO <= v <= self.HI)

    def m_subtractingReportingOverflow__0(self, o):
        v = int(self) - int(self._other(o))
        return Over(wrapint(type(self), v), not self.LO <= v <= self.HI)


class Over:
    def __init__(self, a, b):
        self.p_partialValue, self.p_overflow = a, b
        self.p_0, self.p_1 = a, b


def mkint(name, bits, signed):
    c = type(name, (SInt,), {"__slots__": (), "SIGNED": signed, "BITS": bits, "MASK": (1 << bits) - 1, "LO": -(1 << bits - 1) if signed else 0, "HI": (1 << bits - 1) - 1 if signed else (1 << bits) - 1})
    c.p_max, c.p_min, c.p_zero, c.p_bitWidth = c._mk(c.HI), c._mk(c.LO), c._mk(0), bits
    return c


Int8, Int16, Int32, Int64 = [mkint(f"Int{b}", b, True) for b in (8, 16, 32, 64)]
UInt8, UInt16, UInt32, UInt64 = [mkint(f"UInt{b}", b, False) for b in (8, 16, 32, 64)]
Int, UInt = mkint("Int", 64, True), mkint("UInt", 64, False)


class SFloat:
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits

    @classmethod
    def _of(cls, f):
        try:
            return cls(int.from_bytes(struct.pack(cls.FMT, f), "little"))
        except OverflowError:
            return cls(int.from_bytes(struct.pack(cls.FMT, float("inf") if f > 0 else float("-inf")), "little"))

    @property
    def f(self):
        return struct.unpack(self.FMT, self.bits.to_bytes(self.N, "little"))[0]

    @classmethod
    def co(cls, v):
        t = type(v)
        if t is cls:
            return v
        if t is int or t is float:
            return cls._of(v)
        if t is Impl:
            return getattr(cls, "p_" + v.name)
        raise CompileError(f"{tname(v)} where {cls.__name__} is needed")

    @classmethod
    def c__(cls):
        return cls(0)

    @classmethod
    def c__0(cls, v):
        if type(v) is cls:
            return v
        if isinstance(v, SFloat):
            return cls._of(v.f)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Unsupported(f"{cls.__name__}({tname(v)})")
        return cls._of(v)

    @classmethod
    def c__bitPattern(cls, v):
        return cls(int(cls.BP.co(v)))

    @property
    def p_bitPattern(self):
        return self.BP._mk(self.bits)

    @property
    def p_isNaN(self):
        return self.f != self.f

    def raw(self):
        return self.bits.to_bytes(self.N, "little")

    @classmethod
    def fromraw(cls, b):
        return cls(int.from_bytes(b, "little"))

    def _o(self, o):
        if type(o) is type(self):
            return o.f
        if type(o) in (int, float):
            return o
        raise CompileError(f"arithmetic between {type(self).__name__} and {tname(o)}")

    def __eq__(self, o): return self.f == self._o(o)
    def __ne__(self, o): return not self.f == self._o(o)
    def __lt__(self, o): return self.f < self._o(o)
    def __gt__(self, o): return self.f > self._o(o)
    def __le__(self, o): return self.f <= self._o(o)
    def __ge__(self, o): return self.f >= self._o(o)
    def __neg__(self): return type(self)(self.bits ^ 1 << self.N * 8 - 1)
    def __add__(self, o): return self._of(self.f + self._o(o))
    def __sub__(self, o): return self._of(self.f - self._o(o))
    def __mul__(self, o): return self._of(self.f * self._o(o))
    def __hash__(self): return hash(self.bits)


class Float32(SFloat):
    __slots__ = ()
    FMT, N, BP = "<f", 4, UInt32


class Float64(SFloat):
    __slots__ = ()
    FMT, N, BP = "<d", 8, UInt64


for _c in (Float32, Float64):
    _c.p_nan, _c.p_infinity, _c.p_zero = _c._of(float("nan")), _c._of(float("inf")), _c(0)


class Bool:
    @classmethod
    def co(cls, v):
        if type(v) is bool:
            return v
        raise CompileError(f"{tname(v)} where Bool is needed")

    @classmethod
    def c__0(cls, v):
        return cls.co(v)

    @classmethod
    def c__(cls):
        return False

    @classmethod
    def fromraw(cls, b):
        if b[0] > 1:
            raise Trap("undefined: a Bool that is neither 0 nor 1")
        return b[0] == 1
    N = 1


def tname(v):
    return {bool: "Bool", int: "integer literal", float: "float literal", type(None): "nil", Str: "String", SwArray: "Array"}.get(type(v), type(v).__name__)


# ---------------------------------------------------------------- value types, enums, classes

class SwStruct:
    def _fields(self):
        pass

    def _cp(self):
        o = type(self).__new__(type(self))
        o.__dict__.update({k: cp(v) for k, v in self.__dict__.items()})
        return o

    @classmethod
    def co(cls, v):
        if isinstance(v, cls):
            return v
        if type(v) is Impl:
            return getattr(cls, "p_" + v.name)
        raise CompileError(f"{tname(v)} where {cls.__name__} is needed")

    def i__(self):
        pass

    @classmethod
    def c__(cls):
        return make(cls, "i__")


class SwClass(SwStruct):
    def _cp(self):
        return self


FAIL = object()


def make(cls, init, *a):
    o = cls.__new__(cls)
    o._fields()
    r = getattr(o, init)(*a)
    return None if r is FAIL else o


class SwEnum:
    _raw = None

    @classmethod
    def _case(cls, name, raw):
        o = cls.__new__(cls)
        o.name = name
        o.r = raw
        setattr(cls, "p_" + name, o)
        cls._cases.append(o)

    @classmethod
    def co(cls, v):
        if isinstance(v, cls):
            return v
        if type(v) is Impl:
            o = getattr(cls, "p_" + v.name, None)
            if o is not None:
                return o
        raise CompileError(f"{tname(v)} where {cls.__name__} is needed")

    @classmethod
    def c__rawValue(cls, v):
        if cls._raw is None:
            raise CompileError(f"{cls.__name__} has no raw values")
        v = cls._raw.co(v)
        return next((c for c in cls._cases if c.r == v), None)

    @property
    def p_rawValue(self):
        if self._raw is None:
            raise CompileError(f"{type(self).__name__} has no raw values")
        return self.r

    @property
    def p_localizedDescription(self):
        return Str(self.name)

    def __repr__(self):
        return f"{type(self).__name__}.{self.name}"


class Impl:
    """.name, whose type is found where it is used"""
    def __init__(self, name):
        self.name = name


class Ref:
    """what & refers to"""
    def __init__(self, g, s):
        self.g, self.s = g, s


def cp(v):
    return v._cp() if isinstance(v, (SwStruct, SwArray, Data, SwDict)) else v


def deflt(v):
    t = type(v)
    return Int._mk(v) if t is int else Float64._of(v) if t is float else v


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta is Impl:
        a, b, ta, tb = b, a, tb, ta
    if tb is Impl:
        if ta is type(None):
            return False
        return a is type(a).co(b)
    if ta is Str or tb is Str:
        if a is None or b is None:
            return a is b
        return unicodedata.normalize("NFC", a) == unicodedata.normalize("NFC", b)
    if (ta is bool) != (tb is bool) and a is not None and b is not None:
        raise CompileError(f"{tname(a)} == {tname(b)}")
    if isinstance(a, (SwStruct, SwClass)) and "__eq__" not in type(a).__dict__ and a is not None and b is not None:
        raise Unsupported("== of a user type")
    return a == b


def cond(v):
    if v is True or v is False:
        return v
    raise CompileError(f"{tname(v)} as a condition")


def unwrap(v):
    if v is None:
        raise Trap("unexpectedly found nil while unwrapping an Optional value")
    return v


def div(a, b):
    if type(a) is int and type(b) is int:
        raise Unsupported("constant division")
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        raise Unsupported("float division")
    t = type(a) if type(a) is not int else type(b)
    t.co(a), t.co(b)
    if b == 0:
        raise Trap("division by zero")
    q = abs(int(a)) // abs(int(b))
    return t.chk(-q if (a < 0) != (b < 0) else q)


def rem(a, b):
    q = div(a, b)
    t = type(q)
    return t._mk(int(a) - int(q) * int(b))


def wrapop(op, a, b):
    t = type(a) if type(a) is not int else type(b)
    a, b = int(t.co(a)), int(t.co(b))
    return wrapint(t, a + b if op == "&+" else a - b if op == "&-" else a * b if op == "&*" else a << b % t.BITS if op == "&<<" else a >> b % t.BITS)


def optwrap(f):
    try:
        return f()
    except NilChain:
        return None


def optc(v):
    if v is None:
        raise NilChain()
    return v


def tryopt(f):
    try:
        return f()
    except SwiftError:
        return None


def trybang(f):
    try:
        return f()
    except SwiftError as e:
        raise Trap(f"try! of {e.v!r}")


def nilco(a, f):
    return a if a is not None else f()


def chklet(v, name):
    if isinstance(v, SwStruct) and not isinstance(v, SwClass) or isinstance(v, (SwArray, Data)):
        raise CompileError(f"'{name}' is a 'let' constant")
    return v


# ---------------------------------------------------------------- strings

class Encoding:
    def __init__(self, n):
        self.n = n

    @classmethod
    def co(cls, v):
        if isinstance(v, cls):
            return v
        if type(v) is Impl and hasattr(cls, "p_" + v.name):
            return getattr(cls, "p_" + v.name)
        raise Unsupported("string encoding")


for _n, _k in (("utf8", "utf-8"), ("ascii", "ascii"), ("utf16LittleEndian", "utf-16-le"), ("isoLatin1", "latin-1")):
    setattr(Encoding, "p_" + _n, Encoding(_k))


def graphemes(s):
    n, ri, join = 0, 0, False
    for i, c in enumerate(s):
        o = ord(c)
        ext = unicodedata.category(c) in ("Mn", "Me", "Mc") or 0xFE00 <= o <= 0xFE0F or 0x1F3FB <= o <= 0x1F3FF or o == 0x200D or 0xE0100 <= o <= 0xE01EF
        if i and (ext or join or (c == "\n" and s[i - 1] == "\r")):
            join = o == 0x200D
            continue
        if 0x1F1E6 <= o <= 0x1F1FF:
            ri += 1
            if ri % 2 == 0:
                continue
        else:
            ri = 0
        join = False
        n += 1
    return n


class Str(str):
    __slots__ = ()
    p_Encoding = Encoding

    @classmethod
    def co(cls, v):
        if isinstance(v, Str):
            return v
        raise CompileError(f"{tname(v)} where String is needed")

    @classmethod
    def c__(cls):
        return Str("")

    @classmethod
    def c__0(cls, v):
        if isinstance(v, str):
            return Str(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return Str(int(v))
        raise Unsupported("String()")

    @classmethod
    def c__data_encoding(cls, d, enc):
        try:
            return Str(tobytes(d).decode(Encoding.co(enc).n))
        except UnicodeDecodeError:
            return None

    @classmethod
    def c__bytes_encoding(cls, d, enc):
        return cls.c__data_encoding(d, enc)

    @classmethod
    def c__decoding_as(cls, d, e):
        if e is not UTF8:
            raise Unsupported("String(decoding:)")
        return Str(tobytes(d).decode("utf-8", "replace"))

    @classmethod
    def c__validating_as(cls, d, e):
        return cls.c__data_encoding(d, Encoding.p_utf8)

    def m_data__using(self, enc):
        try:
            return Data(self.encode(Encoding.co(enc).n))
        except UnicodeEncodeError:
            return None

    def m_data__using_allowLossyConversion(self, enc, lossy):
        if lossy:
            raise Unsupported("lossy")
        return self.m_data__using(enc)

    def m_lengthOfBytes__using(self, enc):
        return Int._mk(len(self.encode(Encoding.co(enc).n)))

    def m_hasPrefix__0(self, o):
        return self.startswith(o)

    @property
    def p_utf8(self):
        return SwArray([UInt8._mk(b) for b in self.encode()])

    @property
    def p_utf16(self):
        b = self.encode("utf-16-le")
        return SwArray([UInt16._mk(b[i] | b[i + 1] << 8) for i in range(0, len(b), 2)])

    @property
    def p_unicodeScalars(self):
        return SwArray(list(self))

    @property
    def p_count(self):
        return Int._mk(graphemes(self))

    @property
    def p_isEmpty(self):
        return not len(self)

    def __add__(self, o):
        return Str(str(self) + Str.co(o))
    __hash__ = str.__hash__


def interp(*parts):
    out = []
    for p in parts:
        if isinstance(p, SwEnum):
            p = p.name
        out.append(str(int(p)) if isinstance(p, SInt) else str(p))
    return Str("".join(out))


class UTF8:
    pass


# ---------------------------------------------------------------- ranges, arrays, dictionaries

class Range:
    def __init__(self, a, b, closed=False):
        t = type(a) if type(a) is not int else type(b)
        if t is int:
            t = Int
        a, b = t.co(a), t.co(b)
        if a > b:
            raise Trap(f"range with a lower bound {int(a)} above its upper bound {int(b)}")
        self.t, self.a, self.b, self.closed = t, int(a), int(b), closed

    @property
    def p_lowerBound(self): return self.t._mk(self.a)

    @property
    def p_upperBound(self): return self.t._mk(self.b)

    @property
    def end(self): return self.b + 1 if self.closed else self.b

    @property
    def p_count(self): return Int.chk(self.end - self.a)

    @property
    def p_isEmpty(self): return self.end == self.a

    def __iter__(self):
        mk = self.t._mk
        for i in range(self.a, self.end):
            yield mk(i)

    def m_contains__0(self, v): return self.a <= v < self.end
    def m_map__0(self, f): return SwArray([f(x) for x in self])
    def m_forEach__0(self, f): [f(x) for x in self]
    def m_reversed__(self): return SwArray(reversed(list(self)))


class PartialFrom:
    def __init__(self, a): self.a = a


class PartialTo:
    def __init__(self, b, closed): self.b, self.closed = b, closed


def mkrange(op, a, b):
    if a is None:
        return PartialTo(b, op == "...")
    if b is None:
        return PartialFrom(a)
    return Range(a, b, op == "...")


def bounds(r, start, end):
    """of a subscript by a range: checked against the indices there are"""
    if isinstance(r, PartialFrom):
        a, b = int(r.a), end
        if a > end:
            raise Trap("range out of bounds")
    elif isinstance(r, PartialTo):
        a, b = start, int(r.b) + (1 if r.closed else 0)
    else:
        a, b = r.a, r.end
    if a < start or b > end or a > b:
        raise Trap(f"range {a}..<{b} out of bounds {start}..<{end}")
    return a, b


ALLOC_LIMIT = 1 << 31


class Seq:
    def m_map__0(self, f): return SwArray([f(x) for x in self])
    def m_compactMap__0(self, f): return SwArray([y for y in (f(x) for x in self) if y is not None])
    def m_flatMap__0(self, f): return SwArray([y for x in self for y in f(x)])
    def m_filter__0(self, f): return SwArray([x for x in self if cond(f(x))])
    def m_forEach__0(self, f): [f(x) for x in list(self)]

    def m_reduce__0_0(self, i, f):
        if not callable(f):
            raise Unsupported("reduce with an operator")
        first = True
        for x in self:
            if first and type(i) in (int, float):
                i = deflt(i)
            first = False
            i = f(i, x)
        return deflt(i)

    def m_reduce__into_0(self, i, f):
        raise Unsupported("reduce(into:)")

    def m_enumerated__(self): return SwArray([(Int._mk(i), x) for i, x in enumerate(list(self))])
    def m_contains__0(self, v): return any(eq(x, v) for x in self)
    def m_contains__where(self, f): return any(f(x) for x in self)
    def m_allSatisfy__0(self, f): return all(f(x) for x in self)
    def m_first__where(self, f): return next((x for x in self if f(x)), None)
    def m_reversed__(self): return SwArray(reversed(list(self)))
    def m_elementsEqual__0(self, o): return list(self) == list(o)


class SwArray(list, Seq):
    __slots__ = ("lit",)

    def __init__(self, it=(), lit=False):
        list.__init__(self, it)
        self.lit = lit

    def _cp(self):
        return SwArray([cp(x) for x in self] if self and isinstance(self[0], (SwStruct, SwArray, Data)) and not isinstance(self[0], SwClass) else self)

    @classmethod
    def c__(cls): return SwArray()

    @classmethod
    def c__0(cls, s):
        return SwArray(s)

    @classmethod
    def c__repeating_count(cls, v, n):
        if n < 0:
            raise Trap("negative count")
        ASKED[0] += int(n) * 8
        if n > ALLOC_LIMIT // 8:
            raise Trap(f"{int(n)} elements allocated at once")
        return SwArray([cp(v) for _ in range(n)], type(v) in (int, float))

    @property
    def p_count(self): return Int._mk(len(self))

    @property
    def p_isEmpty(self): return not self

    @property
    def p_first(self): return self[0] if self else None

    @property
    def p_last(self): return self[-1] if self else None

    @property
    def p_indices(self): return Range(0, Int._mk(len(self)))

    @property
    def p_startIndex(self): return Int._mk(0)

    p_endIndex = p_count

    def m_append__0(self, v): self.append(cp(v))
    def m_append__contentsOf(self, s): self.extend(UInt8._mk(x) for x in s.b) if isinstance(s, Data) else self.extend(cp(x) for x in s)

    def m_reserveCapacity__0(self, n):
        ASKED[0] += max(0, int(n) * 8)
        if n < 0 or n > ALLOC_LIMIT // 8:
            raise Trap(f"{int(n)} elements allocated at once")

    def m_removeAll__(self): self.clear()
    def m_removeAll__keepingCapacity(self, k): self.clear()

    def m_removeLast__(self):
        if not self:
            raise Trap("removeLast of an empty array")
        return self.pop()

    def m_popLast__(self): return self.pop() if self else None

    def m_prefix__0(self, n): return SwArray(self[:int(n)])
    def m_dropFirst__0(self, n): return SwArray(self[int(n):])
    def m_dropFirst__(self): return SwArray(self[1:])

    def ix(self, i):
        if isinstance(i, (Range, PartialFrom, PartialTo)):
            a, b = bounds(i, 0, len(self))
            if a:
                raise Unsupported("array slice")
            return SwArray(self[a:b])
        Int.co(i)
        if not 0 <= i < len(self):
            raise Trap(f"index {int(i)} out of range")
        return self[i]

    def setix(self, i, v):
        self.ix(i)
        self[i] = cp(v)

    def __add__(self, o): return SwArray(list(self) + list(o))

    def __iadd__(self, o):
        self.extend(cp(x) for x in o)
        return self

    def m_withUnsafeBytes__0(self, f): return f(RawBuf(b"".join(x.raw() for x in self)))
    def m_withUnsafeBufferPointer__0(self, f): return f(self)


class SwDict(dict):
    def _cp(self): return SwDict(self)

    @classmethod
    def c__(cls): return SwDict()

    def ix(self, k): return self.get(k)
    def ix_default(self, k, d): return self.get(k, d)

    def setix(self, k, v):
        if v is None:
            self.pop(k, None)
        else:
            self[k] = v

    @property
    def p_count(self): return Int._mk(len(self))

    @property
    def p_isEmpty(self): return not self


# ---------------------------------------------------------------- raw memory

class RawPtr:
    """an address inside a buffer; what it may touch is known"""
    def __init__(self, buf, off=0, base=16):
        self.buf, self.off, self.base = buf, off, base

    def __add__(self, n): return RawPtr(self.buf, self.off + int(Int.co(n)), self.base)
    def __sub__(self, n): return RawPtr(self.buf, self.off - int(Int.co(n)), self.base)
    m_advanced__by = __add__

    def take(self, n):
        if n < 0 or self.off < 0 or self.off + n > len(self.buf):
            raise Trap(f"out-of-bounds read of {n} bytes at offset {self.off} of a buffer of {len(self.buf)}")
        return bytes(self.buf[self.off:self.off + n])

    def load(self, off, t, aligned):
        n = sizeof(t)
        o = self.off + int(off)
        if aligned and (self.base + o) % n:
            raise Trap("load from misaligned raw pointer")
        return t.fromraw(RawPtr(self.buf, o).take(n))

    def m_load__fromByteOffset_as(self, o, t): return self.load(o, t, True)
    def m_load__as(self, t): return self.load(0, t, True)
    def m_loadUnaligned__fromByteOffset_as(self, o, t): return self.load(o, t, False)
    def m_loadUnaligned__as(self, t): return self.load(0, t, False)


class RawBuf(Seq):
    def __init__(self, b, base=16):
        self.b, self.base = b, base

    @property
    def p_baseAddress(self): return RawPtr(self.b, 0, self.base) if len(self.b) else None

    @property
    def p_count(self): return Int._mk(len(self.b))

    @property
    def p_isEmpty(self): return not len(self.b)

    @property
    def p_indices(self): return Range(0, Int._mk(len(self.b)))

    def __iter__(self): return iter([UInt8._mk(x) for x in self.b])

    def ix(self, i):
        if isinstance(i, (Range, PartialFrom, PartialTo)):
            a, b = bounds(i, 0, len(self.b))
            r = Data(bytes(self.b[a:b]), a)
            return r
        if not 0 <= i < len(self.b):
            raise Trap(f"index {int(i)} out of range")
        return UInt8._mk(self.b[i])

    def m_load__fromByteOffset_as(self, o, t): return self._l(o, t, True)
    def m_load__as(self, t): return self._l(0, t, True)
    def m_loadUnaligned__fromByteOffset_as(self, o, t): return self._l(o, t, False)
    def m_loadUnaligned__as(self, t): return self._l(0, t, False)

    def _l(self, o, t, al):
        return RawPtr(self.b, 0, self.base).load(o, t, al)


class MutBuf(RawBuf):
    def setix(self, i, v):
        self.ix(i)
        self.b[i] = int(UInt8.co(v))

    def m_copyBytes__from(self, src):
        s = tobytes(src)
        if len(s) > len(self.b):
            raise Trap("copyBytes beyond the end")
        self.b[:len(s)] = s

    m_copyMemory__from = m_copyBytes__from


def sizeof(t):
    if isinstance(t, type) and issubclass(t, SInt):
        return t.BITS // 8
    if isinstance(t, type) and (issubclass(t, SFloat) or t is Bool):
        return t.N
    raise Unsupported(f"size of {t}")


def rawof(v):
    if isinstance(v, bool):
        return bytes([v])
    if isinstance(v, (SInt, SFloat)):
        return v.raw()
    if isinstance(v, SwArray):
        return b"".join(rawof(x) for x in v)
    if isinstance(v, SwEnum) and v._raw is not None:
        raise Unsupported("memory of an enum")
    raise Unsupported(f"memory of {tname(v)}")


def tobytes(d):
    if isinstance(d, Data):
        return d.b
    if isinstance(d, NSData):
        return bytes(d.b)
    if isinstance(d, RawBuf):
        return bytes(d.b)
    if isinstance(d, (list, tuple)):
        return bytes(int(UInt8.co(x)) for x in d)
    raise Unsupported(f"bytes of {tname(d)}")


class Data(Seq):
    def __init__(self, b=b"", off=0):
        self.b, self.off = b, off

    def _cp(self): return Data(self.b, self.off)

    @classmethod
    def co(cls, v):
        if isinstance(v, Data):
            return v
        raise CompileError(f"{tname(v)} where Data is needed")

    @classmethod
    def c__(cls): return Data()

    @classmethod
    def c__0(cls, v): return Data(tobytes(v))

    @classmethod
    def c__referencing(cls, v): return Data(bytes(v.b))

    @classmethod
    def c__capacity(cls, n): return Data(alloc(n)[:0])

    @classmethod
    def c__count(cls, n): return Data(alloc(n))

    @classmethod
    def c__repeating_count(cls, v, n): return Data(bytes([v]) * len(alloc(n)))

    @classmethod
    def c__bytes_count(cls, p, n):
        if isinstance(p, RawPtr):
            return Data(p.take(int(n)))
        if isinstance(p, Ref):
            return Data(RawPtr(rawof(p.g())).take(int(n)))
        return Data(tobytes(p)[:int(n)])

    @classmethod
    def c__buffer(cls, v): return Data(tobytes(v))

    @property
    def p_count(self): return Int._mk(len(self.b))

    @property
    def p_isEmpty(self): return not self.b

    @property
    def p_startIndex(self): return Int._mk(self.off)

    @property
    def p_endIndex(self): return Int._mk(self.off + len(self.b))

    @property
    def p_indices(self): return Range(self.p_startIndex, self.p_endIndex)

    @property
    def p_first(self): return UInt8._mk(self.b[0]) if self.b else None

    @property
    def p_last(self): return UInt8._mk(self.b[-1]) if self.b else None

    def __iter__(self): return iter([UInt8._mk(x) for x in self.b])
    def __eq__(self, o): return isinstance(o, Data) and self.b == o.b
    def __hash__(self): return hash(self.b)
    def __add__(self, o): return Data(self.b + tobytes(o), self.off)

    def __iadd__(self, o):
        self.b += tobytes(o)
        return self

    def ix(self, i):
        if isinstance(i, (Range, PartialFrom, PartialTo)):
            a, b = bounds(i, self.off, self.off + len(self.b))
            return Data(self.b[a - self.off:b - self.off], a)
        Int.co(i)
        if not self.off <= i < self.off + len(self.b):
            raise Trap(f"index {int(i)} out of range {self.off}..<{self.off + len(self.b)}")
        return UInt8._mk(self.b[i - self.off])

    def setix(self, i, v):
        self.ix(i)
        b = bytearray(self.b)
        b[i - self.off] = int(UInt8.co(v))
        self.b = bytes(b)

    def m_subdata__in(self, r):
        a, b = bounds(r, self.off, self.off + len(self.b))
        return Data(self.b[a - self.off:b - self.off])

    def m_withUnsafeBytes__0(self, f): return f(RawBuf(self.b, 16 + self.off))
    def m_append__0(self, v): self.b += bytes([v]) if isinstance(v, UInt8) or type(v) is int else tobytes(v)
    def m_append__contentsOf(self, v): self.b += tobytes(v)

    def m_append__0_count(self, p, n):
        self.b += Data.c__bytes_count(p, n).b

    def m_reserveCapacity__0(self, n): alloc(n)

    def m_removeAll__(self): self.b = b""

    def m_prefix__0(self, n): return Data(self.b[:neg(n)], self.off)
    def m_suffix__0(self, n): return Data(self.b[max(0, len(self.b) - neg(n)):], self.off + max(0, len(self.b) - int(n)))
    def m_dropFirst__0(self, n): return Data(self.b[neg(n):], self.off + min(len(self.b), int(n)))
    def m_dropFirst__(self): return self.m_dropFirst__0(1)
    def m_dropLast__0(self, n): return Data(self.b[:max(0, len(self.b) - neg(n))], self.off)
    def m_starts__with(self, o): return self.b.startswith(tobytes(o))
    def m_distance__from_to(self, a, b): return Int.chk(int(b) - int(a))
    def m_index__0_offsetBy(self, a, n): return Int.chk(int(a) + int(n))


def neg(n):
    if n < 0:
        raise Trap("negative length")
    return int(n)


ASKED = [0]         # bytes asked for by the lengths the program gives


def alloc(n):
    ASKED[0] += max(0, int(n))
    if n < 0 or n > ALLOC_LIMIT:
        raise Trap(f"allocation of {int(n)} bytes")
    return bytes(n)


class NSData(Seq):
    def __init__(self, b=b""): self.b = bytearray(b)

    @classmethod
    def co(cls, v):
        if isinstance(v, cls):
            return v
        raise CompileError(f"{tname(v)} where {cls.__name__} is needed")

    @classmethod
    def c__(cls): return cls()

    @classmethod
    def c__data(cls, d): return cls(tobytes(d))

    @classmethod
    def c__capacity(cls, n): return cls(alloc(n)[:0])

    @classmethod
    def c__length(cls, n): return cls(alloc(n))

    @classmethod
    def c__bytes_length(cls, p, n): return cls(Data.c__bytes_count(p, n).b)

    @property
    def p_length(self): return Int._mk(len(self.b))

    @property
    def p_count(self): raise CompileError("NSData has no count")

    @property
    def p_bytes(self): return RawPtr(self.b)

    def m_subdata__with(self, r): raise Unsupported("NSRange")


class NSMutableData(NSData):
    def m_append__0(self, d):
        if not isinstance(d, Data):
            raise CompileError(f"append({tname(d)}) of NSMutableData")
        self.b += d.b

    def m_append__0_length(self, p, n):
        n = int(Int.co(n))
        if isinstance(p, Ref):
            p = RawPtr(rawof(p.g()))
        elif isinstance(p, SwArray):
            p = RawPtr(rawof(p))
        elif isinstance(p, Str):
            p = RawPtr(p.encode() + b"\0")
        elif not isinstance(p, RawPtr):
            raise Unsupported("append of a pointer")
        self.b += p.take(n)


class MemLayout:
    def __init__(self, t):
        n = sizeof(t)
        self.p_size = self.p_stride = self.p_alignment = Int._mk(n)

    @classmethod
    def m_size__ofValue(cls, v): return Int._mk(len(rawof(v)))


# ---------------------------------------------------------------- functions

def f_memcpy__0_0_0(d, s, n):
    n = int(Int.co(n))
    if n < 0:
        raise Trap("memcpy of a negative length")
    b = s.take(n) if isinstance(s, RawPtr) else RawPtr(rawof(s.g())).take(n) if isinstance(s, Ref) else None
    if b is None:
        raise Unsupported("memcpy source")
    if isinstance(d, Ref):
        cur = d.g()
        old = rawof(cur)
        if n > len(old):
            raise Trap(f"out-of-bounds write of {n} bytes into {len(old)}")
        new = b + old[n:]
        if isinstance(cur, SwArray):
            if cur and not isinstance(cur[0], UInt8):
                raise Unsupported("memcpy to an array")
            d.s(SwArray(UInt8._mk(x) for x in new))
        else:
            d.s((Bool if isinstance(cur, bool) else type(cur)).fromraw(new))
    elif isinstance(d, RawPtr) and isinstance(d.buf, bytearray):
        if d.off < 0 or d.off + n > len(d.buf):
            raise Trap(f"out-of-bounds write of {n} bytes at {d.off} of {len(d.buf)}")
        d.buf[d.off:d.off + n] = b
    else:
        raise Unsupported("memcpy destination")


def f_withUnsafeBytes__of_0(r, f):
    return f(RawBuf(rawof(r.g() if isinstance(r, Ref) else r)))


def f_withUnsafeMutableBytes__of_0(r, f):
    v = r.g()
    m = MutBuf(bytearray(rawof(v)))
    o = f(m)
    if isinstance(v, SwArray):
        raise Unsupported("mutable bytes of an array")
    r.s((Bool if isinstance(v, bool) else type(v)).fromraw(bytes(m.b)))
    return o


def f_withUnsafePointer__to_0(r, f):
    return f(RawPtr(rawof(r.g() if isinstance(r, Ref) else r)))


def f_fatalError__0(m=""): raise Trap("fatalError: " + m)
def f_fatalError__(): raise Trap("fatalError")
f_preconditionFailure__0, f_preconditionFailure__, f_assertionFailure__0, f_assertionFailure__ = f_fatalError__0, f_fatalError__, f_fatalError__0, f_fatalError__


def f_precondition__0(c):
    if not cond(c):
        raise Trap("precondition failed")


def f_precondition__0_0(c, m): f_precondition__0(c)


f_assert__0, f_assert__0_0 = f_precondition__0, f_precondition__0_0


def f_print__0(*a): pass


def _mm(f):
    def g(a, b):
        t = type(a) if type(a) is not int else type(b)
        return deflt(f(t.co(a), t.co(b)) if t is not int else f(a, b))
    return g


f_min__0_0, f_max__0_0 = _mm(min), _mm(max)


def f_abs__0(a): return -a if a < 0 else a
def f_type__of(v): return type(v)
def f_zip__0_0(a, b): return SwArray(zip(a, b))


def _stride(incl):
    def g(a, b, s):
        t = next((type(x) for x in (a, b, s) if type(x) is not int), Int)
        if s == 0:
            raise Trap("stride of zero")
        return SwArray(t._mk(x) for x in range(int(a), int(b) + ((1 if s > 0 else -1) if incl else 0), int(s)))
    return g


f_stride__from_to_by, f_stride__from_through_by = _stride(False), _stride(True)

TYPES = {"Int": Int, "UInt": UInt, "Int8": Int8, "Int16": Int16, "Int32": Int32, "Int64": Int64, "UInt8": UInt8, "UInt16": UInt16, "UInt32": UInt32, "UInt64": UInt64,
         "Float": Float32, "Float32": Float32, "Double": Float64, "Float64": Float64, "Bool": Bool, "String": Str, "Data": Data, "NSMutableData": NSMutableData, "NSData": NSData, "Array": SwArray,
         "Dictionary": SwDict, "UTF8": UTF8}


# ---------------------------------------------------------------- coercion by declared type

def ident(v):
    return v


def co_opt(f):
    return lambda v: None if v is None else f(v)


def co_array(f):
    def g(v):
        if type(v) is not SwArray:
            if v is None or isinstance(v, (SInt, int, str)):
                raise CompileError(f"{tname(v)} where an array is needed")
            return v
        if v.lit:
            v[:] = [f(x) for x in v]
            v.lit = False
        elif v:
            f(v[0])
        return v
    return g


def as_(v, t):
    if t is Data and isinstance(v, NSData):
        return Data(bytes(v.b))
    if t is NSData and isinstance(v, Data):
        return NSData(v.b)
    if isinstance(t, type) and issubclass(t, (SInt, SFloat, Str, SwEnum)):
        return t.co(v)
    if isinstance(t, type) and isinstance(v, t):
        return v
    raise Unsupported(f"{tname(v)} as {t}")


def isa(v, t):
    if not isinstance(t, type):
        raise Unsupported("is")
    if t is Bool:
        return isinstance(v, bool)
    return isinstance(v, t)


def overload(cands):
    """[(coercers, function)]: the one whose parameters fit"""
    def pick(self, *a):
        ok = []
        for cos, f in cands:
            try:
                for c, x in zip(cos, a):
                    c(x)
                ok.append(f)
            except CompileError:
                pass
        if len(ok) != 1:
            raise Unsupported("overload")
        return ok[0](self, *a)
    return pick
