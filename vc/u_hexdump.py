"""C25: the hex dump helpers.  hexdump_line is verified character by character for every data, offset and row size; the
callers against its contract (a row is named by the index of its first byte)."""
from engine import *        # noqa
import engine as E
from unit import unit
from contracts import *       # noqa
from cocotbext.axi import utils
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.address_space import MemoryRegion, SparseMemoryRegion


def chars(ctx, s):
    if isinstance(s, str):
        return SSeq("str", items=[ord(c) for c in s], elem_bits=21)
    return s


@unit("C25", "hexdump_line", samples=40)
def _(ctx):
    ctx.strings = True
    n = ctx.fresh_int("n", 0, sample=lambda r: r.randint(0, 20))
    R = ctx.fresh_int("row", 1, sample=lambda r: r.choice([1, 2, 3, 8, 16]))
    off = ctx.fresh_int("offset", 0, sample=lambda r: r.choice([0, 5, 0x1000, 1 << 40]))
    data = ctx.fresh_bytes("data", n, ("bytes", "bytearray")[ctx.choice(2)])
    m = smin(n, R)
    hexref = lambda i: ite(mod(i, 3) == 0, E.hexdigit(floordiv(data.at(floordiv(i, 3)), 16)),
                           ite(mod(i, 3) == 1, E.hexdigit(mod(data.at(floordiv(i, 3)), 16)), 32))
    textref = lambda k: ite(And(data.at(k) > 32, data.at(k) < 127), data.at(k), 46)
    ctx.refs["hex"] = SSeq("str", n=3*n, f=hexref, elem_bits=21)
    ctx.refs["text"] = SSeq("str", n=n, f=textref, elem_bits=21)
    r = E.call(ctx, utils.hexdump_line, [data, off, R], {})
    ctx.prove(isinstance(r, str) or isinstance(r, SSeq) and r.kind == "str", "a line of text")
    r = chars(ctx, r)
    o = chars(ctx, E.format_value(ctx, off, "08x"))
    w = 3*R
    ctx.prove(r.n == o.n+2+w+1+m, "the line holds the label, the hex column and the text column")
    i = ctx.fresh_int("col", 0, sample=lambda r_: r_.randrange(0, 120))
    if not truth(ctx, i < r.n):
        return
    want = ite(i < o.n, o.at(i), ite(i == o.n, 58, ite(i == o.n+1, 32, ite(i < o.n+2+w, ite(i-o.n-2 < 3*m, hexref(i-o.n-2), 32),
               ite(i == o.n+2+w, 32, textref(i-o.n-3-w))))))
    ctx.cover("char")
    ctx.prove(r.at(i) == want, "each character of the line")


ROWS = [dict(R=r) for r in (1, 2, 3, 4, 7, 8, 16, 32)]


class Prefix(Contract):
    """the prefix string; a prefixed row is an odd number"""

    def binop(self, op, a, b):
        if not isinstance(op, ast.Add) or a is not self or isinstance(b, Contract):
            raise Unsupported("the prefix is used in another way")
        return b*2+1


import ast          # noqa


def setup(ctx, R):
    n = ctx.fresh_int("n", 0, sample=lambda r: r.randint(0, 60))
    data = ctx.fresh_bytes("data", n, ("bytes", "bytearray")[ctx.choice(2)])
    start = ctx.fresh_int("start", 0, sample=lambda r: r.choice([0, r.randint(0, n+3)]))
    has_len = ctx.choice(2)
    length = ctx.fresh_int("length", 1, sample=lambda r: r.choice([1, 16, r.randint(1, 70)])) if has_len else None
    off = ctx.fresh_int("offset", 0, sample=lambda r: r.choice([0, 5, 0x1000, 1 << 40]))
    stop = smin(start+length, n) if has_len else n
    rows = floordiv(smax(stop-start, 0)+R-1, R)
    prefix = Prefix()
    if ctx.mode == "conc":
        data = SSeq(data.kind, items=list(data.items))
    orig = SSeq(data.kind, items=data.items and list(data.items), n=data._n, f=data.f) if data.items is None else SSeq(data.kind, items=list(data.items))

    def h_line(d, offset, row_size=16):
        k = offset-off
        s = as_seq(ctx, d)
        ctx.prove(row_size == R, "rows have the requested size")
        ctx.prove(And(k >= start, k < stop), "a row starts inside the range")
        ctx.prove(s.n == smin(R, stop-k), "a row holds a full row of bytes, or what is left")
        forall(ctx, s.n, lambda i: s.at(i) == orig.at(k+i), "a row holds the bytes at its address")
        return k
    ctx.handlers[utils.hexdump_line] = h_line
    ctx.refs["rows"] = SSeq("list", n=rows, f=lambda j: 2*(start+j*R)+1, elem_bits=None)
    args = dict(row_size=R, prefix=prefix, offset=off)
    if has_len:
        args["length"] = length
    return data, start, args, rows, lambda j: 2*(start+j*R)+1


def check_rows(ctx, lines, rows, want):
    ctx.prove(lines.n == rows, "the rows cover the clipped range once")
    forall(ctx, lines.n, lambda j: lines.at(j) == want(j), "row by row, in order, prefix first")
    ctx.cover("rows")


@unit("C25", "hexdump_lines", quick=ROWS, thorough=[dict(R=r) for r in range(1, 65)], samples=40, bounded="row sizes 1,2,3,4,7,8,16,32 (1..64 thorough)")
def _(ctx, R):
    data, start, args, rows, want = setup(ctx, R)
    r = E.call(ctx, utils.hexdump_lines, [data, start], args)
    check_rows(ctx, as_seq(ctx, r), rows, want)


@unit("C25", "hexdump", quick=ROWS, thorough=[dict(R=r) for r in range(1, 65)], samples=40, bounded="row sizes 1,2,3,4,7,8,16,32 (1..64 thorough)")
def _(ctx, R):
    data, start, args, rows, want = setup(ctx, R)
    ctx.ghost.out = ctx.seq("list", items=[])

    def h_print(*a, **k):
        ctx.prove(len(a) == 1 and not k, "one line per print")
        E.call(ctx, getattr_(ctx, ctx.ghost.out, "append"), [a[0]], {})
    ctx.handlers[print] = h_print
    E.call(ctx, utils.hexdump, [data, start], args)
    check_rows(ctx, ctx.ghost.out, rows, want)


@unit("C25", "hexdump_str", samples=10)
def _(ctx):
    data = ctx.fresh_bytes("data", ctx.fresh_int("n", 0, 40))
    start, length, off = ctx.fresh_int("start", 0), ctx.fresh_int("length", 0), ctx.fresh_int("offset", 0)
    R = ctx.fresh_int("row", 1)
    lines = SSeq("list", n=ctx.fresh_int("lines", 0, 5, sample=lambda r: 2), f=lambda i: i)
    prefix = Prefix()
    calls = []

    def h_lines(d, start=0, length=None, row_size=16, prefix="", offset=0):
        calls.append((d, start, length, row_size, prefix, offset))
        return lines

    def h_join(sep, seq):
        ctx.prove(sep == "\n" and seq is lines, "lines are joined by newlines")
        return "JOINED"
    ctx.handlers[utils.hexdump_lines] = h_lines
    ctx.handlers["str.join"] = h_join
    full = ctx.choice(2)
    if full:
        r = E.call(ctx, utils.hexdump_str, [data, start, length, R, prefix, off], {})
    else:
        r = E.call(ctx, utils.hexdump_str, [data], dict(prefix=prefix, offset=off))
    ctx.prove(r == "JOINED", "the joined lines are returned")
    ctx.prove(len(calls) == 1, "one pass over the data")
    c = calls[0]
    ctx.prove(c[0] is data and c[4] is prefix and truth(ctx, c[5] == off), "the data, prefix and offset are passed on")
    if full:
        ctx.prove(And(c[1] == start, c[2] == length, c[3] == R), "the parameters are passed on")
    else:
        ctx.prove(c[1] == 0 and c[2] is None and c[3] == 16, "default parameters")


KINDS = {0: Memory, 1: SparseMemory, 2: MemoryRegion, 3: SparseMemoryRegion}


@unit("C25", "hexdump wrappers", quick=[dict(k=k, m=m) for k in range(4) for m in ("hexdump", "hexdump_lines", "hexdump_str")], samples=12)
def _(ctx, k, m):
    size = ctx.fresh_int("size", 1, sample=lambda r: r.randrange(1, 60))
    addr = ctx.fresh_int("addr", 0, sample=lambda r: r.randrange(0, size))
    length = ctx.fresh_int("length", 0, sample=lambda r: r.randint(0, size-addr))
    ctx.assume(And(addr < size, addr+length <= size))
    prefix = Prefix() if ctx.choice(2) else None
    o = ctx.new_obj(KINDS[k])
    calls = []
    fm = FlatMem(ctx, size, 0)
    if k == 0:
        o.fields.update(mem=fm, size=size)
    elif k == 2:
        o.fields.update(mem=fm, _size=size)
    elif k == 1:
        o.fields.update(size=size)

        def h_read(self, a, n, **kw):
            if truth(ctx, Or(a < 0, a >= size, n < 0, a+n > size)):
                raise PyExc(ValueError("range"))
            return SSeq("bytes", n=n, f=lambda i: fm.at0(a+i), elem_bits=8) if ctx.mode == "sym" else SSeq("bytes", items=[fm.at0(a+i) for i in range(n)])
        ctx.handlers[SparseMemory.read] = h_read
    res = {"hexdump": None, "hexdump_lines": SSeq("list", items=["a", "b"]), "hexdump_str": "TEXT"}[m]

    def h(d, start=0, length_=None, row_size=16, prefix="", offset=0, **kw):
        length__ = kw.pop("length", length_)
        ctx.prove(not kw, "known parameters")
        s = as_seq(ctx, d)
        calls.append(prefix)
        ctx.prove(And(start >= 0, row_size == 16), "default rows")
        stop = s.n if length__ is None else ite(length__ == 0, s.n, smin(start+length__, s.n))
        ctx.prove(stop-start == length, "exactly the requested bytes are dumped")
        forall(ctx, length, lambda i: s.at(start+i) == fm.at0(addr+i), "the bytes of the memory are dumped")
        ctx.prove(offset+start == addr, "rows are labelled with the memory address")
        return res
    if k == 3:
        sm = ctx.new_obj(SparseMemory)
        o.fields.update(mem=sm, _size=size)

        def h2(self, address, length_, prefix=""):
            calls.append(prefix)
            ctx.prove(And(address == addr, length_ == length), "the request is passed to the memory")
            return res
        ctx.handlers[getattr(SparseMemory, m)] = h2
    ctx.handlers[getattr(utils, m)] = h
    r = E.call(ctx, getattr_(ctx, o, m), [addr, length]+([prefix] if prefix else []), {})
    ctx.prove(r is res or res == "TEXT" and r == "TEXT", "the result is returned")
    ctx.prove(len(calls) == 1 and (calls[0] is prefix if prefix else calls[0] == ""), "the prefix is passed on")
