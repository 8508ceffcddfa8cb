"""Byte-addressed memory with per-byte tags and copy-on-write pages.

tags: 0 undefined, 1 concrete byte, 2 start of an 8-byte object, 3 start of a 4-byte object, 4 continuation of an
object, 5 inaccessible (red zone / freed)
"""
from . import terms as T

PS = 12
PSZ = 1 << PS
PM = PSZ - 1
C8 = b'\x01' * 8
C4 = b'\x01' * 4
O8 = b'\x02' + b'\x04' * 7
O4 = b'\x03' + b'\x04' * 3
ONES = b'\x01' * PSZ
ZEROS = bytes(PSZ)
FIVES = b'\x05' * PSZ
M64 = (1 << 64) - 1


class UndefUsed(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'

    def __and__(self, o):
        return self

    def _used(self, *a):
        raise UndefUsed('an output depends on uninitialised memory')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __float__ = __int__ = _used


UNDEF = Undef()


class Partial:
    """integer of n bytes, some of which (mask 0) are uninitialised: copies keep the others, parts of it can be used, the whole cannot"""
    __slots__ = ('d', 't')

    def __init__(self, d, t):
        self.d, self.t = bytes(d), bytes(t)

    def cut(self, i, n):
        d, t = self.d[i:i + n], self.t[i:i + n]
        if 1 not in t:
            return UNDEF
        if 0 not in t:
            return int.from_bytes(d, 'little')
        return Partial(d, t)

    def __and__(self, m):
        for n in (8, 4, 2, 1):
            if m == (1 << (8 * n)) - 1:
                return self if n >= len(self.d) else self.cut(0, n)
        n = (m.bit_length() + 7) // 8
        if m > 0 and n <= len(self.d) and all(self.t[i] for i in range(n) if m >> (8 * i) & 255):
            return int.from_bytes(self.d, 'little') & m
        return UNDEF

    __rand__ = __and__

    def __rshift__(self, k):
        return self.cut(k // 8, len(self.d) - k // 8) if k % 8 == 0 else UNDEF

    def _any(self, *a):
        return UNDEF
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __invert__ = _any

    def __repr__(self):
        return 'Partial(%s,%s)' % (self.d.hex(), self.t.hex())


class MemError(Exception):
    pass


class Page:
    __slots__ = ('d', 't', 'o', 'own')

    def __init__(self, d, t, o, own):
        self.d, self.t, self.o, self.own = d, t, o, own


class F32:
    """value of a single-precision float (or other 4-byte object)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __and__(self, m):
        return self

    def __repr__(self):
        return 'F32(%r)' % (self.v,)


class Pair:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __and__(self, m):
        if m == 0xffffffff:
            return self.lo
        if m == M64:
            return self
        raise NotImplementedError('mask of a pair')

    def __rshift__(self, k):
        if k == 32:
            return self.hi
        raise NotImplementedError('shift of a pair')

    def __repr__(self):
        return 'Pair(%r,%r)' % (self.lo, self.hi)


class Mem:
    __slots__ = ('pages', 'tok', 'brk', 'blocks', 'log')

    def __init__(self):
        self.pages = {}
        self.tok = object()
        self.brk = 0x100000000
        self.blocks = {}     # base -> size
        self.log = None

    def clone(self):
        n = Mem.__new__(Mem)
        n.pages = dict(self.pages)
        n.tok = object()
        self.tok = object()
        n.brk = self.brk
        n.blocks = dict(self.blocks)
        n.log = None if self.log is None else self.log.clone()
        return n

    def wpage(self, pn):
        p = self.pages.get(pn)
        if p is None:
            raise MemError('write to unmapped address %#x' % (pn << PS))
        if p.own is not self.tok:
            p = Page(bytearray(p.d), bytearray(p.t), dict(p.o), self.tok)
            self.pages[pn] = p
        return p

    def map(self, a, n, tag):
        """map pages covering [a,a+n) with all bytes tag"""
        fill = {0: ZEROS, 1: ONES, 5: FIVES}[tag]
        for pn in range(a >> PS, (a + n + PM) >> PS):
            if pn not in self.pages:
                self.pages[pn] = Page(bytearray(PSZ), bytearray(fill), {}, self.tok)

    # -- raw ranges
    def set_range(self, a, n, tag, byte=0):
        while n > 0:
            p = self.wpage(a >> PS)
            o = a & PM
            k = min(n, PSZ - o)
            if p.o:
                self._drop(p, o, k)
            p.t[o:o + k] = bytes([tag]) * k
            if tag == 1:
                p.d[o:o + k] = bytes([byte]) * k
            a += k
            n -= k

    def _drop(self, p, o, k):
        """forget objects starting in [o,o+k) ; objects straddling the start become undefined"""
        if k <= 16:
            for i in range(o, o + k):
                if p.t[i] in (2, 3):
                    p.o.pop(i, None)
        else:
            for i in [i for i in p.o if o <= i < o + k]:
                del p.o[i]
        if p.t[o] == 4:
            i = o - 1
            while p.t[i] == 4:
                p.t[i] = 0
                i -= 1
            if p.t[i] in (2, 3):
                p.t[i] = 0
                p.o.pop(i, None)
        i = o + k
        if i < PSZ and p.t[i] == 4:
            while i < PSZ and p.t[i] == 4:
                p.t[i] = 0
                i += 1

    def write_bytes(self, a, b):
        n = len(b)
        i = 0
        while i < n:
            p = self.wpage((a + i) >> PS)
            o = (a + i) & PM
            k = min(n - i, PSZ - o)
            if 5 in p.t[o:o + k]:
                raise MemError('write of %d bytes at %#x outside any object' % (n, a))
            if p.o:
                self._drop(p, o, k)
            p.d[o:o + k] = b[i:i + k]
            p.t[o:o + k] = ONES[:k]
            i += k

    def read_bytes(self, a, n):
        out = bytearray()
        while n > 0:
            p = self.pages.get(a >> PS)
            if p is None:
                raise MemError('read from unmapped address %#x' % a)
            o = a & PM
            k = min(n, PSZ - o)
            t = p.t[o:o + k]
            if t != ONES[:k]:
                if 5 in t:
                    raise MemError('read at %#x outside any object' % a)
                if 2 in t or 3 in t or 4 in t:
                    # concretise known floats
                    buf = bytearray(p.d[o:o + k])
                    for i, v in p.o.items():
                        if o <= i < o + k:
                            if v.__class__ is T.Q:
                                buf[i - o:i - o + 8] = T.q2bits(v).to_bytes(8, 'little')
                            elif v.__class__ is F32 and v.v.__class__ is T.Q:
                                buf[i - o:i - o + 4] = T.q2bits32(v.v).to_bytes(4, 'little')
                            elif isinstance(v, T.Special):
                                import struct
                                buf[i - o:i - o + 8] = struct.pack('<d', v)
                            else:
                                raise MemError('symbolic bytes read at %#x' % (a - o + i))
                    out += buf[:k]
                else:
                    raise MemError('uninitialised bytes read at %#x' % a)
            else:
                out += p.d[o:o + k]
            a += k
            n -= k
        return bytes(out)

    def copy(self, dst, src, n):
        """memmove keeping objects and undefined bytes"""
        if n <= 0:
            return
        items = []
        a, left = src, n
        while left > 0:
            p = self.pages.get(a >> PS)
            if p is None:
                raise MemError('read from unmapped address %#x' % a)
            o = a & PM
            k = min(left, PSZ - o)
            t = bytes(p.t[o:o + k])
            if 5 in t:
                raise MemError('copy of %d bytes from %#x reads outside any object' % (n, src))
            ob = {i - o: v for i, v in p.o.items() if o <= i < o + k} if p.o else {}
            items.append((bytes(p.d[o:o + k]), t, ob, k))
            a += k
            left -= k
        a = dst
        for d, t, ob, k in items:
            i = 0
            while i < k:
                p = self.wpage((a + i) >> PS)
                o = (a + i) & PM
                j = min(k - i, PSZ - o)
                if 5 in p.t[o:o + j]:
                    raise MemError('copy of %d bytes to %#x writes outside any object' % (n, dst))
                if p.o:
                    self._drop(p, o, j)
                p.d[o:o + j] = d[i:i + j]
                p.t[o:o + j] = t[i:i + j]
                for q, v in ob.items():
                    if i <= q < i + j:
                        p.o[o + q - i] = v
                        if q + (8 if t[q] == 2 else 4) > i + j:
                            raise MemError('unaligned object copy')
                i += j
            a += k

    # -- typed access
    def ld8(self, a):
        p = self.pages.get(a >> PS)
        o = a & PM
        if p is not None and o <= PSZ - 8:
            t = p.t[o:o + 8]
            if t == C8:
                return int.from_bytes(p.d[o:o + 8], 'little')
            if t == O8:
                return p.o[o]
        return self._slow(a, 8)

    def ld4(self, a):
        p = self.pages.get(a >> PS)
        o = a & PM
        if p is not None and o <= PSZ - 4:
            t = p.t[o:o + 4]
            if t == C4:
                return int.from_bytes(p.d[o:o + 4], 'little')
            if t == O4:
                return p.o[o]
        return self._slow(a, 4)

    def ld2(self, a):
        return self._slow(a, 2)

    def ld1(self, a):
        p = self.pages.get(a >> PS)
        o = a & PM
        if p is not None and p.t[o] == 1:
            return p.d[o]
        return self._slow(a, 1)

    def _slow(self, a, n):
        if n == 8:
            # pair of halves
            p = self.pages.get(a >> PS)
            if p is not None and (a & PM) <= PSZ - 8:
                o = a & PM
                t = p.t[o:o + 8]
                if t[0] == 3 or t[4] == 3:
                    return Pair(self.ld4(a), self.ld4(a + 4))
        ts = bytearray()
        bs = bytearray()
        for i in range(a, a + n):
            p = self.pages.get(i >> PS)
            if p is None:
                raise MemError('read of %d bytes at unmapped address %#x' % (n, a))
            ts.append(p.t[i & PM])
            bs.append(p.d[i & PM])
        if 5 in ts:
            raise MemError('read of %d bytes at %#x outside any object' % (n, a))
        if all(t == 1 for t in ts):
            return int.from_bytes(bs, 'little')
        if 0 in ts:
            if n > 1 and 1 in ts and not (2 in ts or 3 in ts or 4 in ts):
                return Partial(bs, ts)
            return UNDEF
        # part of an object
        b = a
        while True:
            p = self.pages.get(b >> PS)
            if p.t[b & PM] in (2, 3):
                v = p.o[b & PM]
                sz = 8 if p.t[b & PM] == 2 else 4
                break
            b -= 1
        if v.__class__ is T.Q and sz == 8 and a + n <= b + 8:
            return (T.q2bits(v) >> (8 * (a - b))) & ((1 << (8 * n)) - 1)
        if v.__class__ is F32 and v.v.__class__ is T.Q and a + n <= b + 4:
            return (T.q2bits32(v.v) >> (8 * (a - b))) & ((1 << (8 * n)) - 1)
        if isinstance(v, T.Special):
            import struct
            bits = struct.unpack('<Q', struct.pack('<d', v))[0]
            return (bits >> (8 * (a - b))) & ((1 << (8 * n)) - 1)
        if hasattr(v, 'subobj') and a == b:
            return v.subobj(n)
        raise MemError('partial read of a symbolic value at %#x (%d of %d bytes)' % (a, n, sz))

    def st8(self, a, v):
        pn = a >> PS
        p = self.pages.get(pn)
        o = a & PM
        if p is None or o > PSZ - 8:
            return self._sts(a, v, 8)
        if p.own is not self.tok:
            p = self.wpage(pn)
        t = p.t[o:o + 8]
        if v.__class__ is int:
            if t == C8:
                p.d[o:o + 8] = (v & M64).to_bytes(8, 'little')
                return
            if 5 in t:
                raise MemError('write of 8 bytes at %#x outside any object' % a)
            if t == O8:
                del p.o[o]
            else:
                self._drop(p, o, 8)
            p.t[o:o + 8] = C8
            p.d[o:o + 8] = (v & M64).to_bytes(8, 'little')
        else:
            if t != O8:
                if 5 in t:
                    raise MemError('write of 8 bytes at %#x outside any object' % a)
                self._drop(p, o, 8)
            if v is UNDEF:
                p.o.pop(o, None)
                p.t[o:o + 8] = ZEROS[:8]
            elif v.__class__ is Partial:
                p.o.pop(o, None)
                p.t[o:o + 8] = ZEROS[:8]
                self._stp(a, v)
            elif v.__class__ is Pair:
                p.o.pop(o, None)
                p.t[o:o + 8] = ZEROS[:8]
                self.st4(a, v.lo)
                self.st4(a + 4, v.hi)
            elif v.__class__ is F32:
                p.o.pop(o, None)
                p.t[o:o + 8] = ZEROS[:8]
                self.st4(a, v)
                self.st4(a + 4, 0)
            else:
                p.t[o:o + 8] = O8
                p.o[o] = v

    def st4(self, a, v):
        pn = a >> PS
        p = self.pages.get(pn)
        o = a & PM
        if p is None or o > PSZ - 4:
            return self._sts(a, v, 4)
        if p.own is not self.tok:
            p = self.wpage(pn)
        t = p.t[o:o + 4]
        if 5 in t:
            raise MemError('write of 4 bytes at %#x outside any object' % a)
        if t != C4:
            self._drop(p, o, 4)
        if v.__class__ is int:
            p.t[o:o + 4] = C4
            p.d[o:o + 4] = (v & 0xffffffff).to_bytes(4, 'little')
        elif v is UNDEF:
            p.t[o:o + 4] = b'\0\0\0\0'
        elif v.__class__ is Partial:
            p.t[o:o + 4] = b'\0\0\0\0'
            self._stp(a, v, 4)
        elif v.__class__ is Pair:
            p.t[o:o + 4] = b'\0\0\0\0'
            self.st4(a, v.lo)
        else:
            if v.__class__ is T.Q or v.__class__ is T.Node:
                raise MemError('half of a double stored')
            p.t[o:o + 4] = O4
            p.o[o] = v

    def _stp(self, a, v, n=8):
        for i in range(min(n, len(v.d))):
            if v.t[i]:
                self.write_bytes(a + i, v.d[i:i + 1])

    def st1(self, a, v):
        self._sts(a, v, 1)

    def st2(self, a, v):
        self._sts(a, v, 2)

    def _sts(self, a, v, n):
        if v.__class__ is int:
            self.write_bytes(a, (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
        elif v is UNDEF:
            for i in range(a, a + n):
                p = self.wpage(i >> PS)
                if p.t[i & PM] == 5:
                    raise MemError('write at %#x outside any object' % i)
            self.set_range(a, n, 0)
        elif v.__class__ is Partial:
            self._sts(a, UNDEF, n)
            self._stp(a, v, n)
        elif v.__class__ is T.Q and n == 8:
            self.write_bytes(a, T.q2bits(v).to_bytes(8, 'little'))
        else:
            raise MemError('unaligned or narrow store of a symbolic value at %#x: %r' % (a, v))

    # -- heap
    def malloc(self, n):
        n = max(n, 1)
        base = self.brk + 64
        end = base + n
        top = (end + 64 + 63) & ~63
        self.map(self.brk, top - self.brk + PSZ, 5)
        self.set_range(base, n, 0)
        self.blocks[base] = n
        self.brk = top
        return base

    def free(self, a):
        if a == 0:
            return
        n = self.blocks.pop(a, None)
        if n is None:
            raise MemError('free of %#x which is not an allocated block' % a)
        self.set_range(a, n, 5)
