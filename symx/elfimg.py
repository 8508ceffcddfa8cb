"""Static ELF image: segments, symbols, disassembly (objdump)."""
import struct, subprocess, re


class Image:
    def __init__(self, path):
        self.path = path
        b = open(path, 'rb').read()
        assert b[:4] == b'\x7fELF' and b[4] == 2
        (phoff, shoff) = struct.unpack_from('<QQ', b, 0x20)
        (phes, phn, shes, shn, shstr) = struct.unpack_from('<HHHHH', b, 0x36)
        self.segs = []
        for i in range(phn):
            t, fl, off, va, pa, fsz, msz, al = struct.unpack_from('<IIQQQQQQ', b, phoff + i * phes)
            if t == 1:
                self.segs.append((va, b[off:off + fsz], msz, fl))
            if t == 7:
                self.tls = (va, fsz, msz)
        secs = []
        for i in range(shn):
            secs.append(struct.unpack_from('<IIQQQQIIQQ', b, shoff + i * shes))
        self.sym = {}
        self.symsize = {}
        self.funcs = []
        for s in secs:
            if s[1] == 2:
                off, size, link, ent = s[4], s[5], s[6], s[9]
                stroff = secs[link][4]
                for k in range(size // ent):
                    nm, info, oth, shx, val, sz = struct.unpack_from('<IBBHQQ', b, off + k * ent)
                    if not shx:
                        continue
                    e = b.index(b'\0', stroff + nm)
                    name = b[stroff + nm:e].decode()
                    if name and (info & 15) in (0, 1, 2, 5):
                        self.sym[name] = val
                        self.symsize[name] = sz
                        if (info & 15) == 2:
                            self.funcs.append((val, sz, name))
        self.funcs.sort()
        self.stubs = {}     # address -> external name
        for n, v in self.sym.items():
            if n.startswith('__vpstub.'):
                self.stubs[v] = n[9:]
        self._dis()

    def _dis(self):
        out = subprocess.run(['objdump', '-d', '-M', 'intel', '--no-show-raw-insn', '-w', self.path],
                             stdout=subprocess.PIPE, check=True).stdout.decode()
        ins = {}
        order = []
        for l in out.splitlines():
            # '  401000:\tpush   rbp'
            if len(l) > 4 and l[0] == ' ':
                a, _, t = l.partition(':\t')
                if t:
                    ad = int(a, 16)
                    ins[ad] = t
                    order.append(ad)
        self.ins = ins
        self.next = {}
        for x, y in zip(order, order[1:]):
            self.next[x] = y

    def func_at(self, a):
        import bisect
        i = bisect.bisect_right(self.funcs, (a, 1 << 62, '')) - 1
        if i >= 0:
            v, sz, n = self.funcs[i]
            return n, a - v
        return '?', a
