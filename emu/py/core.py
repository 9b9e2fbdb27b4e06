"""Objects, programs, memory and threads shared by the instruction interpreters."""
import re, struct

class Fault(Exception):
    """The program under test did something no correct program does (stray access, misaligned atomic, endless loop)."""
class Unmodelled(Exception):
    """The interpreter does not know an instruction: no verdict."""

class External(Unmodelled):
    """The code calls a function that is not part of the operation."""

# ---------------------------------------------------------------- object files
def ar_members(data):
    assert data[:8] == b'!<arch>\n'
    o, names = 8, b''
    while o + 60 <= len(data):
        h = data[o:o + 60]
        n, size = h[:16].decode().strip(), int(h[48:58])
        body = data[o + 60:o + 60 + size]
        if n == '//':
            names = body
        elif n != '/':
            if n.startswith('/'):
                k = int(n[1:])
                n = names[k:names.index(b'\n', k)].decode().rstrip('/')
            yield n.rstrip('/'), body
        o += 60 + size + (size & 1)

class Elf:
    def __init__(self, d):
        assert d[:4] == b'\x7fELF'
        self.b64 = d[4] == 2
        e = self.e = '<' if d[5] == 1 else '>'
        if self.b64:
            shoff, = struct.unpack_from(e + 'Q', d, 40)
            esz, n, strx = struct.unpack_from(e + 'HHH', d, 58)
        else:
            shoff, = struct.unpack_from(e + 'I', d, 32)
            esz, n, strx = struct.unpack_from(e + 'HHH', d, 46)
        self.machine, = struct.unpack_from(e + 'H', d, 18)
        S = []
        for i in range(n):
            if self.b64:
                nm, ty, fl, ad, off, sz, ln, inf, al, es = struct.unpack_from(e + 'IIQQQQIIQQ', d, shoff + i * esz)
            else:
                nm, ty, fl, ad, off, sz, ln, inf, al, es = struct.unpack_from(e + '10I', d, shoff + i * esz)
            if i == 0:
                if n == 0:
                    n = sz
            S.append(dict(nm=nm, type=ty, flags=fl, off=off, size=sz, link=ln, info=inf, esize=es, data=b'' if ty == 8 else d[off:off + sz]))
        def cstr(b, o):
            return b[o:b.index(b'\0', o)].decode()
        for s in S:
            s['name'] = cstr(S[strx]['data'], s['nm'])
        self.sections = S
        self.symbols = []
        for s in S:
            if s['type'] == 2:
                st = S[s['link']]['data']
                for o in range(0, s['size'], s['esize']):
                    if self.b64:
                        nm, inf, oth, shn, val, sz = struct.unpack_from(e + 'IBBHQQ', s['data'], o)
                    else:
                        nm, val, sz, inf, oth, shn = struct.unpack_from(e + 'IIIBBH', s['data'], o)
                    self.symbols.append(dict(name=cstr(st, nm), value=val, size=sz, shndx=shn, type=inf & 15))
        self.relocs = {}
        for s in S:
            if s['type'] in (4, 9):
                out = []
                for o in range(0, s['size'], s['esize']):
                    f = e + (('QQq' if self.b64 else 'IIi') if s['type'] == 4 else ('QQ' if self.b64 else 'II'))
                    x = struct.unpack_from(f, s['data'], o)
                    info = x[1]
                    if self.b64 and self.machine == 8 and e == '<':  # MIPS64 little endian packs r_info differently
                        sym, ty = info & 0xffffffff, info >> 56
                    else:
                        sym, ty = (info >> 32, info & 0xffffffff) if self.b64 else (info >> 8, info & 255)
                    out.append((x[0], ty, sym, x[2] if len(x) > 2 else 0))
                self.relocs.setdefault(s['info'], []).extend(out)

def functions(elf):
    """name -> (section name, offset, bytes of the section)"""
    out = {}
    S = elf.sections
    opd = next((i for i, s in enumerate(S) if s['name'] == '.opd'), None)
    for y in elf.symbols:
        if not y['name'] or y['shndx'] in (0,) or y['shndx'] >= len(S):
            continue
        sh, val = y['shndx'], y['value']
        if sh == opd:
            r = [r for r in elf.relocs[opd] if r[0] == val]
            t = elf.symbols[r[0][2]]
            sh, val = t['shndx'], t['value'] + r[0][3]
        if S[sh]['flags'] & 4:
            out[y['name'].lstrip('.')] = (S[sh]['name'], val, S[sh]['data'])
    return out

# ---------------------------------------------------------------- disassembly text
LINE = re.compile(r'^\s*([0-9a-f]+):\s+(.*)$')
def parse_dis(text):
    """section name -> list of (address, text, [relocation texts])"""
    out, cur = {}, None
    for l in text.splitlines():
        if l.startswith('Disassembly of section '):
            cur = out.setdefault(l[23:-1], [])
        elif cur is not None:
            m = LINE.match(l)
            if not m:
                continue
            if re.match(r'R_\w+', m.group(2)):
                cur[-1][2].append((int(m.group(1), 16), m.group(2)))
            else:
                cur.append((int(m.group(1), 16), m.group(2).strip(), []))
    return out

# ---------------------------------------------------------------- memory
class Region:
    __slots__ = ('lo', 'hi', 'b', 'name', 'w')
    def __init__(self, lo, b, name, w=True):
        self.lo, self.b, self.name, self.w = lo, bytearray(b), name, w
        self.hi = lo + len(b)

class Mem:
    def __init__(self, end, gran=16):
        self.end, self.regions, self.threads, self.gran, self.log = end, [], [], gran, None
    def add(self, lo, b, name, w=True):
        r = Region(lo, b, name, w)
        self.regions.append(r)
        return r
    def find(self, t, a, n, what):
        for r in self.regions:
            if r.lo <= a and a + n <= r.hi:
                if what == 'W' and not r.w:
                    raise Fault(f'write of {n} bytes at {r.name}+{a - r.lo:#x}, which is read-only')
                return r
        for r in self.regions:
            if a < r.hi + 64 and r.lo < a + n + 64:
                raise Fault(f'{"write" if what == "W" else "read"} of {n} bytes at {r.name}{a - r.lo:+#x}, outside its {len(r.b)} bytes')
        raise Fault(f'access of {n} bytes at unmapped address {a:#x}')
    def rd(self, t, a, n, at=None, tag=None):
        if a % n and n <= 16 and n & (n - 1) == 0:
            raise Fault(f'misaligned read of {n} bytes at {a:#x}')
        r = self.find(t, a, n, 'R')
        if self.log is not None and r.name == 'cell':
            self.log.append((t.tid, 'R', a, n))
        return int.from_bytes(r.b[a - r.lo:a - r.lo + n], self.end)
    def wr(self, t, a, n, v, tag=None):
        if a % n and n <= 16 and n & (n - 1) == 0:
            raise Fault(f'misaligned write of {n} bytes at {a:#x}')
        r = self.find(t, a, n, 'W')
        if self.log is not None and r.name == 'cell':
            self.log.append((t.tid, 'W', a, n))
        r.b[a - r.lo:a - r.lo + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, self.end)
        self.touched(t, a, n)
        if t.res is not None and t.strict:
            t.res = None    # a store between load-linked and store-conditional may lose the reservation
    def touched(self, t, a, n):
        g = self.gran
        for o in self.threads:
            if o is not t and o.res is not None and o.res[0] // g <= (a + n - 1) // g and a // g <= (o.res[0] + o.res[1] - 1) // g:
                o.res = None
    def ll(self, t, a, n, tag=None, half=None):
        """half = (offset, bytes): reads only that part, under the reservation of the whole"""
        if half:
            v = self.rd(t, a + half[0], half[1], tag=tag)
            if half[0] == 0:
                t.res = (a, n)
            return v
        v = self.rd(t, a, n, tag=tag)
        t.res = (a, n)
        return v
    def sc(self, t, a, n, v, tag=None):
        ok = t.res == (a, n)
        t.res = None
        self.find(t, a, n, 'W')
        if ok and t.scfail:
            ok = not t.scfail.pop(0)
        if ok:
            self.wr(t, a, n, v)
        return ok
    def rmw(self, t, a, n, f, tag=None):
        """One indivisible read-modify-write; f(old) gives the new value or None. Returns old."""
        o = self.rd(t, a, n)
        v = f(o)
        if v is not None:
            self.wr(t, a, n, v)
        return o
    def rdm(self, t, a, n):
        """n bytes, a word at a time (not one access)"""
        b = b''.join(self.rd(t, a + i, 4).to_bytes(4, self.end) for i in range(0, n, 4))
        return int.from_bytes(b, self.end)
    def fence(self, t, kind):
        pass

RET = 0x7ffffff0
class Thread:
    def __init__(self, tid, mem, arch, prog, pc, nreg):
        self.tid, self.mem, self.arch, self.prog, self.pc = tid, mem, arch, prog, pc
        self.r = [0] * nreg
        self.mi = 0
        self.npc = None
        self.res = None
        self.strict = False
        self.scfail = []
        self.done = False
        self.steps = 0
        self.x = {}
    def step(self):
        try:
            ops, nxt = self.prog[self.pc]
        except KeyError:
            raise Fault(f'jump to {self.pc:#x}')
        i = self.mi
        if i == 0:
            self.npc = nxt
        if ops.__class__ is str:
            raise Unmodelled(ops)
        ops[i](self)
        self.steps += 1
        i += 1
        if i >= len(ops):
            self.mi = 0
            self.pc = self.npc
            if self.npc == RET:
                self.done = True
        else:
            self.mi = i

def sx(v, b):
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v
def num(s):
    s = s.strip().lstrip('#$')
    return int(s, 0)
def split(s):
    """operands separated by commas outside brackets"""
    out, d, c = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(c.strip())
            c = ''
        else:
            c += ch
    if c.strip():
        out.append(c.strip())
    return out

class Base:
    end, bits, word, nreg, high, container, redzone, pool, interrupts, weak_may_fail, gran_min, objdump = 'little', 64, 8, 32, False, 4, 64, False, False, True, 0, []
    tso = False
    callee = []
    def rname(self, k):
        return f'r{k}'
    def at_return(self, t):
        return []
    def intr(self, t, on):
        pass
    def group(self, lines):
        return lines
    def extra(self):
        return {}
    def enabled(self, t):
        return True

class Delayed:
    """A branch with a delay slot: f(thread) gives the target, or None when not taken."""
    def __init__(self, f, annul=None):
        self.f, self.annul = f, annul
def with_slot(br, slot):
    """The operations of the branch and the instruction in its delay slot, as one instruction."""
    def first(t):
        t.x['tgt'] = br.f(t)
        t.x['skip'] = br.annul is not None and br.annul(t.x['tgt'] is not None)
    def wrap(o):
        return lambda t: None if t.x['skip'] else o(t)
    def last(t):
        if t.x['tgt'] is not None:
            t.npc = t.x['tgt']
    return [first] + [wrap(o) for o in slot] + [last]

def vcopy(store, v, ad, form, step=(0, 8)):
    """A vector register moved from or to memory: two 8-byte accesses. Only a value read by the same form can be written back."""
    def first(t):
        t.x['ea'] = ad(t)
        if store:
            if t.x.get((v, 0), (form,))[0] != form:
                raise Unmodelled(f'vector register {v} written by {form}')
            t.mem.wr(t, t.x['ea'] + step[0], 8, t.x.get((v, 0), (form, 0))[1])
        else:
            t.x[v, 0] = form, t.mem.rd(t, t.x['ea'] + step[0], 8)
    def second(t):
        if store:
            t.mem.wr(t, t.x['ea'] + step[1], 8, t.x.get((v, 1), (form, 0))[1])
        else:
            t.x[v, 1] = form, t.mem.rd(t, t.x['ea'] + step[1], 8)
    return [first, second]
