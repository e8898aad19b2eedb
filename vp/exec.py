"""Verification-condition generator: symbolic execution of LLVM IR, loops cut at inferred inductive invariants.

Every obligation produced here is discharged by an SMT solver for all inputs; see DESIGN.md for what is assumed.
"""
import time, itertools, bisect
from term import *
import term as tm
from solve import Solver, Stats

SLOT = 40                      # address-space slot per region (2^40 bytes)
MAXOBJ = 1 << 38
NB = 64

class Fork(Exception):
    def __init__(self, c): self.c = c
class PathEnd(Exception):
    pass
class NeedCut(Exception):
    def __init__(self, key): self.key = key
class Unsupported(Exception):
    pass
class Bounded(Exception):
    pass

class Region:
    __slots__ = ('id', 'base', 'size', 'csize', 'kind', 'align', 'name', 'live', 'cells', 'node', 'owner', 'esz', 'ro', 'undef')
    def clone(self, owner):
        r = Region()
        r.id = self.id; r.base = self.base; r.size = self.size; r.csize = self.csize; r.kind = self.kind; r.align = self.align
        r.name = self.name; r.live = self.live; r.node = self.node; r.esz = self.esz; r.ro = self.ro; r.undef = self.undef
        r.cells = dict(self.cells) if self.cells is not None else None
        r.owner = owner
        return r

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'loops', 'dst', 'allocas', 'site')
    def clone(self):
        f = Frame()
        f.fn = self.fn; f.regs = self.regs[:]; f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.loops = [l.clone() for l in self.loops]; f.dst = self.dst; f.allocas = self.allocas[:]; f.site = self.site
        return f

class LoopCtx:
    __slots__ = ('header', 'body', 'mode', 'count', 'sink')
    def clone(self):
        l = LoopCtx()
        l.header = self.header; l.body = self.body; l.mode = self.mode; l.count = self.count; l.sink = self.sink
        return l

_uid = itertools.count(1)

class State:
    __slots__ = ('uid', 'frames', 'mem', 'pc', 'facts', 'env', 'evm', 'expect', 'nd', 'hints', 'foralls', 'insts', 'nreg', 'bufs', 'pure', 'depth', 'trace', 'gh', 'reads', 'ended')
    def clone(self):
        s = State()
        s.uid = next(_uid); self.uid = next(_uid)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.pc = self.pc[:]; s.facts = dict(self.facts); s.env = self.env; s.evm = self.evm
        s.expect = self.expect; s.nd = self.nd[:]; s.hints = self.hints[:]; s.foralls = self.foralls[:]; s.insts = set(self.insts)
        s.nreg = self.nreg; s.bufs = self.bufs[:]; s.pure = self.pure; s.depth = self.depth; s.trace = self.trace; s.gh = dict(self.gh)
        s.reads = dict(self.reads); s.ended = self.ended
        return s

class Failure:
    def __init__(self, kind, label, loc, env, st, status):
        self.kind = kind; self.label = label; self.loc = loc; self.env = env; self.status = status
        self.nd = list(st.nd); self.bufs = list(st.bufs); self.pc = list(st.pc); self.havoc = st.gh.get('havoc', False)
        self.stack = [(f.fn.name, ) for f in st.frames]

class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        o = opts or {}
        self.stats = Stats()
        self.solver = Solver(self.stats, o.get('deadline'))
        self.deadline = o.get('deadline')
        self.policy = {}              # loop key -> 'cut'
        self.unroll = o.get('unroll', 12); self.cutnames = (); self.opqmul = False; self.replaced = {}; self.stubs = set()
        self.bounded = o.get('bounded', False)  # bounded mode: never cut, prune at limit
        self.buf_limit = o.get('buf_limit')     # bounded mode: max elements per buffer
        self.quiet = 0
        self.obl = {}                 # key -> [count, discharged, kind]
        self.fails = []
        self.unknowns = []
        self.covers = {}
        self.loops_cut = {}
        self.measures = {}
        self.pruned = 0
        self.paths = 0; self.ended_ok = 0; self.crashed_ok = 0
        self.cmps = None
        self.assumptions = set()
        self.calls = set()
        self.maxpaths = o.get('maxpaths', 20000)
        self.maxfails = o.get('maxfails', 3)
        self.faddr = {}
        self.addrf = {}
        for i, n in enumerate(mod.funcs):
            a = (1 << SLOT) * 1 + 16 * (i + 1)   # slot 1: functions
            self.faddr[n] = a; self.addrf[a] = n
        self.gslot = {}
        self.steps = 0
        self.verbose = o.get('verbose', 0)
        self.trig = 0
        self.exits = {}
        self.trig_max = 12 if self.bounded else 2

    # ------------------------------------------------------------ obligations
    def obligate(self, st, cond, kind, label, loc):
        """Prove cond under the path condition; afterwards it is assumed on this path."""
        if st.pure or self.quiet:
            if cond is FALSE: raise PathEnd()
            if st.pure != 'nosolve' or True:
                self.assume(st, cond)
            return
        key = (kind, label, loc)
        rec = self.obl.setdefault(key, [0, 0])
        rec[0] += 1
        if cond is TRUE or st.facts.get(cond) is True:
            rec[1] += 1; self.stats.by['syntactic'] += 1
            return
        nc = bnot(cond)
        if st.env is not None and evalt(cond, st.env, st.evm) == 0:
            r = 'sat'; env = st.env
            self.stats.modelhits += 1
        else:
            r = self.solver.check(st.pc, nc, want_model=True, hard=True); env = self.solver.lastmodel
        if r == 'unsat':
            rec[1] += 1
            self.assume(st, cond)
            return
        if r == 'sat':
            self.fails.append(Failure(kind, label, loc, env, st, 'refuted'))
            self.fails[-1].pc.append(nc)
            if self.verbose: print('FAIL', kind, label, loc)
            if len(self.fails) >= self.maxfails: raise StopIteration
        else:
            self.unknowns.append(Failure(kind, label, loc, None, st, 'unknown'))
            self.unknowns[-1].pc.append(nc)
            if self.verbose: print('UNKNOWN', kind, label, loc)
        if cond is FALSE: raise PathEnd()
        if r == 'sat' and self.solver.check(st.pc, cond) == 'unsat': raise PathEnd()
        self.assume(st, cond)

    def obl_flag(self, st, ok, kind, label, loc):
        rec = self.obl.setdefault((kind, label, loc), [0, 0])
        rec[0] += 1
        if ok: rec[1] += 1; return
        if any(f.kind == kind and f.loc == loc for f in self.unknowns): return
        self.unknowns.append(Failure(kind, label, loc, None, st, 'unknown'))
        if self.verbose: print('UNKNOWN', kind, label, loc)

    def assume(self, st, c):
        if c is TRUE: return
        if c is FALSE: raise PathEnd()
        f = st.facts.get(c)
        if f is True: return
        if f is False: raise PathEnd()
        if c.op == 'band':
            self.assume(st, c.a[0]); self.assume(st, c.a[1]); return
        if c.op == 'bnot' and c.a[0].op == 'bor':
            self.assume(st, bnot(c.a[0].a[0])); self.assume(st, bnot(c.a[0].a[1])); return
        st.pc.append(c)
        st.facts[c] = True; st.facts[bnot(c)] = False
        if st.env is not None:
            if evalt(c, st.env, st.evm) == 0:
                st.env = None; st.evm = None

    def decide(self, st, c):
        """True/False/None: is c decided by the path condition."""
        if c.op == 'c': return bool(c.a[0])
        f = st.facts.get(c)
        if f is not None: return f
        if c.op == 'bnot':
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if c.op == 'band':
            a = self.decide0(st, c.a[0]); b = self.decide0(st, c.a[1])
            if a is False or b is False: return False
            if a and b: return True
        if c.op == 'bor':
            a = self.decide0(st, c.a[0]); b = self.decide0(st, c.a[1])
            if a or b: return True
            if a is False and b is False: return False
        if st.pure == 'nosolve': return None
        self.ensure_env(st)
        if st.env is not None:
            v = evalt(c, st.env, st.evm)
            r = self.solver.check(st.pc, bnot(c) if v else c, want_model=False)
            if r == 'unsat':
                st.facts[c] = bool(v); st.facts[bnot(c)] = not v
                return bool(v)
            return None
        if self.solver.check(st.pc, c) == 'unsat':
            st.facts[c] = False; st.facts[bnot(c)] = True
            return False
        if self.solver.check(st.pc, bnot(c)) == 'unsat':
            st.facts[c] = True; st.facts[bnot(c)] = False
            return True
        return None

    def decide0(self, st, c):
        if c.op == 'c': return bool(c.a[0])
        return st.facts.get(c)

    def ensure_env(self, st):
        if st.env is None and st.pure != 'nosolve':
            r = self.solver.check(st.pc, TRUE, want_model=True)
            if r == 'unsat': raise PathEnd()
            if r == 'sat':
                st.env = self.solver.lastmodel; st.evm = {}

    def branch(self, st, c):
        """Fork on c. Returns list of (bool, state)."""
        if c.op == 'c': return [(bool(c.a[0]), st)]
        f = st.facts.get(c)
        if f is not None: return [(f, st)]
        if st.pure == 'nosolve':
            s2 = st.clone(); out = []
            for v, s, cc in ((True, st, c), (False, s2, bnot(c))):
                try: self.assume(s, cc); out.append((v, s))
                except PathEnd: pass
            return out
        self.ensure_env(st)
        if st.env is not None:
            v = evalt(c, st.env, st.evm)
            other = bnot(c) if v else c
            r = self.solver.check(st.pc, other, want_model=True)
            if r == 'unsat':
                st.facts[c] = bool(v); st.facts[bnot(c)] = not v
                return [(bool(v), st)]
            env2 = self.solver.lastmodel
            s2 = st.clone()
            self.assume(st, c if v else bnot(c))
            s2.env = env2; s2.evm = {} if env2 is not None else None
            s2.pc.append(other); s2.facts[other] = True; s2.facts[bnot(other)] = False
            self.addfacts(s2, other)
            return [(bool(v), st), (not v, s2)]
        s2 = st.clone()
        out = []
        for v, s, cc in ((True, st, c), (False, s2, bnot(c))):
            try:
                if self.solver.check(s.pc, cc) == 'unsat': continue
                self.assume(s, cc); out.append((v, s))
            except PathEnd: pass
        return out

    def addfacts(self, st, c):
        if c.op == 'band':
            for x in c.a:
                st.facts[x] = True; st.facts[bnot(x)] = False; self.addfacts(st, x)
        elif c.op == 'bnot' and c.a[0].op == 'bor':
            for x in c.a[0].a:
                x = bnot(x)
                st.facts[x] = True; st.facts[bnot(x)] = False; self.addfacts(st, x)

    # ------------------------------------------------------------ memory
    def new_region(self, st, size, kind, align, name, esz=1, base_kind='undef'):
        rid = st.nreg; st.nreg += 1
        r = Region()
        r.id = rid; r.kind = kind; r.align = align; r.name = '%s#%d' % (name, rid)
        r.base = (rid << SLOT) + align        # aligned to exactly `align` (not more)
        if align >= 4096 * 16: r.base = (rid << SLOT) + align
        r.size = size; r.csize = size.a[0] if size.op == 'c' else None
        r.live = True; r.owner = st.uid; r.esz = esz; r.ro = False; r.undef = None
        if r.csize is not None and r.csize <= 8192 and base_kind != 'uf':
            r.cells = {}; r.node = None
            r.undef = base_kind
        else:
            r.cells = None
            r.node = (base_kind, r.name, esz)
        st.mem[rid] = r
        return r

    def wr(self, st, r):
        if r.owner != st.uid:
            r = r.clone(st.uid); st.mem[r.id] = r
        return r

    def global_addr(self, st, name):
        sl = self.gslot.get(name)
        if sl is None:
            sl = 16 + len(self.gslot); self.gslot[name] = sl
        G = self.mod.globs[name]
        return (sl << SLOT) + max(G.align, G.ty.align, 16)

    def materialize_global(self, st, sl):
        for n, s in self.gslot.items():
            if s == sl: break
        else: return None
        G = self.mod.globs[n]
        r = Region(); r.id = sl; r.kind = 'glob'; r.align = max(G.align, G.ty.align, 16); r.name = n
        r.base = (sl << SLOT) + r.align
        r.size = const(G.ty.size, 64); r.csize = G.ty.size
        r.live = True; r.owner = st.uid; r.esz = 1; r.ro = G.const; r.cells = {}; r.node = None; r.undef = 'undef'
        init = self.mod.ginit(G)
        if init is not None: self.init_cells(st, r, 0, init, G.ty)
        else:
            if not G.const: self.assumptions.add('external global %s: arbitrary contents' % n)
        st.mem[sl] = r
        return r

    def init_cells(self, st, r, off, c, ty):
        k = c[0]
        if k == 'undef': return
        if k == 'zero':
            if ty.size <= 16: self.cell_put(r, off, ty.size, const(0, 8 * ty.size))
            else:
                o = off
                while o < off + ty.size:
                    n = min(8, off + ty.size - o)
                    r.cells[o] = (n, const(0, 8 * n)); o += n
            return
        if k == 'bytes':
            for i, b in enumerate(c[1]): r.cells[off + i] = (1, const(b, 8))
            return
        if k == 'agg':
            t = c[2]
            if t.kind == 'struct':
                for e, o, et in zip(c[1], t.offs, t.elems): self.init_cells(st, r, off + o, e, et)
            else:
                for i, e in enumerate(c[1]): self.init_cells(st, r, off + i * t.elems.size, e, t.elems)
            return
        v = self.constval(st, c)
        n = ty.store or 8
        r.cells[off] = (n, zext(v, 8 * n))

    def cell_put(self, r, off, n, t):
        cells = r.cells
        # remove overlaps
        for o in range(off - 15, off + n):
            c = cells.get(o)
            if c is None: continue
            cn, ct = c
            if o + cn <= off or o >= off + n: continue
            if o >= off and o + cn <= off + n:
                if o != off: del cells[o]
                continue
            del cells[o]
            if o < off:
                cells[o] = (off - o, extract(ct, 8 * (off - o) - 1, 0))
            if o + cn > off + n:
                k = off + n - o
                cells[off + n] = (cn - k, extract(ct, 8 * cn - 1, 8 * k))
        cells[off] = (n, t)

    def cell_get(self, st, r, off, n):
        c = r.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        # assemble
        parts = []
        o = off
        while o < off + n:
            found = None
            for q in range(o, o - 16, -1):
                c = r.cells.get(q)
                if c is not None:
                    if q + c[0] > o: found = (q, c)
                    break
            if found is None:
                # undefined bytes until next cell
                e = o + 1
                while e < off + n and e not in r.cells: e += 1
                k = e - o
                if r.undef == 'zero': t = const(0, 8 * k)
                else: t = fresh('undef', 8 * k)
                r2 = self.wr(st, r)
                r2.cells[o] = (k, t)
                r = r2
                parts.append(t); o = e
            else:
                q, (cn, ct) = found
                lo = o - q; hi = min(cn, off + n - q)
                parts.append(extract(ct, 8 * hi - 1, 8 * lo)); o = q + hi
        t = parts[0]
        for p in parts[1:]: t = concat(p, t)
        return t

    def to_array(self, st, r):
        if r.cells is None: return r
        r = self.wr(st, r)
        r.node = ('cells', dict(r.cells), r.csize, r.undef, r.name)
        r.cells = None
        return r

    def node_of(self, r):
        if r.cells is None: return r.node
        return ('cells', dict(r.cells), r.csize, r.undef, r.name)

    def uf_read(self, name, esz, off, n):
        lg = esz.bit_length() - 1
        if n == esz:
            if lg == 0: return uf(name, (off,), 8)
            low = extract(off, lg - 1, 0)
            idx = extract(off, 63, lg)
            if low.op == 'c' and low.a[0] == 0: return uf(name, (idx,), 8 * esz)
            parts = [self.uf_read(name, esz, addc(off, i), 1) for i in range(n)]
        elif n > esz:
            if n % esz == 0:
                parts = [self.uf_read(name, esz, addc(off, i), esz) for i in range(0, n, esz)]
            else:
                parts = [self.uf_read(name, esz, addc(off, i), 1) for i in range(n)]
        else:
            low = extract(off, lg - 1, 0); idx = extract(off, 63, lg)
            e = uf(name, (idx,), 8 * esz)
            if low.op == 'c':
                lo = low.a[0]
                if lo + n <= esz: return extract(e, 8 * (lo + n) - 1, 8 * lo)
                parts = [self.uf_read(name, esz, addc(off, i), 1) for i in range(n)]
            elif n == 1:
                sh = zext(low, 8 * esz)
                return trunc(lshr(e, scale(sh, 8)), 8)
            else:
                parts = [self.uf_read(name, esz, addc(off, i), 1) for i in range(n)]
        t = parts[0]
        for p in parts[1:]: t = concat(p, t)
        return t

    def multiple(self, t, n):
        """syntactically a multiple of n (power of two)"""
        if n == 1: return True
        if n & (n - 1): return False
        lg = n.bit_length() - 1
        low = extract(t, lg - 1, 0)
        return low.op == 'c' and low.a[0] == 0

    def arr_read(self, st, node, off, n):
        while True:
            k = node[0]
            if k == 'w':
                _, woff, wn, val, nxt = node
                d = sub(off, woff)
                if d.op == 'c':
                    dv = sval(d)
                    if dv >= wn or dv + n <= 0: node = nxt; continue
                    if 0 <= dv and dv + n <= wn: return extract(val, 8 * (dv + n) - 1, 8 * dv)
                    return self.byte_read(st, node, off, n)
                if n == wn and self.multiple(d, n):
                    c = eq(d, const(0, 64))
                    v = self.decide(st, c)
                    if v is True: return val
                    if v is False: node = nxt; continue
                    return ite(c, val, self.arr_read(st, nxt, off, n))
                if n < wn and wn % n == 0 and self.multiple(d, n):
                    c = ult(d, const(wn, 64))
                    v = self.decide(st, c)
                    if v is False: node = nxt; continue
                    r = self.arr_read(st, nxt, off, n) if v is None else None
                    for i in range(0, wn, n):
                        e = extract(val, 8 * (i + n) - 1, 8 * i)
                        r = e if r is None else ite(eq(d, const(i, 64)), e, r)
                    return r
                if n == 1:
                    c = ult(d, const(wn, 64))
                    v = self.decide(st, c)
                    if v is False: node = nxt; continue
                    r = self.arr_read(st, nxt, off, 1) if v is None else None
                    for i in range(0, wn):
                        e = extract(val, 8 * i + 7, 8 * i)
                        r = e if r is None else ite(eq(d, const(i, 64)), e, r)
                    return r
                # disjoint?
                c = band(ule(const(wn, 64), d), ule(const(n, 64), neg(d)))
                if self.decide(st, c) is True: node = nxt; continue
                return self.byte_read(st, node, off, n)
            if k == 'copy':
                _, doff, ln, src, soff, nxt = node
                d = sub(off, doff)
                inb = ult(d, ln)
                v = self.decide(st, inb)
                if n > 1:
                    al = self.multiple(d, n) and self.multiple(ln, n)
                    if v is True:
                        ok = al or self.decide(st, ule(addc(d, n), ln)) is True
                        if ok: node = src; off = add(soff, d); continue
                        return self.byte_read(st, node, off, n)
                    if v is False:
                        ok = al or self.decide(st, ule(const(n, 64), neg(d))) is True
                        if ok: node = nxt; continue
                        return self.byte_read(st, node, off, n)
                    if not al: return self.byte_read(st, node, off, n)
                else:
                    if v is True: node = src; off = add(soff, d); continue
                    if v is False: node = nxt; continue
                a = self.arr_read(st, src, add(soff, d), n)
                b = self.arr_read(st, nxt, off, n)
                return ite(inb, a, b)
            if k == 'set':
                _, doff, ln, byte, nxt = node
                d = sub(off, doff)
                inb = ult(d, ln)
                v = self.decide(st, inb)
                if n > 1 and not (self.multiple(d, n) and self.multiple(ln, n)):
                    if v is True and self.decide(st, ule(addc(d, n), ln)) is True: pass
                    elif v is False and self.decide(st, ule(const(n, 64), neg(d))) is True: pass
                    else: return self.byte_read(st, node, off, n)
                if v is False: node = nxt; continue
                t = byte
                for _ in range(n - 1): t = concat(byte, t)
                if v is True: return t
                return ite(inb, t, self.arr_read(st, nxt, off, n))
            if k == 'undef' or k == 'uf':
                return self.uf_read(node[1], node[2], off, n)
            if k == 'zero':
                return const(0, 8 * n)
            if k == 'hav':
                _, name, esz, facts, old = node
                t = self.uf_read(name, esz, off, n)
                key = (name, off, n)
                if key not in st.insts:
                    st.insts.add(key)
                    for f in facts: self.universal(st, f(st, off, n, t))
                return t
            if k == 'cells':
                _, cells, csize, undef, name = node
                if off.op == 'c':
                    tmp = Region(); tmp.cells = cells; tmp.undef = undef; tmp.owner = st.uid; tmp.id = -1
                    return self.cells_get_ro(st, tmp, off.a[0], n, name)
                step = 1
                for s in (8, 4, 2):
                    low = extract(off, s.bit_length() - 2, 0)
                    if low.op == 'c': step = s; start = low.a[0]; break
                else: start = 0
                r = None
                tmp = Region(); tmp.cells = cells; tmp.undef = undef; tmp.owner = st.uid; tmp.id = -1
                lo, hi = rng(off)
                cnt = 0
                for o in range(start, csize - n + 1, step):
                    if o < lo or o > hi: continue
                    e = self.cells_get_ro(st, tmp, o, n, name)
                    r = e if r is None else ite(eq(off, const(o, 64)), e, r)
                    cnt += 1
                    if cnt > 2048: raise Unsupported('symbolic index into large constant object')
                if r is None: raise PathEnd()
                return r
            raise Unsupported('node ' + str(k))

    def cells_get_ro(self, st, tmp, off, n, name):
        c = tmp.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        parts = []
        o = off
        while o < off + n:
            found = None
            for q in range(o, o - 16, -1):
                c = tmp.cells.get(q)
                if c is not None:
                    if q + c[0] > o: found = (q, c)
                    break
            if found is None:
                t = const(0, 8) if tmp.undef == 'zero' else uf(name + '!u', (const(o, 64),), 8)
                parts.append(t); o += 1
            else:
                q, (cn, ct) = found
                lo = o - q; hi = min(cn, off + n - q)
                parts.append(extract(ct, 8 * hi - 1, 8 * lo)); o = q + hi
        t = parts[0]
        for p in parts[1:]: t = concat(p, t)
        return t

    def byte_read(self, st, node, off, n):
        t = self.arr_read(st, node, off, 1)
        for i in range(1, n):
            t = concat(self.arr_read(st, node, addc(off, i), 1), t)
        return t

    def resolve(self, st, addr):
        """-> (region, offset term); raises Fork to split pointer ites."""
        if addr.op == 'c':
            v = addr.a[0]
        elif addr.op == 'lin':
            v = addr.a[0]
            for at, k in addr.a[1]:
                if at.op == 'ite' and self.ptr_like(at):
                    if k == 1:
                        self.split_ite(st, at)
                    return None, None
        elif addr.op == 'ite':
            self.split_ite(st, addr)
        else:
            v = 0
        sl = (v + (1 << (SLOT - 1))) >> SLOT
        if v >> 63: sl = 0
        r = st.mem.get(sl)
        if r is None and sl >= 16: r = self.materialize_global(st, sl)
        if r is None:
            # pointer arithmetic hidden in an opaque term: try to pin it with the model
            return None, addr
        return r, sub(addr, const(r.base, 64))

    def ptr_like(self, t):
        lo, hi = rng(t)
        return hi >= (1 << (SLOT - 1)) and self.leafptr(t, 0)

    def leafptr(self, t, d):
        if t.op == 'ite':
            return d > 8 or self.leafptr(t.a[1], d + 1) or self.leafptr(t.a[2], d + 1)
        if t.op == 'c': return (t.a[0] >> (SLOT - 1)) != 0 and not (t.a[0] >> 63)
        if t.op == 'lin': return (t.a[0] >> (SLOT - 1)) != 0 and not (t.a[0] >> 63) or any(self.leafptr(a, d + 1) for a, k in t.a[1])
        return False

    def split_ite(self, st, t):
        raise Fork(t.a[0])

    def simp(self, st, t):
        """Resolve ites whose condition is known on this path."""
        if t.op == 'ite':
            c = t.a[0]
            f = st.facts.get(c)
            if f is None and c.op in ('band', 'bor', 'bnot'): f = self.know(st, c)
            if f is None: return t
            return self.simp(st, t.a[1] if f else t.a[2])
        if t.op == 'lin':
            ch = False
            r = const(t.a[0], t.w)
            for at, k in t.a[1]:
                if at.op == 'ite':
                    x = self.simp(st, at)
                    if x is not at: ch = True
                    r = add(r, scale(x, k))
                else: r = add(r, scale(at, k))
            return r if ch else t
        return t

    def deepsimp(self, st, t, memo=None):
        """Resolve every ite condition decided by the path condition."""
        if memo is None: memo = {}
        r = memo.get(t)
        if r is not None: return r
        op = t.op
        if op in ('c', 'v', 'uf'): r = t
        elif op == 'lin':
            r = const(t.a[0], t.w)
            for at, k in t.a[1]: r = add(r, scale(self.deepsimp(st, at, memo), k))
        elif op == 'ext': r = extract(self.deepsimp(st, t.a[0], memo), t.a[1], t.a[2])
        elif op == 'ite':
            c = self.deepsimp(st, t.a[0], memo)
            v = self.decide(st, c)
            if v is None: r = ite(c, self.deepsimp(st, t.a[1], memo), self.deepsimp(st, t.a[2], memo))
            else: r = self.deepsimp(st, t.a[1] if v else t.a[2], memo)
        else: r = tm.rebuild(op, t, [self.deepsimp(st, x, memo) for x in t.a])
        memo[t] = r
        return r

    def know(self, st, c):
        if c.op == 'c': return bool(c.a[0])
        f = st.facts.get(c)
        if f is not None: return f
        if c.op == 'bnot':
            r = self.know(st, c.a[0]); return None if r is None else not r
        if c.op == 'band':
            a = self.know(st, c.a[0]); b = self.know(st, c.a[1])
            if a is False or b is False: return False
            if a and b: return True
        if c.op == 'bor':
            a = self.know(st, c.a[0]); b = self.know(st, c.a[1])
            if a or b: return True
            if a is False and b is False: return False
        return None

    def access(self, st, addr, n, I, what, align=1, nt=None):
        """Bounds obligation for an access of n bytes (or nt term); returns (region, off)."""
        addr = self.simp(st, addr)
        loc = I.loc if I else None
        r, off = self.resolve(st, addr)
        if r is None:
            if st.pure or self.quiet:
                raise PathEnd()
            self.obligate(st, FALSE, 'mem', '%s through null/invalid pointer' % what, loc)
            raise PathEnd()
        if not r.live:
            self.obligate(st, FALSE, 'mem', '%s after free/scope end' % what, loc)
            raise PathEnd()
        if what == 'store' and r.ro:
            self.obligate(st, FALSE, 'mem', 'store to constant', loc)
            raise PathEnd()
        if nt is None:
            if off.op == 'c' and r.csize is not None:
                o = off.a[0]
                if o + n > r.csize:
                    self.obligate(st, FALSE, 'mem', '%s out of bounds' % what, loc)
                    raise PathEnd()
                if not (st.pure or self.quiet): self.obl.setdefault(('mem', what + ' in bounds', loc), [0, 0]); self.obl[('mem', what + ' in bounds', loc)][0] += 1; self.obl[('mem', what + ' in bounds', loc)][1] += 1; self.stats.by['syntactic'] += 1
            else:
                cond = band(ule(const(n, 64), r.size), ule(off, sub(r.size, const(n, 64))))
                self.obligate(st, cond, 'mem', what + ' in bounds', loc)
        else:
            cond = band(ule(nt, r.size), ule(off, sub(r.size, nt)))
            self.obligate(st, cond, 'mem', what + ' in bounds', loc)
        if align > 1:
            a = add(off, const(r.base, 64))
            if r.kind == 'glob' or (r.kind == 'stack'): pass
            elif not self.multiple(a, align):
                low = extract(a, align.bit_length() - 2, 0)
                self.obligate(st, eq(low, const(0, low.w)), 'mem', what + ' aligned', loc)
        return r, off

    def load(self, st, addr, n, I, align=1):
        r, off = self.access(st, addr, n, I, 'load', align)
        if r.cells is not None:
            if off.op == 'c': return self.cell_get(st, r, off.a[0], n)
            return self.arr_read(st, self.node_of(r), off, n)
        self.trigger(st, r, off, n)
        return self.arr_read(st, r.node, off, n)

    def trigger(self, st, r, off, n, force=False):
        """Instantiate universally quantified assumptions at this read."""
        rd = st.reads.get(r.id, ())
        if (off, n) not in rd:
            st.reads[r.id] = rd + ((off, n),)
        if not st.foralls: return
        for fa in st.foralls:
            if fa[0] == r.id: self.inst(st, fa, off, n, force)

    def inst(self, st, fa, off, n, force=False):
        key = (fa[2], off, n)
        if key in st.insts and not (force and ('limited',) + key in st.insts): return
        st.insts.add(key)
        if self.trig >= self.trig_max: st.insts.add(('limited',) + key); return
        st.insts.discard(('limited',) + key)
        self.trig += 1
        try:
            c = fa[1](st, off, n)
        finally:
            self.trig -= 1
        if c is not None: self.universal(st, c)

    def universal(self, st, c):
        if st.pure == 'nosolve' and c is not FALSE:
            # holds whatever path the specification takes: eval_pure assumes it in the state it evaluates in, not in the result
            n0 = len(st.pc)
            self.assume(st, c)
            self.pure_facts.extend(st.pc[n0:])
            del st.pc[n0:]
            return
        self.assume(st, c)

    def add_forall(self, st, rid, fn):
        fa = (rid, fn, next(_uid))
        st.foralls.append(fa)
        for off, n in st.reads.get(rid, ()):
            self.inst(st, fa, off, n)

    def store(self, st, addr, n, val, I, align=1):
        r, off = self.access(st, addr, n, I, 'store', align)
        if r.cells is not None and off.op != 'c':
            r = self.to_array(st, r)
        r = self.wr(st, r)
        if r.cells is not None: self.cell_put(r, off.a[0], n, val) if n <= 16 else self.put_big(r, off.a[0], n, val)
        else: r.node = ('w', off, n, val, r.node)

    def put_big(self, r, off, n, val):
        o = 0
        while o < n:
            k = min(8, n - o)
            self.cell_put(r, off + o, k, extract(val, 8 * (o + k) - 1, 8 * o)); o += k

    def memcopy(self, st, dst, src, ln, I, what):
        if ln.op != 'c':
            z = eq(ln, const(0, 64))
            k = self.know(st, z)
            if k is None: raise Fork(z)
            if k: return
        elif ln.a[0] == 0: return
        n = ln.a[0] if ln.op == 'c' else None
        sr, so = self.access(st, src, n, I, 'load', nt=None if n is not None else ln)
        dr, do = self.access(st, dst, n, I, 'store', nt=None if n is not None else ln)
        if what == 'memcpy' and sr.id == dr.id:
            d = sub(do, so)
            cond = disj([eq(d, const(0, 64)), band(ule(ln, d), ule(ln, neg(d)))])
            self.obligate(st, cond, 'mem', 'memcpy regions do not overlap', I.loc)
        if n is not None and dr.cells is not None and do.op == 'c':
            if sr.cells is not None and so.op == 'c' and n <= 4096:
                # cell-wise copy
                base = so.a[0]; d0 = do.a[0]
                out = []
                o = base
                while o < base + n:
                    c = None
                    for q in range(o, o - 16, -1):
                        c = sr.cells.get(q)
                        if c is not None:
                            if q + c[0] <= o: c = None
                            break
                    if c is None:
                        e = o + 1
                        while e < base + n and e not in sr.cells: e += 1
                        if sr.undef == 'zero':
                            oo = o
                            while oo < e:
                                kk = min(8, e - oo); out.append((oo - base, kk, const(0, 8 * kk))); oo += kk
                        else:
                            out.append((o - base, e - o, None))
                        o = e
                    else:
                        lo = o - q; hi = min(c[0], base + n - q)
                        out.append((o - base, hi - lo, extract(c[1], 8 * hi - 1, 8 * lo))); o = q + hi
                dr = self.wr(st, dr)
                for oo, kk, t in out:
                    if t is None:
                        # undefined bytes: materialise so that source and copy agree
                        pos = 0
                        while pos < kk:
                            k8 = min(8, kk - pos)
                            sv = self.cell_get(st, st.mem[sr.id], base + oo + pos, k8)
                            dr = self.wr(st, st.mem[dr.id])
                            self.cell_put(dr, d0 + oo + pos, k8, sv); pos += k8
                    else: self.cell_put(dr, d0 + oo, kk, t)
                return
            if n <= 256:
                node = self.node_of(sr)
                esz = sr.esz if sr.esz <= 8 else 8
                vals = []
                o = 0
                while o < n:
                    k = min(esz if sr.cells is None else 8, n - o)
                    while k & (k - 1): k &= k - 1
                    self.trigger(st, sr, addc(so, o), k)
                    vals.append((o, k, self.arr_read(st, node, addc(so, o), k))); o += k
                dr = self.wr(st, st.mem[dr.id])
                for o, k, t in vals: self.cell_put(dr, do.a[0] + o, k, t)
                return
        node = self.node_of(sr)
        dr = self.to_array(st, dr)
        dr = self.wr(st, dr)
        dr.node = ('copy', do, ln, node, so, dr.node)

    def memfill(self, st, dst, byte, ln, I):
        if ln.op != 'c':
            z = eq(ln, const(0, 64))
            k = self.know(st, z)
            if k is None: raise Fork(z)
            if k: return
        elif ln.a[0] == 0: return
        n = ln.a[0] if ln.op == 'c' else None
        dr, do = self.access(st, dst, n, I, 'store', nt=None if n is not None else ln)
        if n is not None and n <= 4096 and dr.cells is not None and do.op == 'c':
            dr = self.wr(st, dr)
            o = 0
            while o < n:
                k = min(8, n - o)
                t = byte
                for _ in range(k - 1): t = concat(byte, t)
                self.cell_put(dr, do.a[0] + o, k, t); o += k
            return
        dr = self.wr(st, self.to_array(st, dr))
        dr.node = ('set', do, ln, byte, dr.node)

    # ------------------------------------------------------------ values
    def constval(self, st, c):
        k = c[0]
        if k == 'int':
            return const(c[1], c[2]) if c[2] != 1 else boolc(c[1])
        if k == 'glob': return const(self.global_addr(st, c[1]), 64)
        if k == 'func': return const(self.faddr[c[1]], 64)
        if k == 'undef': return self.undefval(c[1])
        if k == 'zero': return self.zeroval(c[1])
        if k == 'agg': return tuple(self.constval(st, x) for x in c[1])
        if k == 'bytes': return tuple(const(b, 8) for b in c[1])
        if k == 'expr':
            op = c[1]; a = [self.constval(st, x) for x in c[2]]
            if op == 'add': return add(a[0], a[1])
            if op == 'sub': return sub(a[0], a[1])
            if op in ('inttoptr', 'ptrtoint', 'bitcast'):
                w = c[3].w
                return trunc(a[0], w) if w < a[0].w else zext(a[0], w)
            if op == 'trunc': return trunc(a[0], c[3].w)
            if op.startswith('icmp.'): return self.icmp(op[5:], a[0], a[1])
        raise Unsupported('constant %r' % (c,))

    def undefval(self, ty):
        if ty.kind in ('int', 'ptr', 'float'):
            return fresh('undef', 0 if ty.w == 1 else ty.w)
        if ty.kind == 'struct': return tuple(self.undefval(e) for e in ty.elems)
        if ty.kind in ('array', 'vec'): return tuple(self.undefval(ty.elems) for _ in range(ty.n))
        raise Unsupported('undef type')

    def zeroval(self, ty):
        if ty.kind in ('int', 'ptr', 'float'): return const(0, ty.w) if ty.w != 1 else FALSE
        if ty.kind == 'struct': return tuple(self.zeroval(e) for e in ty.elems)
        if ty.kind in ('array', 'vec'): return tuple(self.zeroval(ty.elems) for _ in range(ty.n))
        raise Unsupported('zero type')

    def icmp(self, p, a, b):
        if isinstance(a, tuple):
            return tuple(self.icmp(p, x, y) for x, y in zip(a, b))
        if a.w == 0:
            if p == 'eq': return eq(a, b)
            if p == 'ne': return bnot(eq(a, b))
            a = zext(a, 1); b = zext(b, 1)
        if p == 'eq': return eq(a, b)
        if p == 'ne': return bnot(eq(a, b))
        if p == 'ult': return ult(a, b)
        if p == 'ule': return bnot(ult(b, a))
        if p == 'ugt': return ult(b, a)
        if p == 'uge': return bnot(ult(a, b))
        if p == 'slt': return slt(a, b)
        if p == 'sle': return bnot(slt(b, a))
        if p == 'sgt': return slt(b, a)
        if p == 'sge': return bnot(slt(a, b))
        raise Unsupported(p)

    # ------------------------------------------------------------ running
    def start(self, fname, args=()):
        st = State()
        st.uid = next(_uid); st.frames = []; st.mem = {}; st.pc = []; st.facts = {}; st.env = {}; st.evm = {}
        st.expect = FALSE; st.nd = []; st.hints = []; st.foralls = []; st.insts = set(); st.nreg = 1024; st.bufs = []
        st.pure = None; st.depth = 0; st.trace = None; st.gh = {}; st.reads = {}; st.ended = None
        self.enter(st, self.mod.func(fname), list(args), None, None)
        return st

    def enter(self, st, F, args, dst, site):
        if len(st.frames) > 60: raise Unsupported('call depth')
        f = Frame()
        f.fn = F; f.regs = [None] * F.nregs; f.blk = 0; f.ip = 0; f.prev = None; f.loops = []; f.dst = dst; f.allocas = []; f.site = site
        for i, a in enumerate(args[:len(F.params)]): f.regs[i] = a
        st.frames.append(f)

    def run(self, st):
        """Run to exhaustion of the worklist."""
        work = [st]
        while work:
            s = work.pop()
            self.run_state(s, work)
            if self.paths > self.maxpaths: raise Unsupported('path limit')

    def run_state(self, st, work):
        try:
            while True:
                f = st.frames[-1]
                B = f.fn.blocks[f.blk]
                I = B.ins[f.ip]
                self.steps += 1
                if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline: raise TimeoutError('deadline')
                try:
                    h = self.H[I.op]
                    r = h(self, st, f, I)
                except Fork as fk:
                    out = self.branch(st, fk.c)
                    for v, s in out[1:]: work.append(s)
                    if not out: return
                    st = out[0][1]
                    continue
                if r is None:
                    f.ip += 1
                elif r is NEXT:
                    pass
                else:
                    # list of successor states
                    if not r: return
                    work.extend(r[1:]); st = r[0]
        except PathEnd:
            self.paths += 1
            return

    def val(self, st, f, o):
        if o[0] == 'r': return f.regs[o[1]]
        return self.constval(st, o)

    # control ---------------------------------------------------
    def goto(self, st, f, tgt):
        """Transfer control inside the frame; handles loops. Returns list of states."""
        F = f.fn
        while f.loops and tgt not in f.loops[-1].body:
            l = f.loops.pop()
            if l.mode == 'unroll': self.exits.setdefault((F.name, l.header), set()).add(l.count)
            if l.mode == 'infer': raise PathEnd()     # leaving the loop under inference
        src = f.blk
        if tgt in F.loops:
            if f.loops and f.loops[-1].header == tgt:
                l = f.loops[-1]
                if l.mode == 'infer':
                    l.sink.append((st, src)); raise PathEnd()
                if l.mode == 'final':
                    # invariant preservation was established during inference on a superset of these paths
                    raise PathEnd()
                l.count += 1
                if l.count > self.unroll or (self.cutnames and not self.bounded and l.count > 1 and any(n in F.name for n in self.cutnames)) or (l.count > 6 and not self.bounded and len(self.exits.get((F.name, tgt), ())) >= 5):
                    if self.bounded:
                        self.pruned += 1; raise PathEnd()
                    raise NeedCut((F.name, tgt))
            else:
                l = LoopCtx(); l.header = tgt; l.body = F.loops[tgt]; l.count = 0; l.sink = None; l.mode = 'unroll'
                if self.policy.get((F.name, tgt)) == 'cut' and not self.bounded:
                    return self.cut(st, f, tgt, src, l)
                f.loops.append(l)
        elif ('irr', tgt) in F.loops:
            raise Unsupported('irreducible loop')
        self.phis(st, f, tgt, src)
        return [st]

    def phis(self, st, f, tgt, src):
        B = f.fn.blocks[tgt]
        if B.phis:
            vals = [self.val(st, f, p.x[src]) for p in B.phis]
            for p, v in zip(B.phis, vals): f.regs[p.dst] = v
        f.prev = src; f.blk = tgt; f.ip = 0

    def h_br(self, st, f, I):
        if not I.ops:
            return self.goto(st, f, I.x[0])
        c = self.val(st, f, I.ops[0])
        if c.w == 1: c = eq(c, const(1, 1))
        if c.op != 'c':
            k = self.know(st, c)
            if k is not None: c = boolc(k)
        res = []
        for v, s in self.branch(st, c):
            try:
                ff = s.frames[-1]
                res.extend(self.goto(s, ff, I.x[0] if v else I.x[1]))
            except PathEnd:
                self.paths += 1
        return res

    def h_switch(self, st, f, I):
        v = self.val(st, f, I.ops[0])
        if v.op == 'c':
            for k, b in I.x[1]:
                if k == v.a[0]: return self.goto(st, f, b)
            return self.goto(st, f, I.x[0])
        res = []
        cur = st
        groups = {}
        for k, b in I.x[1]:
            groups[b] = bor(groups.get(b, FALSE), eq(v, const(k, v.w) if v.w else boolc(k)))
        for b, c in groups.items():
            nxt = None
            for t, s in self.branch(cur, c):
                if t:
                    try: res.extend(self.goto(s, s.frames[-1], b))
                    except PathEnd: self.paths += 1
                else: nxt = s
            cur = nxt
            if cur is None: break
        if cur is not None:
            try: res.extend(self.goto(cur, cur.frames[-1], I.x[0]))
            except PathEnd: self.paths += 1
        return res

    def h_ret(self, st, f, I):
        v = self.val(st, f, I.ops[0]) if I.ops else None
        for l in f.loops:
            if l.mode == 'infer': raise PathEnd()
        st.frames.pop()
        for rid in f.allocas:
            r = st.mem.get(rid)
            if r is not None: del st.mem[rid]
        if not st.frames or (st.pure and len(st.frames) == st.depth):
            st.ended = ('ret', v)
            self.on_return(st, v)
            raise PathEnd()
        g = st.frames[-1]
        if f.dst is not None: g.regs[f.dst] = v
        g.ip += 1
        return NEXT

    def on_return(self, st, v):
        if st.pure:
            self.pure_out.append((st, v)); return
        self.ended_ok += 1
        if not self.quiet and not self.covers.get('<end>'):
            self.ensure_env(st)
            if st.env is not None: self.covers['<end>'] = 1
        self.obligate(st, bnot(st.expect), 'contract', 'call must crash but returned', None)

    def h_unreachable(self, st, f, I):
        self.obligate(st, FALSE, 'ub', 'unreachable reached', I.loc)
        raise PathEnd()

    # data ------------------------------------------------------
    def bin(fn):
        def h(self, st, f, I):
            a = self.val(st, f, I.ops[0]); b = self.val(st, f, I.ops[1])
            if isinstance(a, tuple): f.regs[I.dst] = tuple(fn(x, y) for x, y in zip(a, b))
            elif a.w == 0: f.regs[I.dst] = eq(fn(zext(a, 1), zext(b, 1)), const(1, 1))
            else: f.regs[I.dst] = fn(a, b)
        return h
    def logic(fn, bf):
        def h(self, st, f, I):
            a = self.val(st, f, I.ops[0]); b = self.val(st, f, I.ops[1])
            if isinstance(a, tuple): f.regs[I.dst] = tuple((bf if x.w == 0 else fn)(x, y) for x, y in zip(a, b))
            else: f.regs[I.dst] = bf(a, b) if a.w == 0 else fn(a, b)
        return h
    def divi(fn):
        def h(self, st, f, I):
            a = self.val(st, f, I.ops[0]); b = self.val(st, f, I.ops[1])
            self.obligate(st, bnot(eq(b, const(0, b.w))), 'ub', 'division by zero', I.loc)
            if b.op == 'c' and a.op == 'lin' and b.a[0] > 1 and b.a[0] < (1 << 31):
                # (d*x)/d: x, once d*x is known not to wrap
                from loops import lindiv
                d = b.a[0]; q = lindiv(a, d); signed = fn in (sdiv, srem)
                if q is not None:
                    lim = ((1 << (a.w - signed)) - 1) // d
                    ok = band(sle(const(-lim, a.w), q), sle(q, const(lim, a.w))) if signed else ule(q, const(lim, a.w))
                    if self.decide(st, ok) is True:
                        f.regs[I.dst] = const(0, a.w) if fn in (srem, urem) else q
                        return
            f.regs[I.dst] = fn(a, b)
        return h

    def h_icmp(self, st, f, I):
        a = self.val(st, f, I.ops[0]); b = self.val(st, f, I.ops[1])
        r = self.icmp(I.x, a, b)
        if self.cmps is not None and not isinstance(r, tuple) and r.op != 'c':
            self.cmps.append((a, b, r))
        f.regs[I.dst] = r

    def h_zext(self, st, f, I):
        a = self.val(st, f, I.ops[0])
        f.regs[I.dst] = tuple(zext(x, I.ty.elems.w) for x in a) if isinstance(a, tuple) else zext(a, I.ty.w)
    def h_sext(self, st, f, I):
        a = self.val(st, f, I.ops[0])
        f.regs[I.dst] = tuple(sext(x, I.ty.elems.w) for x in a) if isinstance(a, tuple) else sext(a, I.ty.w)
    def h_trunc(self, st, f, I):
        a = self.val(st, f, I.ops[0])
        def one(a, w):
            t = trunc(a, w)
            return eq(t, const(1, 1)) if w == 1 else t
        f.regs[I.dst] = tuple(one(x, I.ty.elems.w) for x in a) if isinstance(a, tuple) else one(a, I.ty.w)
    def h_cast(self, st, f, I):
        a = self.val(st, f, I.ops[0])
        if isinstance(a, tuple) or I.ty.kind not in ('int', 'ptr'):
            if I.op == 'freeze': f.regs[I.dst] = a; return
            if I.op == 'bitcast' and isinstance(a, tuple) and I.ty.kind == 'int':
                t = None
                for x in a:
                    x = zext(x, 1) if x.w == 0 else x
                    t = x if t is None else concat(x, t)
                f.regs[I.dst] = t; return
            raise Unsupported('vector cast')
        w = I.ty.w
        if a.w == 0: f.regs[I.dst] = a if w == 1 else zext(a, w)
        elif w == 1: f.regs[I.dst] = a if a.w == 0 else eq(trunc(a, 1), const(1, 1))
        else: f.regs[I.dst] = a if a.w == w else (trunc(a, w) if w < a.w else zext(a, w))

    def h_select(self, st, f, I):
        c = self.val(st, f, I.ops[0])
        a = self.val(st, f, I.ops[1]); b = self.val(st, f, I.ops[2])
        if isinstance(c, tuple):
            f.regs[I.dst] = tuple(ite(x, y, z) for x, y, z in zip(c, a, b)); return
        k = self.know(st, c)
        if k is not None: f.regs[I.dst] = a if k else b
        elif isinstance(a, tuple): f.regs[I.dst] = self.ite_agg(c, a, b)
        else: f.regs[I.dst] = ite(c, a, b)

    def ite_agg(self, c, a, b):
        if isinstance(a, tuple): return tuple(self.ite_agg(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    def h_gep(self, st, f, I):
        a = self.val(st, f, I.ops[0])
        off, dyn = I.x
        for o, sz in dyn:
            v = self.val(st, f, o)
            if v.w != 64: v = sext(v, 64) if v.w < 64 else trunc(v, 64)
            a = add(a, scale(v, sz))
        if off: a = addc(a, off)
        f.regs[I.dst] = a

    def h_alloca(self, st, f, I):
        ty, al = I.x
        n = self.val(st, f, I.ops[0])
        if n.op != 'c': raise Unsupported('dynamic alloca')
        r = self.new_region(st, const(ty.size * n.a[0], 64), 'stack', max(al, ty.align), 'stack')
        f.allocas.append(r.id)
        f.regs[I.dst] = const(r.base, 64)

    def loadty(self, st, addr, ty, I, align):
        if ty.kind in ('int', 'ptr', 'float'):
            n = ty.store
            t = self.load(st, addr, n, I, align)
            if ty.w == 1: return bnot(eq(trunc(t, 1), const(0, 1)))
            return trunc(t, ty.w)
        if ty.kind == 'struct':
            return tuple(self.loadty(st, addc(addr, o), e, I, 1) for e, o in zip(ty.elems, ty.offs))
        if ty.kind in ('array', 'vec'):
            return tuple(self.loadty(st, addc(addr, i * ty.elems.size), ty.elems, I, 1) for i in range(ty.n))
        raise Unsupported('load type %s' % ty.kind)

    def storety(self, st, addr, ty, v, I, align):
        if ty.kind in ('int', 'ptr', 'float'):
            n = ty.store
            self.store(st, addr, n, zext(v, 8 * n), I, align); return
        if ty.kind == 'struct':
            for e, o, x in zip(ty.elems, ty.offs, v): self.storety(st, addc(addr, o), e, x, I, 1)
            return
        if ty.kind in ('array', 'vec'):
            for i, x in enumerate(v): self.storety(st, addc(addr, i * ty.elems.size), ty.elems, x, I, 1)
            return
        raise Unsupported('store type')

    def h_load(self, st, f, I):
        f.regs[I.dst] = self.loadty(st, self.val(st, f, I.ops[0]), I.ty, I, I.x)
    def h_store(self, st, f, I):
        self.storety(st, self.val(st, f, I.ops[1]), I.ty, self.val(st, f, I.ops[0]), I, I.x)

    def h_extractvalue(self, st, f, I):
        v = self.val(st, f, I.ops[0])
        for i in I.x: v = v[i]
        f.regs[I.dst] = v
    def h_insertvalue(self, st, f, I):
        v = self.val(st, f, I.ops[0]); x = self.val(st, f, I.ops[1])
        def ins(v, ix):
            if not ix: return x
            return v[:ix[0]] + (ins(v[ix[0]], ix[1:]),) + v[ix[0] + 1:]
        f.regs[I.dst] = ins(v, I.x)
    def h_extractelement(self, st, f, I):
        v = self.val(st, f, I.ops[0]); i = self.val(st, f, I.ops[1])
        f.regs[I.dst] = v[i.a[0]]
    def h_insertelement(self, st, f, I):
        v = self.val(st, f, I.ops[0]); x = self.val(st, f, I.ops[1]); i = self.val(st, f, I.ops[2]).a[0]
        f.regs[I.dst] = v[:i] + (x,) + v[i + 1:]
    def h_shufflevector(self, st, f, I):
        a = self.val(st, f, I.ops[0]) + self.val(st, f, I.ops[1])
        f.regs[I.dst] = tuple(a[m] if m >= 0 else a[0] for m in I.x)
    def h_fence(self, st, f, I): pass
    def h_unsupported(self, st, f, I): raise Unsupported('instruction %s' % I.x)

    # calls -----------------------------------------------------
    def h_call(self, st, f, I):
        tgt = I.x
        if tgt[0] == 'func': name = tgt[1]
        elif tgt[0] == 'asm':
            return None                       # empty inline asm used as an optimisation barrier
        else:
            t = self.simp(st, self.val(st, f, tgt))
            if t.op == 'ite': raise Fork(t.a[0])
            if t.op != 'c' or t.a[0] not in self.addrf:
                self.obligate(st, FALSE, 'ub', 'call through invalid function pointer', I.loc)
                raise PathEnd()
            name = self.addrf[t.a[0]]
        args = [self.val(st, f, o) if o is not None else None for o in I.ops]
        if self.replaced and not self.bounded and name in self.replaced and f.fn.name != self.replaced[name]: name = self.replaced[name]
        F = self.mod.funcs.get(name)
        mdl = self.model_for(name)
        if mdl is not None:
            r = mdl(self, st, f, I, args)
            if r is NEXT or isinstance(r, list): return r
            if I.ty.kind != 'void': f.regs[I.dst] = r
            return None
        if F.decl:
            raise Unsupported('call to unmodelled external function %s' % name)
        F = self.mod.func(name)
        self.calls.add(name)
        self.enter(st, F, args, I.dst if I.ty.kind != 'void' else None, I)
        return NEXT

    def model_for(self, name):
        m = MODELS.get(name)
        if m is not None: return m
        if name.startswith('llvm.'):
            for p, h in INTR:
                if name.startswith(p): return h
            raise Unsupported('intrinsic ' + name)
        if 'crash_internal5crash' in name: return m_crash
        return None

    # pure evaluation of a specification function ----------------
    def eval_pure(self, st, fname, args, mode='nosolve'):
        s = st.clone()
        s.pure = mode; s.depth = len(s.frames)
        base = len(s.pc)
        F = self.mod.func(fname)
        self.enter(s, F, args, None, None)
        old = getattr(self, 'pure_out', None)
        self.pure_out = []
        oldc = self.cmps; self.cmps = None
        oldf = getattr(self, 'pure_facts', None); self.pure_facts = []
        try:
            work = [s]
            while work:
                x = work.pop()
                self.run_state(x, work)
            outs = self.pure_out
        finally:
            self.pure_out = old; self.cmps = oldc
            facts = self.pure_facts; self.pure_facts = oldf
        for x in facts:
            if st.pure == 'nosolve': self.pure_facts.append(x)
            else: self.assume(st, x)
        if not outs: return None
        r = None
        for s2, v in outs:
            c = conj(s2.pc[base:])
            r = v if r is None else ite(c, v, r)
            for k, t in s2.reads.items():
                if st.reads.get(k) != t:
                    cur = st.reads.get(k, ())
                    new = [p for p in t if p not in cur]
                    st.reads[k] = cur + tuple(new)
                    for fa in list(st.foralls):
                        if fa[0] == k:
                            for off, n in new: self.inst(st, fa, off, n)
        return r

    from loops import cut
    H = {}

class _Next: pass
NEXT = _Next()
