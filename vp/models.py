"""Contracts assumed for functions outside the verified text (libc, compiler intrinsics, the crash handler) and the
specification primitives (vp_*). Every entry is part of the trusted base reported in the evidence."""
from term import *
import os, term as tm
import os, exec as ex
from exec import Exec, MAXOBJ, PathEnd, Fork, Unsupported, NEXT

def w(n): return const(n, 64)

def cstr(self, st, addr):
    if addr is None or addr.op != 'c': return '?'
    r, off = self.resolve(st, addr)
    if r is None or r.cells is None or off.op != 'c': return '?'
    out = []
    o = off.a[0]
    while True:
        c = r.cells.get(o)
        if c is None or c[0] != 1 or c[1].op != 'c' or c[1].a[0] == 0: break
        out.append(chr(c[1].a[0])); o += 1
    return ''.join(out)

# ------------------------------------------------------------------ crash handler
def m_crash(self, st, f, I, args):
    msg = cstr(self, st, args[0])
    self.crashed_ok += 1
    loc = I.loc
    self.obligate(st, st.expect, 'contract', 'no crash unless the contract demands it (%s)' % msg, loc)
    if not st.pure and not self.quiet and not self.covers.get('crash-path'):
        self.ensure_env(st)
        if st.env is not None: self.covers['crash-path'] = 1
    raise PathEnd()
ex.m_crash = m_crash

def m_abort(self, st, f, I, args):
    self.obligate(st, st.expect, 'contract', 'no abort', I.loc)
    raise PathEnd()

def m_trap(self, st, f, I, args):
    k = args[0].a[0] if args and args[0] is not None and args[0].op == 'c' else 255
    if os.environ.get('VP_HOUD'): print('TRAP', f.fn.name[:60], f.blk, st.pc[-3:])
    names = {0: 'add overflow', 1: 'unreachable', 2: 'cfi', 3: 'div/rem overflow', 8: 'invalid builtin', 10: 'invalid value', 11: 'missing return',
             12: 'mul overflow', 13: 'negate overflow', 18: 'out of bounds', 19: 'pointer overflow', 20: 'shift out of bounds', 21: 'sub overflow', 22: 'null/misaligned'}
    self.obligate(st, FALSE, 'ub', 'undefined behaviour: ' + names.get(k, str(k)), I.loc)
    raise PathEnd()

def m_assume(self, st, f, I, args):
    c = args[0]
    self.obligate(st, c, 'ub', 'optimizer assumption holds', I.loc)

# ------------------------------------------------------------------ vp_* primitives
def v_nd(self, st, f, I, args):
    bits = args[0].a[0]
    name = cstr(self, st, args[1])
    t = fresh('in.%s' % name, bits if bits != 1 else 0)
    st.nd.append((name, bits, t))
    return zext(t, 64)

def v_assume(self, st, f, I, args):
    c = args[0]
    if c.w: c = bnot(eq(c, const(0, c.w)))
    k = self.know(st, c)
    if k is not None:
        if not k: raise PathEnd()
        return
    if st.pure == 'nosolve':
        self.assume(st, c); return
    # make sure the assumption is satisfiable on this path
    self.assume(st, c)
    if st.env is None: self.ensure_env(st)

def v_assert(self, st, f, I, args):
    c = args[0]
    if c.w: c = bnot(eq(c, const(0, c.w)))
    self.obligate(st, c, 'contract', cstr(self, st, args[1]), I.loc)

def v_expect(self, st, f, I, args):
    c = args[0]
    if c.w: c = bnot(eq(c, const(0, c.w)))
    st.expect = c

def v_returned(self, st, f, I, args):
    self.obligate(st, bnot(st.expect), 'contract', cstr(self, st, args[0]), I.loc)
    st.expect = FALSE

def v_cover(self, st, f, I, args):
    if st.pure or self.quiet: return
    n = cstr(self, st, args[0])
    if self.covers.get(n): return
    self.ensure_env(st)
    if st.env is not None: self.covers[n] = self.covers.get(n, 0) + 1

def v_buf(self, st, f, I, args):
    n, esz, align, name = args[0], args[1].a[0], args[2].a[0], cstr(self, st, args[3])
    nm = 'buf.%s!%d' % (name, next(tm._vn))
    size = scale(n, esz)
    if self.buf_limit is not None: self.assume(st, ule(n, w(self.buf_limit)))
    elif n.op != 'c': self.assume(st, ule(n, w(MAXOBJ // max(esz, 1) // 4)))
    u = 1
    while u < 8 and esz % (2 * u) == 0: u *= 2
    if size.op == 'c' and size.a[0] <= 256:
        r = self.new_region(st, size, 'buf', align, nm)
        o = 0
        while o < size.a[0]:
            t = fresh(nm, 8 * u); r.cells[o] = (u, t); o += u
    else:
        r = self.new_region(st, size, 'buf', align, nm, u, 'uf')
        r.node = ('uf', nm, u)
        r.esz = u
    st.bufs.append((name, r.id, n, esz, nm, u, [c[1] for o, c in sorted(r.cells.items())] if r.cells is not None else None))
    st.nd.append((name, 'buf', len(st.bufs) - 1))
    return const(r.base, 64)

def v_fill(self, st, f, I, args):
    """vp_havoc(p, n): arbitrary bytes."""
    p, n = args[0], self.simp(st, args[1])
    if n.op != 'c': raise Unsupported('vp_havoc of a symbolic length')
    n = n.a[0]
    o = 0
    nm = cstr(self, st, args[2])
    while o < n:
        k = 8
        while k > n - o: k //= 2
        t = fresh('in.%s' % nm, 8 * k)
        st.nd.append((nm, 8 * k, t))
        self.store(st, addc(p, o), k, t, I)
        o += k

def fnname(self, st, t):
    if t.op != 'c' or t.a[0] not in self.addrf: raise Unsupported('hint is not a constant function')
    return self.addrf[t.a[0]]

def v_forall(self, st, f, I, args):
    fn = fnname(self, st, args[0]); ctx = args[1]
    buf = self.simp(st, args[2]); esz = args[3].a[0]
    r, off0 = self.resolve(st, buf)
    if r is None: raise Unsupported('vp_forall on null')
    snap = st.clone(); snap.foralls = []
    ex_ = self
    def fact(s, off, n):
        d = sub(off, off0)
        if esz == 1: idx = d
        elif esz & (esz - 1) == 0: idx = lshr(d, w(esz.bit_length() - 1))
        else: idx = udiv(d, w(esz))
        sn = snap.clone()
        sn.reads = {}; sn.foralls = []
        v = ex_.eval_pure(sn, fn, [ctx, idx])
        # reads performed by the fact itself are further trigger points
        for rid, t in sn.reads.items():
            cur = s.reads.get(rid, ())
            for o2, n2 in t:
                if (o2, n2) not in cur:
                    s.reads[rid] = s.reads.get(rid, ()) + ((o2, n2),)
                    for fa in list(s.foralls):
                        if fa[0] == rid: ex_.inst(s, fa, o2, n2)
        if v is None: return None
        return v if v.w == 0 else bnot(eq(v, const(0, v.w)))
    self.add_forall(st, r.id, fact)
    # arguments listed as instantiation points
def v_instantiate(self, st, f, I, args):
    """vp_inst(buf, idx, esz): instantiate all quantified facts of buf at element idx."""
    buf = self.simp(st, args[0]); idx = args[1]; esz = args[2].a[0]
    r, off0 = self.resolve(st, buf)
    if r is None or st.pure: return
    n = min(esz, 8)
    self.trigger(st, r, add(off0, scale(idx, esz)), n, True)

def v_hint(self, st, f, I, args):
    st.hints.append((fnname(self, st, args[0]), args[1], args[2].a[0]))

def v_hint2(self, st, f, I, args):
    r, off0 = self.resolve(st, self.simp(st, args[2]))
    st.hints.append((fnname(self, st, args[0]), args[1], (r.id, off0, args[3].a[0])))

def v_unroll(self, st, f, I, args):
    if not self.bounded: self.unroll = args[0].a[0]

def v_cutname(self, st, f, I, args):
    self.cutnames = getattr(self, 'cutnames', ()) + (cstr(self, st, args[0]),)

def v_replace(self, st, f, I, args):
    a, b = fnname(self, st, args[0]), fnname(self, st, args[1])
    self.replaced = dict(self.replaced); self.replaced[a] = b
    self.stubs.add(a)

def v_replace_sym(self, st, f, I, args):
    a, b = cstr(self, st, args[0]), fnname(self, st, args[1])
    self.replaced = dict(self.replaced); self.replaced[a] = b
    self.stubs.add(a)

def v_pure(self, st, f, I, args):
    r = self.eval_pure(st, fnname(self, st, args[0]), [args[1], args[2]])
    if r is None: raise PathEnd()
    return r

def v_pick(self, st, f, I, args):
    bits = args[0].a[0]
    return zext(fresh('pick', bits if bits != 1 else 0), 64)

def v_opaque(self, st, f, I, args):
    return zext(tm.uf('opq%d' % args[0].a[0], (args[2],), args[1].a[0]), 64)

def v_opaquemul(self, st, f, I, args):
    self.opqmul = True

def v_late(self, st, f, I, args):
    st.gh['late'] = True

def v_partial(self, st, f, I, args):
    st.gh['partial'] = True

def v_split(self, st, f, I, args):
    """vp_split(c): case split (proof guidance only)."""
    c = args[0]
    if c.w: c = bnot(eq(c, const(0, c.w)))
    if c.op != 'c' and st.facts.get(c) is None and st.pure is None: raise Fork(c)

def v_alloc_live(self, st, f, I, args):
    n = sum(1 for r in st.mem.values() if r.kind == 'heap' and r.live)
    return w(n)

def v_poison(self, st, f, I, args):
    return None

# ------------------------------------------------------------------ heap
def heap(self, st, size, align, I, zero=False):
    if size.op != 'c':
        self.assumptions.add('heap allocation requests above 2^38 bytes do not occur on verified paths (they would exhaust memory)')
        self.assume(st, ule(size, w(MAXOBJ)))
    elif size.a[0] > MAXOBJ: raise PathEnd()
    self.assumptions.add('malloc/calloc/realloc/aligned_alloc/operator new succeed and return fresh disjoint memory')
    r = self.new_region(st, size, 'heap', align, 'heap', 8 if zero is False else 1, 'zero' if zero else 'undef')
    if r.node is not None and not zero: r.node = ('undef', r.name, 8)
    r.esz = 8
    return r

def m_malloc(self, st, f, I, args):
    return const(heap(self, st, args[0], 16, I).base, 64)
def m_calloc(self, st, f, I, args):
    a, b = args
    sz = mul(a, b)
    if a.op != 'c' or b.op != 'c':
        x = mul(zext(a, 128), zext(b, 128))
        ov = bnot(eq(extract(x, 127, 64), const(0, 64)))
        self.assume(st, bnot(ov))
    return const(heap(self, st, sz, 16, I, True).base, 64)
def m_aligned_alloc(self, st, f, I, args):
    al = args[0]
    if al.op != 'c': raise Unsupported('symbolic alignment')
    return const(heap(self, st, args[1], max(16, al.a[0]), I).base, 64)
def m_free(self, st, f, I, args):
    p = self.simp(st, args[0])
    if p.op == 'c' and p.a[0] == 0: return
    r, off = self.resolve(st, p)
    if r is None or r.kind != 'heap' or not r.live:
        self.obligate(st, FALSE, 'mem', 'free of a pointer that is not a live heap block', I.loc)
        raise PathEnd()
    self.obligate(st, eq(off, w(0)), 'mem', 'free of the start of a heap block', I.loc)
    r = self.wr(st, r); r.live = False; r.cells = {} if r.cells is not None else None
def m_free_sized(self, st, f, I, args):
    p = self.simp(st, args[0])
    if p.op == 'c' and p.a[0] == 0: return
    r, off = self.resolve(st, p)
    if r is not None and r.live and r.kind == 'heap':
        self.obligate(st, eq(args[1], r.size), 'mem', 'sized delete matches the allocation size', I.loc)
    m_free(self, st, f, I, args[:1])
def m_realloc(self, st, f, I, args):
    p = self.simp(st, args[0]); sz = args[1]
    if p.op == 'c' and p.a[0] == 0: return m_malloc(self, st, f, I, [sz])
    r, off = self.resolve(st, p)
    if r is None or r.kind != 'heap' or not r.live:
        self.obligate(st, FALSE, 'mem', 'realloc of a pointer that is not a live heap block', I.loc)
        raise PathEnd()
    self.obligate(st, eq(off, w(0)), 'mem', 'realloc of the start of a heap block', I.loc)
    c = ule(sz, r.size)
    k = self.decide(st, c)
    if k is None: raise Fork(c)
    n = heap(self, st, sz, 16, I)
    ln = sz if k else r.size
    try: self.memcopy(st, const(n.base, 64), const(r.base, 64), ln, I, 'memcpy')
    except Fork:                       # the instruction is executed again on either side: drop the block allocated so far
        del st.mem[n.id]; raise
    r = self.wr(st, st.mem[r.id]); r.live = False
    return const(n.base, 64)

# ------------------------------------------------------------------ mem*
def m_memcpy(self, st, f, I, args):
    self.memcopy(st, args[0], args[1], args[2], I, 'memcpy'); return args[0]
def m_memmove(self, st, f, I, args):
    self.memcopy(st, args[0], args[1], args[2], I, 'memmove'); return args[0]
def m_memset(self, st, f, I, args):
    self.memfill(st, args[0], trunc(args[1], 8), args[2], I); return args[0]

def rd(self, st, node, off, n): return self.arr_read(st, node, off, n)

def unit(ra, rb, oa, ob, self):
    u = min(ra.esz, rb.esz)
    while u > 1 and not (self.multiple(oa, u) and self.multiple(ob, u)): u //= 2
    return u

def m_memcmp(self, st, f, I, args):
    a, b, n = self.simp(st, args[0]), self.simp(st, args[1]), args[2]
    n = self.simp(st, n)
    z = eq(n, w(0))
    k = self.know(st, z)
    if k is None and n.op != 'c': raise Fork(z)
    if k: return const(0, 32)
    if n.op == 'c':
        ra, oa = self.access(st, a, n.a[0], I, 'load'); rb, ob = self.access(st, b, n.a[0], I, 'load')
    else:
        ra, oa = self.access(st, a, None, I, 'load', nt=n); rb, ob = self.access(st, b, None, I, 'load', nt=n)
    na, nb = self.node_of(ra), self.node_of(rb)
    if n.op == 'c' and n.a[0] <= 16:
        r = const(0, 32)
        for i in reversed(range(n.a[0])):
            self.trigger(st, ra, addc(oa, i), 1); self.trigger(st, rb, addc(ob, i), 1)
            x = rd(self, st, na, addc(oa, i), 1); y = rd(self, st, nb, addc(ob, i), 1)
            r = ite(eq(x, y), r, ite(ult(x, y), const(-1, 32), const(1, 32)))
        return r
    # contract: r == 0 <=> all bytes equal; otherwise sign of the first difference
    if st.pure: raise Unsupported('memcmp in specification')
    t = fresh('memcmp', 32)
    e = eq(t, const(0, 32))
    wit = fresh('memcmp.w', 64)
    def same(s, off, nn, which, bound):
        d = sub(off, oa if which == 0 else ob)
        g = ult(d, bound)
        if nn > 1: g = band(g, ule(addc(d, nn), bound))
        if nn > 1 and not self.multiple(d, nn):
            pass
        x = rd(self, s, na, add(oa, d), nn); y = rd(self, s, nb, add(ob, d), nn)
        return implies(g, eq(x, y))
    out = []
    for v, s in self.branch(st, e):
        ff = s.frames[-1]
        if v:
            for which, r in ((0, ra), (1, rb)):
                self.add_forall(s, r.id, lambda s_, o, nn, which=which: same(s_, o, nn, which, n))
        else:
            try:
                self.assume(s, ult(wit, n))
                x = rd(self, s, na, add(oa, wit), 1); y = rd(self, s, nb, add(ob, wit), 1)
                self.assume(s, bnot(eq(x, y)))
                self.assume(s, eq(slt(t, const(0, 32)), ult(x, y)))
                for which, r in ((0, ra), (1, rb)):
                    self.add_forall(s, r.id, lambda s_, o, nn, which=which: same(s_, o, nn, which, wit))
                u = unit(ra, rb, oa, ob, self)
                self.trigger(s, ra, add(oa, wit), 1); self.trigger(s, rb, add(ob, wit), 1)
                for uu in (2, 4, 8):
                    if uu <= max(ra.esz, rb.esz):
                        al = and_(wit, w(~(uu - 1)))
                        self.trigger(s, ra, add(oa, al), uu); self.trigger(s, rb, add(ob, al), uu)
                self.ensure_env(s)
            except PathEnd:
                continue
        ff.regs[I.dst] = t
        ff.ip += 1
        out.append(s)
    return out

def m_memchr(self, st, f, I, args):
    a, c, n = self.simp(st, args[0]), trunc(args[1], 8), self.simp(st, args[2])
    z = eq(n, w(0))
    k = self.know(st, z)
    if k is None and n.op != 'c': raise Fork(z)
    if k: return w(0)
    if n.op == 'c': ra, oa = self.access(st, a, n.a[0], I, 'load')
    else: ra, oa = self.access(st, a, None, I, 'load', nt=n)
    na = self.node_of(ra)
    if n.op == 'c' and n.a[0] <= 32:
        r = w(0)
        for i in reversed(range(n.a[0])):
            self.trigger(st, ra, addc(oa, i), 1)
            r = ite(eq(rd(self, st, na, addc(oa, i), 1), c), addc(a, i), r)
        return r
    if st.pure: raise Unsupported('memchr in specification')
    found = fresh('memchr.found', 0); wit = fresh('memchr.w', 64)
    out = []
    def absent(bound):
        def fact(s, off, nn):
            d = sub(off, oa)
            cs = []
            for i in range(nn):
                di = addc(d, i)
                cs.append(implies(ult(di, bound), bnot(eq(rd(self, s, na, add(oa, di), 1), c))))
            return conj(cs)
        return fact
    for v, s in self.branch(st, found):
        ff = s.frames[-1]
        try:
            if v:
                self.assume(s, ult(wit, n))
                self.assume(s, eq(rd(self, s, na, add(oa, wit), 1), c))
                self.trigger(s, ra, add(oa, wit), 1)
                self.add_forall(s, ra.id, absent(wit))
                ff.regs[I.dst] = add(a, wit)
            else:
                self.add_forall(s, ra.id, absent(n))
                ff.regs[I.dst] = w(0)
            self.ensure_env(s)
        except PathEnd: continue
        ff.ip += 1
        out.append(s)
    return out

def m_memmem(self, st, f, I, args):
    h, hn, nd, nn_ = [self.simp(st, x) for x in args]
    for n in (hn, nn_):
        if n.op != 'c':
            z = eq(n, w(0)); k = self.know(st, z)
            if k is None: raise Fork(z)
    if self.know(st, eq(nn_, w(0))): return h
    if self.know(st, eq(hn, w(0))): return w(0)
    rh, oh = self.access(st, h, hn.a[0] if hn.op == 'c' else None, I, 'load', nt=None if hn.op == 'c' else hn)
    rn, on = self.access(st, nd, nn_.a[0] if nn_.op == 'c' else None, I, 'load', nt=None if nn_.op == 'c' else nn_)
    if st.pure: raise Unsupported('memmem in specification')
    a, b = self.node_of(rh), self.node_of(rn)
    found = fresh('memmem.found', 0)
    # element-wise view: both operands are whole elements; a match may still begin in the middle of one
    es = rh.esz if rh.esz in (2, 4, 8) and (rn.esz == rh.esz or rn.cells is not None) and all(self.multiple(t, rh.esz) for t in (oh, on, hn, nn_)) else 1
    k = fresh('memmem.w', 64)
    wits = [addc(scale(k, es), c) for c in range(es)]
    out = []
    def nomatch(bound):
        # forall k < bound (k + nn <= hn): exists j < nn. h[k+j] != n[j]  -- skolemised per instance
        def fact(s, off, n):
            d = sub(off, oh)
            m = es if self.multiple(off, es) else 1      # some differing byte, or some differing element
            j = w(0) if nn_.op == 'c' and nn_.a[0] == m else scale(fresh('memmem.j', 64), m)
            self.trigger(s, rh, add(off, j), m); self.trigger(s, rn, add(on, j), m)
            x = rd(self, s, a, add(off, j), m); y = rd(self, s, b, add(on, j), m)
            g = conj([ult(d, bound), ule(nn_, hn), ule(d, sub(hn, nn_))])
            return implies(g, band(ult(j, nn_), bnot(eq(x, y))))
        return fact
    cases = []
    for v, s in self.branch(st, found):
        if v: cases += [(w_, s if i == 0 else s.clone()) for i, w_ in reversed(list(enumerate(wits)))]
        else: cases.append((None, s))
    for wit, s in cases:
        ff = s.frames[-1]
        try:
            if wit is not None:
                if es > 1: self.assume(s, ule(k, w(((1 << 64) - 1) // es)))
                self.assume(s, band(ule(nn_, hn), ule(wit, sub(hn, nn_))))
                def match(s_, off, n, which, wit=wit):
                    d = sub(off, add(oh, wit)) if which == 0 else sub(off, on)
                    g = ult(d, nn_)
                    if n > 1: g = band(g, ule(addc(d, n), nn_))
                    return implies(g, eq(rd(self, s_, a, add(add(oh, wit), d), n), rd(self, s_, b, add(on, d), n)))
                self.add_forall(s, rh.id, lambda s_, o, n, match=match: match(s_, o, n, 0))
                self.add_forall(s, rn.id, lambda s_, o, n, match=match: match(s_, o, n, 1))
                self.add_forall(s, rh.id, nomatch(wit))
                ff.regs[I.dst] = add(h, wit)
            else:
                self.add_forall(s, rh.id, nomatch(hn))
                ff.regs[I.dst] = w(0)
            self.ensure_env(s)
        except PathEnd: continue
        ff.ip += 1
        out.append(s)
    return out

def m_strlen(self, st, f, I, args):
    p = self.simp(st, args[0])
    r, off = self.resolve(st, p)
    if r is None:
        self.obligate(st, FALSE, 'mem', 'strlen of invalid pointer', I.loc); raise PathEnd()
    if r.cells is not None and off.op == 'c':
        n = 0
        while True:
            if off.a[0] + n >= r.csize:
                self.obligate(st, FALSE, 'mem', 'strlen terminates inside the object', I.loc); raise PathEnd()
            c = self.cell_get(st, r, off.a[0] + n, 1)
            z = eq(c, const(0, 8)); k = self.know(st, z)
            if k is None: raise Fork(z)
            if k: return w(n)
            n += 1
    na = r.node
    n = fresh('strlen', 64)
    left = sub(r.size, off)
    # n is the number of bytes before the first zero, or all that are left in the object
    self.assume(st, ule(n, left))
    self.trigger(st, r, add(off, n), 1)
    self.assume(st, bor(eq(n, left), eq(rd(self, st, na, add(off, n), 1), const(0, 8))))
    self.add_forall(st, r.id, lambda s, o, nn: implies(ult(sub(o, off), n), bnot(eq(rd(self, s, na, o, 1), const(0, 8)))) if nn == 1 else None)
    self.obligate(st, ult(n, left), 'mem', 'strlen terminates inside the object', I.loc)
    return n

# ------------------------------------------------------------------ intrinsics
def i_nop(self, st, f, I, args): return None
def i_lifetime_start(self, st, f, I, args):
    r, off = self.resolve(st, args[1])
    if r is not None and r.kind == 'stack':
        r = self.wr(st, r); r.live = True
        if r.cells is not None: r.cells = {}
        else: r.node = ('undef', '%s.%d' % (r.name, next(tm._vn)), 1)
def i_lifetime_end(self, st, f, I, args):
    r, off = self.resolve(st, args[1])
    if r is not None and r.kind == 'stack':
        r = self.wr(st, r); r.live = False
def i_expect(self, st, f, I, args): return args[0]

def bits_of(a): return [extract(a, i, i) for i in range(a.w)]
def b1(t): return eq(t, const(1, 1))

def popcount(a):
    wd = a.w
    if a.op == 'c': return const(bin(a.a[0]).count('1'), wd)
    r = const(0, 32)
    for i in range(wd): r = add(r, zext(extract(a, i, i), 32))
    return zext(r, wd) if wd > 32 else extract(r, wd - 1, 0) if wd < 32 else r
def ctlz(a):
    wd = a.w
    if a.op == 'c': return const(wd - a.a[0].bit_length(), wd)
    r = const(wd, wd)
    for i in range(wd): r = ite(eq(extract(a, i, i), const(1, 1)), const(wd - 1 - i, wd), r)
    return r
def cttz(a):
    wd = a.w
    if a.op == 'c': return const((a.a[0] & -a.a[0]).bit_length() - 1 if a.a[0] else wd, wd)
    r = const(wd, wd)
    for i in reversed(range(wd)): r = ite(eq(extract(a, i, i), const(1, 1)), const(i, wd), r)
    return r
def un(fn):
    def h(self, st, f, I, args):
        a = args[0]
        if isinstance(a, tuple): return tuple(fn(x) for x in a)
        return fn(a)
    return h
def bswap(a):
    t = None
    for i in range(0, a.w, 8):
        b = extract(a, i + 7, i)
        t = b if t is None else concat(t, b)
    return t
def bitrev(a):
    t = None
    for i in range(a.w):
        b = extract(a, i, i); t = b if t is None else concat(t, b)
    return t
def i_fshl(self, st, f, I, args):
    a, b, s = args
    wd = a.w
    s = urem(s, const(wd, wd))
    x = concat(a, b)
    return extract(shl(x, zext(s, 2 * wd)), 2 * wd - 1, wd)
def i_fshr(self, st, f, I, args):
    a, b, s = args
    wd = a.w
    s = urem(s, const(wd, wd))
    return extract(lshr(concat(a, b), zext(s, 2 * wd)), wd - 1, 0)
def ovf(kind, signed):
    def h(self, st, f, I, args):
        a, b = args
        wd = a.w
        if kind == 'add':
            r = add(a, b)
            if signed:
                sa, sb, sr = [extract(x, wd - 1, wd - 1) for x in (a, b, r)]
                o = band(eq(sa, sb), bnot(eq(sa, sr)))
            else: o = ult(r, a)
        elif kind == 'sub':
            r = sub(a, b)
            if signed:
                sa, sb, sr = [extract(x, wd - 1, wd - 1) for x in (a, b, r)]
                o = band(bnot(eq(sa, sb)), bnot(eq(sa, sr)))
            else: o = ult(a, b)
        elif self.opqmul:
            n = '%smul' % ('s' if signed else 'u')
            return (tm.uf('opq.%s' % n, (a, b), wd), tm.uf('opq.%s.over' % n, (a, b), 0))
        else:
            r = mul(a, b)
            if signed and a.op == 'c': a, b = b, a
            if signed and b.op == 'c' and 0 < b.a[0] < 1 << (wd - 1):
                c = b.a[0]; m = 1 << (wd - 1)
                o = bor(slt(const((m - 1) // c, wd), a), slt(a, const(-(m // c) & mask(wd), wd)))
            elif signed:
                x = mul(sext(a, 2 * wd), sext(b, 2 * wd)); o = bnot(eq(x, sext(r, 2 * wd)))
            else:
                if a.op == 'c': a, b = b, a
                if b.op == 'c':
                    o = ult(const(mask(wd) // b.a[0], wd), a) if b.a[0] else FALSE
                else:
                    x = mul(zext(a, 2 * wd), zext(b, 2 * wd)); o = bnot(eq(extract(x, 2 * wd - 1, wd), const(0, wd)))
        return (r, o)
    return h
def sat(kind, signed):
    def h(self, st, f, I, args):
        a, b = args
        wd = a.w
        r, o = ovf(kind, signed)(self, st, f, I, args)
        if not signed: return ite(o, const(-1 if kind == 'add' else 0, wd), r)
        mx = const((1 << (wd - 1)) - 1, wd); mn = const(1 << (wd - 1), wd)
        return ite(o, ite(slt(a, const(0, wd)), mn, mx), r)
    return h
def mm(fn):
    def h(self, st, f, I, args):
        a, b = args
        return ite(fn(a, b), a, b)
    return h
def i_abs(self, st, f, I, args):
    a = args[0]
    return ite(slt(a, const(0, a.w)), neg(a), a)
def i_objectsize(self, st, f, I, args): return const(-1, I.ty.w)
def i_isconst(self, st, f, I, args): return FALSE
def i_ucmp(self, st, f, I, args):
    a, b = args; w_ = I.ty.w
    return ite(eq(a, b), const(0, w_), ite(ult(a, b), const(-1, w_), const(1, w_)))
def i_ptrmask(self, st, f, I, args): return and_(args[0], args[1])

INTR = [
    ('llvm.lifetime.start', i_lifetime_start), ('llvm.lifetime.end', i_lifetime_end), ('llvm.dbg', i_nop), ('llvm.experimental.noalias', i_nop),
    ('llvm.expect', i_expect), ('llvm.assume', m_assume), ('llvm.ubsantrap', m_trap), ('llvm.trap', m_trap), ('llvm.debugtrap', m_trap),
    ('llvm.memcpy', m_memcpy), ('llvm.memmove', m_memmove), ('llvm.memset', m_memset),
    ('llvm.ctlz', un(ctlz)), ('llvm.cttz', un(cttz)), ('llvm.ctpop', un(popcount)), ('llvm.bswap', un(bswap)), ('llvm.bitreverse', un(bitrev)),
    ('llvm.fshl', i_fshl), ('llvm.fshr', i_fshr),
    ('llvm.uadd.with', ovf('add', False)), ('llvm.sadd.with', ovf('add', True)), ('llvm.usub.with', ovf('sub', False)), ('llvm.ssub.with', ovf('sub', True)),
    ('llvm.umul.with', ovf('mul', False)), ('llvm.smul.with', ovf('mul', True)),
    ('llvm.uadd.sat', sat('add', False)), ('llvm.sadd.sat', sat('add', True)), ('llvm.usub.sat', sat('sub', False)), ('llvm.ssub.sat', sat('sub', True)),
    ('llvm.umax', mm(lambda a, b: ult(b, a))), ('llvm.umin', mm(lambda a, b: ult(a, b))), ('llvm.smax', mm(lambda a, b: slt(b, a))), ('llvm.smin', mm(lambda a, b: slt(a, b))),
    ('llvm.abs', i_abs), ('llvm.objectsize', i_objectsize), ('llvm.is.constant', i_isconst), ('llvm.stacksave', lambda s, st, f, I, a: w(0)), ('llvm.stackrestore', i_nop),
    ('llvm.launder', i_expect), ('llvm.strip', i_expect), ('llvm.ptrmask', i_ptrmask), ('llvm.donothing', i_nop), ('llvm.prefetch', i_nop),
]

MODELS = {
    'vp_nd': v_nd, 'vp_assume': v_assume, 'vp_assert': v_assert, 'vp_expect_crash': v_expect, 'vp_returned': v_returned, 'vp_cover': v_cover,
    'vp_buf': v_buf, 'vp_havoc': v_fill, 'vp_forall_': v_forall, 'vp_inst_': v_instantiate, 'vp_hint_': v_hint, 'vp_hint2_': v_hint2, 'vp_replace_': v_replace, 'vp_replace_sym': v_replace_sym, 'vp_pure_': v_pure, 'vp_pick': v_pick, 'vp_opaque': v_opaque, 'vp_opaque_mul': v_opaquemul, 'vp_cut': v_cutname, 'vp_unroll': v_unroll, 'vp_split': v_split, 'vp_partial': v_partial, 'vp_late': v_late,
    'vp_heap_live': v_alloc_live,
    'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free, 'aligned_alloc': m_aligned_alloc,
    '_Znwm': m_malloc, '_Znam': m_malloc, '_ZdlPv': m_free, '_ZdaPv': m_free, '_ZdlPvm': m_free_sized, '_ZdaPvm': m_free_sized,
    'memcpy': m_memcpy, 'memmove': m_memmove, 'memset': m_memset, 'memcmp': m_memcmp, 'bcmp': m_memcmp, 'memchr': m_memchr, 'memmem': m_memmem, 'strlen': m_strlen,
    'abort': m_abort, '_ZSt9terminatev': m_abort, '__assert_fail': m_abort, '_ZNSt3__122__libcpp_verbose_abortEPKcz': m_abort, '__cxa_pure_virtual': m_abort,
    '__cxa_atexit': lambda s, st, f, I, a: const(0, 32),
}
ex.MODELS = MODELS; ex.INTR = INTR

E = Exec
b = E.__dict__
bin_ = b['bin']; logic = b['logic']; divi = b['divi']
E.H = {
    'br': E.h_br, 'switch': E.h_switch, 'ret': E.h_ret, 'unreachable': E.h_unreachable,
    'add': bin_(add), 'sub': bin_(sub), 'mul': bin_(mul), 'shl': bin_(shl), 'lshr': bin_(lshr), 'ashr': bin_(ashr),
    'udiv': divi(udiv), 'sdiv': divi(sdiv), 'urem': divi(urem), 'srem': divi(srem),
    'and': logic(and_, band), 'or': logic(or_, bor), 'xor': logic(xor, bxor),
    'icmp': E.h_icmp, 'zext': E.h_zext, 'sext': E.h_sext, 'trunc': E.h_trunc, 'ptrtoint': E.h_cast, 'inttoptr': E.h_cast, 'bitcast': E.h_cast, 'freeze': E.h_cast,
    'select': E.h_select, 'gep': E.h_gep, 'alloca': E.h_alloca, 'load': E.h_load, 'store': E.h_store, 'extractvalue': E.h_extractvalue,
    'insertvalue': E.h_insertvalue, 'extractelement': E.h_extractelement, 'insertelement': E.h_insertelement, 'shufflevector': E.h_shufflevector,
    'fence': E.h_fence, 'call': E.h_call, 'unsupported': E.h_unsupported,
}
