"""Loop rule: havoc everything the loop may modify, assume an inductive invariant, continue.

The invariant is inferred (Houdini): candidate predicates are built from templates over whatever variables the loop header has in
the current source and from the specification hints of the contract; a candidate survives only if it holds on entry and is
preserved by every path through the body (checked by the solver for all states satisfying the surviving conjunction).
"""
from term import *
import term as tm

class Cand:
    """plain predicate over header atoms"""
    __slots__ = ('p', 'desc')
    def __init__(self, p, desc): self.p = p; self.desc = desc
    def at(self, ex, st, m):
        return subst(self.p, m, {}) if m else self.p

class Hint:
    __slots__ = ('fn', 'ctx', 'v', 'desc', 'cache')
    def __init__(self, fn, ctx, v, desc): self.fn = fn; self.ctx = ctx; self.v = v; self.desc = desc
    def at(self, ex, st, m):
        args = [self.ctx]
        if self.v is not None:
            for v in self.v if isinstance(self.v, tuple) else (self.v,): args.append(subst(v, m, {}) if m else v)
        r = ex.eval_pure(st, self.fn, args)
        if r is None: return FALSE
        return r if r.w == 0 else bnot(eq(r, const(0, r.w)))

def reloads(F, r, dst):
    if r == dst: return True
    for b in F.blocks:
        for i in b.ins:
            if i.dst == r: return i.op == 'load'
    return False

def cut(self, st, f, H, src, l):
    F = f.fn; B = F.blocks[H]
    from exec import PathEnd, Unsupported, LoopCtx, SLOT
    S = st
    x0 = {}
    for p in B.phis: x0[('phi', p.dst)] = self.val(S, f, p.x[src])
    for v in x0.values():
        if isinstance(v, tuple): raise Unsupported('aggregate loop variable')
    cells = {}          # ('cell', rid, off) -> n
    arrs = {}           # rid -> list of active array facts candidates
    arrdrop = set()
    unscaled = set()
    cls = {}            # var -> ('same',)|('lin',delta)|('fresh',)
    key = (F.name, H)
    # A pointer that every iteration merely reloads: first suppose it always is the same one (checked below).
    opt = set()
    for p in B.phis:
        v = ('phi', p.dst); t0 = x0[v]
        if t0.w != 64 or t0.op != 'c' or ((t0.a[0] + (1 << (SLOT - 1))) >> SLOT) not in S.mem or t0.a[0] >> 63: continue
        back = [o for b, o in p.x.items() if b in F.loops[H]]
        if back and all(o[0] == 'r' and reloads(F, o[1], p.dst) for o in back): opt.add(v); cls[v] = ('same',)
    wcuts = {}          # rid -> offsets at which the loop starts writing, as terms over loop-constant values

    def cellval(s, k, n):
        r = s.mem.get(k[1])
        if r is None or r.cells is None: raise Unsupported('loop cell vanished')
        return self.cell_get(s, r, k[2], n)

    for k in range(64):
        # ---------------------------------------------------------------- build havoc state
        atoms = {}      # atom -> (var, init term, from_value fn base)
        hv = {}
        c = fresh('it', 64)
        marker = c.id
        uses_c = False
        allv = dict(x0)
        for ck, n in cells.items(): allv[ck] = cellval(S, ck, n)
        for v, t0 in allv.items():
            cl = cls.get(v, ('fresh',))
            if cl[0] == 'same': hv[v] = t0
            elif cl[0] == 'lin':
                hv[v] = add(t0, scale(trunc(c, t0.w) if t0.w < 64 else zext(c, t0.w), cl[1])); uses_c = True
            else:
                base = 0
                if t0.w == 64:
                    cp = t0.a[0] if t0.op == 'c' else (t0.a[0] if t0.op == 'lin' else 0)
                    sl = (cp + (1 << (SLOT - 1))) >> SLOT
                    if sl in S.mem and not (cp >> 63): base = S.mem[sl].base
                    elif t0.op == 'ite' and self.ptr_like(t0): raise Unsupported('pointer ite at loop entry')
                a = fresh('hv', t0.w)
                off0 = sub(t0, const(base, 64)) if base else t0
                e = S.mem[(base + (1 << (SLOT - 1))) >> SLOT].esz if base and v not in unscaled else 1
                if e > 1 and lindiv(off0, e) is None: e = 1
                atoms[a] = (v, lindiv(off0, e), base, e)
                hv[v] = addc(scale(a, e), base) if base else a
        if uses_c: atoms[c] = (None, const(0, 64), 0, 1)
        hs = S.clone()
        hs.gh['havoc'] = True
        hf = hs.frames[-1]
        for p in B.phis: hf.regs[p.dst] = hv[('phi', p.dst)]
        hf.prev = src; hf.blk = H; hf.ip = 0
        for ck, n in cells.items():
            r = self.wr(hs, hs.mem[ck[1]])
            self.cell_put(r, ck[2], n, hv[ck])
        havnodes = {}
        for rid in arrs:
            r = self.wr(hs, self.to_array(hs, hs.mem[rid]))
            nm = 'hav.%s!%d' % (r.name, next(tm._vn))
            facts = []
            r.node = ('hav', nm, max(r.esz, 1) if S.mem[rid].cells is None else 1, facts, self.node_of(S.mem[rid]))
            havnodes[rid] = (r.node, facts)
        # array frame facts
        afacts = {}
        for rid in arrs:
            r = S.mem[rid]
            old = self.node_of(r)
            lst = []
            exprs = array_cuts(self, S, r, hv, allv, cls) + [(e, 'w%d' % i) for i, e in enumerate(wcuts.get(rid, ()))]
            for e, desc in exprs:
                for side in ('ge', 'lt'):
                    if (rid, desc, side) in arrdrop: continue
                    lst.append((rid, desc, side, e))
            afacts[rid] = lst
            node, facts = havnodes[rid]
            def mk(lst, old):
                def fact(s, off, n, t):
                    o = None
                    cs = []
                    for _, _, side, e in lst:
                        g = ule(e, off) if side == 'ge' else band(ult(off, e), ule(addc(off, n), e))
                        if o is None: o = self.arr_read(s, old, off, n)
                        cs.append(implies(g, eq(t, o)))
                    return conj(cs)
                return fact
            facts.append(mk(lst, old))
        nc = LoopCtx(); nc.header = H; nc.body = F.loops[H]; nc.count = 0; nc.mode = 'infer'; nc.sink = []
        hf.loops.append(nc)
        # instantiate entry assumption of surviving candidates found in an earlier round
        # ---------------------------------------------------------------- run the body once
        def runbody(invs):
            s = hs.clone()
            cx = s.frames[-1].loops[-1]; cx.sink = []
            oldc = self.cmps; self.cmps = []; self.quiet += 1
            oldp = self.paths
            try:
                try:
                    for iv in invs: self.assume(s, iv)
                except PathEnd:
                    return [], []
                s.env = None
                self.run(s)
                cm = self.cmps
            finally:
                self.cmps = oldc; self.quiet -= 1; self.paths = oldp
            return cx.sink, cm
        sink, cmps = runbody([])
        # ---------------------------------------------------------------- new modifications?
        again = False
        newvals = []
        for s, sb in sink:
            fr = s.frames[-1]
            nv = {}
            for p in B.phis: nv[('phi', p.dst)] = self.deepsimp(s, self.val(s, fr, p.x[sb]))
            for rid, r0 in hs.mem.items():
                r1 = s.mem.get(rid)
                if r1 is r0: continue
                if r1 is None: continue
                if rid in cls_dead: continue
                if r1.live != r0.live:
                    if r0.live and r0.kind == 'stack': continue
                    if not r0.live and r0.kind == 'stack': continue
                    raise Unsupported('loop body frees memory allocated outside')
                if rid in arrs: continue
                if r0.kind == 'stack' and not r0.live: continue
                if r0.cells is None or r1.cells is None:
                    if (r0.node if r0.cells is None else None) is not (r1.node if r1.cells is None else 0):
                        if not (r0.cells is None and r1.node is r0.node):
                            arrs[rid] = True; again = True
                    continue
                for o, (n, t) in r1.cells.items():
                    c0 = r0.cells.get(o)
                    if c0 is not None and c0[0] == n and c0[1] is t: continue
                    if any(q[1] == rid and q[2] <= o and o + n <= q[2] + k for q, k in cells.items()): continue
                    if c0 is None and not S.gh.get('late') and not covered(r0.cells, o, n):
                        # bytes undefined at the header: reading them before writing yields arbitrary values anyway
                        continue
                    # widen to a union of cells
                    for q in list(cells):
                        if q[1] == rid and q[2] < o + n and o < q[2] + cells[q]:
                            lo = min(q[2], o); hi = max(q[2] + cells[q], o + n)
                            del cells[q]; cls.pop(q, None); o, n = lo, hi - lo
                    cells[('cell', rid, o)] = n; again = True
        if again: continue
        for s, sb in sink:
            fr = s.frames[-1]
            nv = {}
            for p in B.phis: nv[('phi', p.dst)] = self.deepsimp(s, self.val(s, fr, p.x[sb]))
            for ck, n in cells.items(): nv[ck] = cellval(s, ck, n)
            newvals.append((s, nv))
        for a, (v, init, base, e) in atoms.items():
            if v is not None and e > 1 and any(lindiv(sub(nv[v], const(base, 64)), e) is None for _, nv in newvals): unscaled.add(v); again = True
        if again: continue
        # ---------------------------------------------------------------- classify
        wrong = {v for v in opt if any(nv[v] is not hv[v] for _, nv in newvals)}
        if wrong:
            opt -= wrong; cells.clear(); arrs.clear(); arrdrop.clear(); unscaled.clear(); wcuts.clear(); cls.clear()
            for v in opt: cls[v] = ('same',)
            for v in wrong: cls[v] = ('fresh',)
            continue
        for v, t0 in allv.items():
            if v in cls: 
                cl = cls[v]
                if cl[0] == 'same' and any(nv[v] is not hv[v] for _, nv in newvals): cls[v] = ('fresh',); again = True
                if cl[0] == 'lin':
                    for _, nv in newvals:
                        d = sub(nv[v], hv[v])
                        if d.op != 'c' or d.a[0] != cl[1] & mask(t0.w): cls[v] = ('fresh',); again = True; break
                continue
            ds = []
            for _, nv in newvals:
                if t0.w == 0: ds.append(None if nv[v] is not hv[v] else 0); continue
                d = sub(nv[v], hv[v]); ds.append(d.a[0] if d.op == 'c' else None)
            if not ds: cls[v] = ('fresh',); continue
            if all(d == 0 for d in ds): cls[v] = ('same',); again = True
            elif t0.w > 1 and t0.w <= 64 and ds[0] is not None and all(d == ds[0] for d in ds): cls[v] = ('lin', ds[0]); again = True
            else: cls[v] = ('fresh',)
        if again: continue
        if first_writes(self, sink, arrs, havnodes, atoms, marker, wcuts): continue
        if uses_c: history(self, S, hs, sink, c, marker)
        # ---------------------------------------------------------------- check array facts
        bad = False
        for rid in arrs:
            old = self.node_of(S.mem[rid])
            esz = havnodes[rid][0][2]
            for item in list(afacts[rid]):
                _, desc, side, e = item
                ok = True
                for s, nv in newvals:
                    m = atommap(atoms, nv, hv, c)
                    e1 = subst(e, m, {})
                    o = scale(fresh('sk', 64), esz)
                    s2 = s.clone(); s2.env = None
                    self.quiet += 1
                    try:
                        g = ule(e1, o) if side == 'ge' else band(ult(o, e1), ule(addc(o, esz), e1))
                        self.assume(s2, g)
                        self.assume(s2, band(ule(const(esz, 64), S.mem[rid].size), ule(o, sub(S.mem[rid].size, const(esz, 64)))))
                        rr = s2.mem.get(rid)
                        a = self.arr_read(s2, self.node_of(rr), o, esz)
                        b = self.arr_read(s2, old, o, esz)
                        r = self.solver.check(s2.pc, bnot(eq(a, b)))
                        if r != 'unsat': ok = False
                    except PathEnd:
                        pass
                    finally:
                        self.quiet -= 1
                    if not ok: break
                if not ok:
                    arrdrop.add((rid, desc, side)); bad = True
        # entry check of array facts is trivial: header content == old content at entry
        if bad: continue
        # ---------------------------------------------------------------- candidates
        cands = templates(self, S, hs, atoms, allv, hv, cls, c if uses_c else None, cmps, marker)
        m0 = {a: i[1] for a, i in atoms.items()}
        live = []
        self.quiet += 1
        try:
            for cd in cands:
                e = cd.at(self, S, m0)
                if e.op == 'c':
                    if e is TRUE: live.append(cd)
                    elif DBG and isinstance(cd, Hint): print('ENTRY', cd.desc, cd.v)
                    continue
                if self.decide(S, e) is True: live.append(cd)
                elif DBG and isinstance(cd, Hint): print('ENTRY', cd.desc, cd.v, str(e)[:200])
        finally:
            self.quiet -= 1
        invs = []
        rounds = 0
        prev = None
        while rounds < 3:
            rounds += 1
            if rounds > 1:
                base = [x for x in hinv]
                sink, cmps = runbody(base)
                newvals = []
                for s, sb in sink:
                    fr = s.frames[-1]
                    nv = {}
                    for p in B.phis: nv[('phi', p.dst)] = self.deepsimp(s, self.val(s, fr, p.x[sb]))
                    for ck, n in cells.items(): nv[ck] = cellval(s, ck, n)
                    newvals.append((s, nv))
            cur = staged(self, hs, live, newvals, atoms, hv, c)
            ht = hs.clone(); ht.env = None
            hinv = []
            self.quiet += 1
            try:
                for cd in cur: hinv.append(cd.at(self, ht, None))
            finally: self.quiet -= 1
            # carry instantiation facts that evaluation of hints produced
            if prev is not None and len(cur) == prev: break
            prev = len(cur)
            if len(cur) == len(live): break
        live = cur
        if not self.quiet and not st.pure:
            # re-run the body under the final invariant so that back edges carry it
            tsink, tcmps = runbody([x for x in hinv])
            tvals = []
            for s, sb in tsink:
                fr = s.frames[-1]
                nv = {}
                for p in B.phis: nv[('phi', p.dst)] = self.deepsimp(s, self.val(s, fr, p.x[sb]))
                for ck, n in cells.items(): nv[ck] = cellval(s, ck, n)
                tvals.append((s, nv))
            self.quiet += 1
            try: meas = term_measure(self, S, hs, tvals, atoms, hv, c if uses_c else None, key, tcmps, marker)
            finally: self.quiet -= 1
            self.measures[key] = meas
            if not S.gh.get('partial'):
                self.obl_flag(S, meas is not None, 'termination', 'loop terminates (ranking function)', B.ins[0].loc if B.ins else None)
        rec = self.loops_cut.setdefault(key, {'candidates': 0, 'kept': 0, 'loc': B.ins[0].loc if B.ins else None, 'inv': []})
        rec['candidates'] = max(rec['candidates'], len(cands)); rec['kept'] = max(rec['kept'], len(live)); rec['inv'] = [cd.desc for cd in live]
        if self.verbose > 1:
            print('CUT', key, 'loc', rec['loc'], 'kept', [str(cd.desc) for cd in live], 'cls', cls, 'arr', [(x[1], x[2]) for a in afacts.values() for x in a])
        fs = hs
        fs.frames[-1].loops[-1].mode = 'final'
        self.quiet += 1
        try:
            try:
                for cd in live: self.assume(fs, cd.at(self, fs, None))
            finally: self.quiet -= 1
        except PathEnd:
            return []
        fs.env = None
        return [fs]
    raise Unsupported('loop summarisation did not converge at %s' % (key,))

cls_dead = ()

def unext(t):
    """a 64-bit term congruent to t modulo 2^t.w"""
    if t.w == 64: return t
    if t.op == 'ext' and t.a[2] == 0 and t.a[0].w == 64: return t.a[0]
    if t.op == 'lin':
        r = const(sval(const(t.a[0], t.w)), 64)
        for at, k in t.a[1]: r = add(r, scale(unext(at), sval(const(k, t.w))))
        return r
    if t.op == 'c': return const(sval(t), 64)
    return zext(t, 64)

def history(self, S, hs, sink, c, marker):
    """Universally quantified history: a fact over the iteration counter and loop-constant terms that holds on every back
    edge held in every earlier iteration. Assumed for iteration k < it, whenever a read can be matched to iteration k."""
    names = {}
    for rid, r in S.mem.items():
        if r.cells is not None: continue
        nd = r.node
        while nd[0] in ('w', 'copy', 'set'): nd = nd[-1]
        if nd[0] in ('uf', 'undef', 'hav'): names[nd[1]] = (rid, nd[2])
    n0 = len(hs.pc)
    alts = []
    for s, _ in sink:
        keep = []
        for t in s.pc[n0:]:
            has_c = has_u = False; ok = True
            for x in tm.allsub(t):
                if x.op == 'v':
                    if x is c: has_c = True
                    elif x.id > marker: ok = False; break
                elif x.op == 'uf':
                    if x.a[0] not in names: ok = False; break
                    has_u = True
            if ok and has_c and has_u and tsize(t) <= 24: keep.append(t)
        if not keep: return
        alts.append(conj(keep))
    if not alts: return
    phi = disj(alts)
    if phi is TRUE: return
    done = set()
    for x in list(tm.allsub(phi)):
        if x.op != 'uf' or len(x.a) != 2: continue
        rid, esz = names[x.a[0]]
        arg = x.a[1]
        at = c if arg.w == 64 else extract(c, arg.w - 1, 0)
        if arg is at: coef, rest = 1, const(0, arg.w)
        elif arg.op == 'lin':
            coef = dict(arg.a[1]).get(at)
            if coef is None: continue
            rest = sub(arg, scale(at, coef))
            if coef == mask(arg.w): coef = -1
            elif coef != 1: continue
        else: continue
        if any(y is c for y in tm.allsub(rest)) or (rid, x) in done: continue
        done.add((rid, x))
        def fact(st, off, n, rid=rid, esz=esz, rest=rest, coef=coef, x=x):
            if n != esz: return None
            lg = esz.bit_length() - 1
            if lg:
                low = extract(off, lg - 1, 0)
                if low.op != 'c' or low.a[0]: return None
            idx = extract(off, 63, lg) if lg else off
            if idx.w != rest.w: return None
            k = unext(sub(idx, rest) if coef == 1 else sub(rest, idx))
            inst = subst(phi, {c: k}, {})
            for y in tm.allsub(inst):
                if y.op == 'uf' and len(y.a) == 2 and y.a[0] in names and y.a[0] != x.a[0]:
                    r2, e2 = names[y.a[0]]
                    r2 = st.mem.get(r2)
                    if r2 is not None: self.trigger(st, r2, scale(unext(y.a[1]), e2), e2)
            return implies(ult(k, c), inst)
        self.add_forall(hs, rid, fact)

def covered(cells, o, n):
    for q in range(o - 15, o + n):
        c = cells.get(q)
        if c is not None and q + c[0] > o: return True
    return False

def atommap(atoms, nv, hv, c):
    m = {}
    for a, (v, init, base, e) in atoms.items():
        if v is None: m[a] = addc(a, 1)
        else: m[a] = lindiv(sub(nv[v], const(base, 64)), e) if base else nv[v]
    return m

import os
DBG = os.environ.get('VP_HOUD')
def staged(self, hs, cands, newvals, atoms, hv, c):
    """plain predicates first (cheap); then specification hints under the surviving ones, one per provably distinct argument"""
    hints = [cd for cd in cands if isinstance(cd, Hint)]
    if not hints: return houdini(self, hs, cands, newvals, atoms, hv, c)
    plain = houdini(self, hs, [cd for cd in cands if isinstance(cd, Cand)], newvals, atoms, hv, c)
    reps = []
    pc = hs.pc + [cd.p for cd in plain if cd.p.op != 'c']
    models = []
    def same(a, b):
        if a is b: return True
        d = bnot(eq(a, b))
        for env, memo in models:
            if evalt(d, env, memo): return False
        r = self.solver.check(pc, d, want_model=True)
        if r == 'sat' and self.solver.lastmodel is not None: models.append((self.solver.lastmodel, {}))
        return r == 'unsat'
    for h in hints:
        if isinstance(h.v, tuple): reps.append(h); continue
        if h.v is not None and any(not isinstance(r.v, tuple) and r.v is not None and r.fn == h.fn and r.ctx is h.ctx and r.v.w == h.v.w and same(r.v, h.v) for r in reps): continue
        reps.append(h)
    if DBG: print('STAGED', len(hints), [str(h.v) for h in reps][:20])
    return houdini(self, hs, plain + reps, newvals, atoms, hv, c, set(map(id, plain)))

def houdini(self, hs, cands, newvals, atoms, hv, c, done=()):
    from exec import PathEnd
    cur = list(cands)
    pre = {}
    self.quiet += 1
    try:
        # evaluate once per sink state
        sinks = []
        for s, nv in newvals:
            s = s.clone(); s.env = None
            m = atommap(atoms, nv, hv, c)
            try:
                cons = {}
                ante = {}
                for cd in cur:
                    ante[cd] = cd.at(self, s, None) if isinstance(cd, Cand) else None
                for cd in cur:
                    cons[cd] = cd.at(self, s, m) if id(cd) not in done else TRUE
                sinks.append((s, ante, cons))
            except PathEnd:
                continue
        # hints at the header must be evaluated in the header state
        h2 = hs.clone(); h2.env = None
        hh = {}
        n0 = len(h2.pc)
        for cd in cur:
            if not isinstance(cd, Cand):
                try: hh[cd] = cd.at(self, h2, None)
                except PathEnd: hh[cd] = FALSE
        extra = h2.pc[n0:]
        changed = True
        while changed:
            changed = False
            for s, ante, cons in sinks:
                while True:
                    A = [hh[cd] if ante.get(cd) is None else ante[cd] for cd in cur]
                    C = [(cd, cons[cd]) for cd in cur if cons[cd] is not TRUE and id(cd) not in done]
                    if not C: break
                    goal = conj([t for _, t in C])
                    if goal is TRUE: break
                    pc = s.pc + [e for e in extra] + [a for a in A if a.op != 'c' or a is FALSE]
                    if any(a is FALSE for a in A): break
                    r = self.solver.check(pc, bnot(goal), want_model=True)
                    if r == 'unsat': break
                    if r == 'sat':
                        env = self.solver.lastmodel; memo = {}
                        drop = [cd for cd, t in C if evalt(t, env, memo) == 0]
                        if not drop:
                            drop = [cd for cd, t in C if self.solver.check(pc, bnot(t)) != 'unsat']
                            if not drop: break
                    else:
                        small = s.pc[:n0] + [a for cd, a in zip(cur, A) if isinstance(cd, Cand) and a.op != 'c']
                        plain = s.pc + small[n0:]
                        drop = [cd for cd, t in C if self.solver.check(plain, bnot(t)) != 'unsat' and self.solver.check(pc, bnot(t)) != 'unsat']
                        if not drop: break
                    if DBG:
                        for cd in drop:
                            if isinstance(cd, Hint): print('DROP', r, cd.desc, str(cd.v)[:100], '\n    ', str(cons[cd])[:300])
                    ds = set(map(id, drop))
                    cur = [cd for cd in cur if id(cd) not in ds]
                    changed = True
        return cur
    finally:
        self.quiet -= 1

def first_writes(self, sink, arrs, havnodes, atoms, marker, wcuts):
    """where in each array the first iteration writes: everything before and after stays as it was"""
    new = False
    m0 = {a: i[1] if i[2] == 0 or i[3] == 1 else i[1] for a, i in atoms.items()}
    for rid in arrs:
        ws = wcuts.setdefault(rid, [])
        for s, _ in sink:
            r = s.mem.get(rid)
            if r is None or r.cells is not None: continue
            nd = r.node; top = havnodes[rid][0]
            while nd is not top and nd[0] in ('w', 'copy', 'set'):
                off = nd[1]
                n = nd[2] if nd[0] == 'w' else None
                for e in ([off] if n is None else [off, addc(off, n)]):
                    e = subst(e, m0, {})
                    if len(ws) >= 6 or any(e is x for x in ws) or tsize(e) > 40 or newvars(e, marker, ()): continue
                    ws.append(e); new = True
                nd = nd[-1]
    return new

def array_cuts(self, S, r, hv, allv, cls):
    out = [(r.size, 'all')]
    for v, t in hv.items():
        if t.w != 64: continue
        cp = t.a[0] if t.op in ('c', 'lin') else 0
        from exec import SLOT
        if (cp + (1 << (SLOT - 1))) >> SLOT == r.id:
            out.append((sub(t, const(r.base, 64)), 'cur%s' % (v,)))
            if cls.get(v, ('x',))[0] != 'same':
                out.append((sub(allv[v], const(r.base, 64)), 'init%s' % (v,)))
        elif cp >> SLOT == 0 and cls.get(v, ('x',))[0] != 'same':
            esz = max(r.esz, 1)
            for k in sorted({1, esz}):
                out.append((scale(t, k), 'idx%d%s' % (k, v)))
    return out

def tsize(t):
    n = 0
    for _ in tm.allsub(t):
        n += 1
        if n > 40: break
    return n

def lindiv(t, s):
    """t / s when every coefficient is a multiple of s, else None (s a power of two; any preimage of x -> s*x will do)"""
    if s == 1: return t
    if t.op == 'c': return const(t.a[0] // s, t.w) if t.a[0] % s == 0 else None
    if t.op == 'lin':
        half = 1 << (t.w - 1)
        if t.a[0] % s or any(k % s for _, k in t.a[1]): return None
        r = const((t.a[0] - (1 << t.w) if t.a[0] >= half else t.a[0]) // s, t.w)
        for at, k in t.a[1]: r = add(r, scale(at, (k - (1 << t.w) if k >= half else k) // s))
        return r
    return None

def exact_div(t, s):
    if s == 1: return t
    if s & (s - 1) == 0:
        r = lindiv(t, s)
        if r is not None: return r
    if s & (s - 1) == 0:
        lg = s.bit_length() - 1
        return zext(extract(t, t.w - 1, lg), t.w)
    return udiv(t, const(s, t.w))

def newvars(t, marker, ok):
    for x in tm.subterms([t]):
        if x.op == 'v' and x.id >= marker and x not in ok: return True
        if x.op == 'uf' and isinstance(x.a[0], str) and x.a[0].startswith('hav.'): return True
    return False

def templates(self, S, hs, atoms, allv, hv, cls, c, cmps, marker):
    out = []
    seen = set()
    aset = set(atoms)
    def addc_(p, desc):
        if p.op == 'c' or p in seen: return
        seen.add(p); out.append(Cand(p, desc))
    nonlin = [a for a in atoms if a is not c]
    for a in nonlin:
        v, init, base, esc = atoms[a]
        if a.w == 0:
            addc_(a, '%s' % (v,)); addc_(bnot(a), 'not %s' % (v,)); addc_(eq(a, init), '%s=init' % (v,)); continue
        addc_(eq(a, init), '%s=init' % (v,))
        addc_(ule(a, init), '%s<=init' % (v,)); addc_(ule(init, a), '%s>=init' % (v,))
        addc_(sle(a, init), '%s s<=init' % (v,)); addc_(sle(init, a), '%s s>=init' % (v,))
        if a.w >= 8:
            for k in (1, 2, 3, 4):
                if k < a.w:
                    d = extract(sub(a, init), k - 1, 0)
                    addc_(eq(d, const(0, k)), '%s aligned %d' % (v, 1 << k))
    for i, a in enumerate(nonlin):
        for b in nonlin[i + 1:]:
            if a.w != b.w or a.w < 8: continue
            va, ia = atoms[a][:2]; vb, ib = atoms[b][:2]
            n = '%s ? %s' % (va, vb)
            addc_(ule(a, b), 'pair<= ' + n); addc_(ule(b, a), 'pair>= ' + n); addc_(eq(a, b), 'pair= ' + n)
            addc_(eq(sub(a, b), sub(ia, ib)), 'diff ' + n); addc_(eq(add(a, b), add(ia, ib)), 'sum ' + n)
            s = add(a, b); si = add(ia, ib)
            addc_(band(ule(s, si), ule(a, s)), 'sum<=init ' + n); addc_(band(ule(si, s), ule(a, s)), 'sum>=init ' + n)
            for t in bounds_pool(cmps, aset, a.w, marker):
                addc_(band(ule(s, t), ule(a, s)), 'sum<=%s %s' % (t, n))
    # one variable is the distance between two others
    ints = [a for a in nonlin if a.w == 64 and not atoms[a][2]]
    if 3 <= len(ints) <= 6:
        for i, a in enumerate(ints):
            for j, b in enumerate(ints):
                for k in range(len(ints)):
                    if i == j or k in (i, j) or j == k: continue
                    x = ints[k]
                    if eval_init(sub(sub(a, b), x), atoms): addc_(eq(x, sub(a, b)), 'distance %s=%s-%s' % (atoms[x][0], atoms[a][0], atoms[b][0]))
    # position + remaining elements * element size = end
    for a in nonlin:
        va, ia, base, esc = atoms[a]
        if esc != 1: continue
        if not base: continue
        r = S.mem.get((base + (1 << 39)) >> 40)
        for b in nonlin:
            if b is a or b.w != 64 or atoms[b][2]: continue
            for e in sorted({2, 4, 8, 16, r.esz if r is not None else 2}):
                if e < 2: continue
                addc_(eq(add(a, scale(b, e)), add(ia, scale(atoms[b][1], e))), '%s+%d*%s' % (va, e, atoms[b][0]))
                addc_(eq(sub(a, scale(b, e)), sub(ia, scale(atoms[b][1], e))), '%s-%d*%s' % (va, e, atoms[b][0]))
    # values relative to c
    if c is not None:
        for a in nonlin:
            if a.w == 64:
                addc_(ule(a, c), '%s<=it' % (atoms[a][0],)); addc_(ule(c, a), '%s>=it' % (atoms[a][0],))
                addc_(ule(sub(a, atoms[a][1]), c), '%s-init<=it' % (atoms[a][0],))
        for v, cl in cls.items():
            if cl[0] != 'lin': continue
            t0 = allv[v]
            if t0.w != 64: 
                if t0.w < 64:
                    d = cl[1]
                    if d >> (t0.w - 1): d -= 1 << t0.w
                    addc_(ule(c, const(mask(t0.w), 64)), 'it fits')
                    for t in bounds_pool(cmps, aset, t0.w, marker):
                        diff = sub(t, t0) if d > 0 else sub(t0, t)
                        q = exact_div(diff, abs(d))
                        addc_(ule(c, zext(q, 64)), 'it<=(%s-init)/%d' % (t, d))
                continue
            d = cl[1]
            if d >> 63: d -= 1 << 64
            for t in bounds_pool(cmps, aset, 64, marker):
                diff = sub(t, t0) if d > 0 else sub(t0, t)
                q = exact_div(diff, abs(d))
                addc_(ule(c, q), 'it<=(%s-init)/%d' % (t, d))
                addc_(ult(c, q), 'it<(%s-init)/%d' % (t, d))
            # stay inside the region being walked
            cp = t0.a[0] if t0.op in ('c', 'lin') else 0
            r = S.mem.get((cp + (1 << 39)) >> 40)
            if r is not None:
                off = sub(t0, const(r.base, 64))
                q = exact_div(sub(r.size, off), abs(d)) if d > 0 else exact_div(off, abs(d))
                addc_(ule(c, q), 'it within object')
    for a in nonlin:
        v, init, base, esc = atoms[a]
        if base:
            r = S.mem.get(base >> 40)
            if r is not None: addc_(ule(a, exact_div(r.size, esc)), '%s within object' % (v,))
    # comparisons met in the body
    for x, y, r in cmps[:400]:
        if x.w == 0: continue
        if newvars(r, marker, aset) or tsize(x) + tsize(y) > 24: continue
        if not any(s in aset for s in tm.subterms([r])): continue
        for p in (ult(x, y), ule(x, y), ult(y, x), ule(y, x), slt(x, y), sle(x, y), slt(y, x), sle(y, x), eq(x, y)):
            addc_(p, str(p))
        if x.w == 64:
            # strip object base from pointer comparisons
            pass
    # observed constants
    # hints
    for fn, ctx, kind in S.hints:
        if kind == 0:
            out.append(Hint(fn, ctx, None, 'hint %s' % fn)); continue
        if isinstance(kind, tuple):
            rid, off0, esz = kind; pos = set(); oth = set()
            for v, t in hv.items():
                if t.w == 0 or t.w > 64: continue
                cp = t.a[0] if t.op in ('c', 'lin') else 0
                if t.w == 64 and not (cp >> 63) and (cp + (1 << 39)) >> 40 == rid:
                    if cls.get(v, ('x',))[0] != 'same': pos.add(exact_div(sub(sub(t, const(S.mem[rid].base, 64)), off0), esz))
                elif t.w == 64 and cp >> 39 and S.mem.get((cp + (1 << 39)) >> 40) is not None: continue
                elif cls.get(v, ('x',))[0] != 'same': oth.add(t if t.w == 64 else zext(t, 64)); oth.add(t if t.w == 64 else sext(t, 64))
            if DBG: print('HINT2', fn, [str(p) for p in pos], [str(p) for p in oth], {k:str(t)[:60] for k,t in hv.items()})
            for p in sorted(pos, key=lambda t: t.id):
                for t in sorted(oth, key=lambda t: t.id): out.append(Hint(fn, ctx, (p, t), 'hint %s(%s, %s)' % (fn, p, t)))
            continue
        vals = set(); plain_ = kind >> 32; kind &= 0xffffffff
        for v, t in hv.items():
            if cls.get(v, ('x',))[0] == 'same' or t.w == 0: continue
            if t.w == 64:
                cp = t.a[0] if t.op in ('c', 'lin') else 0
                r = S.mem.get((cp + (1 << 39)) >> 40) if not (cp >> 63) else None
                if r is not None and cp >> 39:
                    off = sub(t, const(r.base, 64))
                    if plain_: vals.add(exact_div(off, kind)); continue
                    for e in sorted({1, kind}):
                        vals.add(exact_div(off, e))
                    # relative to the entry position
                    rel = sub(t, allv[v])
                    vals.add(exact_div(rel, kind))
                else:
                    vals.add(t)
            elif t.w < 64:
                vals.add(zext(t, 64)); vals.add(sext(t, 64))
        if plain_:
            for t in sorted(vals, key=lambda t: t.id): out.append(Hint(fn, ctx, t, 'hint %s(%s)' % (fn, t)))
            continue
        if c is not None: vals.add(c)
        extra = set()
        vl = sorted(vals, key=lambda t: t.id)
        for i in range(len(vl)):
            for j in range(len(vl)):
                if i < j and len(vl) <= 6: extra.add(add(vl[i], vl[j]))
                if i != j and len(vl) <= 4: extra.add(sub(vl[i], vl[j]))
        # remaining-length style variables: size - x
        for t in sorted(vals | extra, key=lambda t: t.id):
            out.append(Hint(fn, ctx, t, 'hint %s(%s)' % (fn, t)))
        for b in S.bufs:
            for t in vl:
                out.append(Hint(fn, ctx, sub(b[2], t), 'hint %s(%s - %s)' % (fn, b[2], t)))
    return out

def eval_init(t, atoms):
    """whether t is syntactically zero with every loop variable at its initial value"""
    z = subst(t, {a: v[1] for a, v in atoms.items() if v[1].w == a.w}, {})
    return z.op == 'c' and z.a[0] == 0

def bounds_pool(cmps, aset, w, marker):
    pool = []
    seen = set()
    for x, y, r in cmps[:400]:
        if x.w != w: continue
        for a, b in ((x, y), (y, x)):
            if b in seen: continue
            sa = any(s in aset for s in tm.subterms([a])); sb = any(s in aset for s in tm.subterms([b]))
            if sa and not sb and not newvars(b, marker, aset):
                seen.add(b); pool.append(b)
                if a.op == 'lin' and len(a.a[1]) == 1 or True:
                    # the compared expression may be var + const: shift the bound accordingly
                    if a.op == 'lin' and a.a[0] and b.op != 'c':
                        t = addc(b, -a.a[0])
                        if t not in seen: seen.add(t); pool.append(t)
                    elif a.op == 'lin' and a.a[0] and b.op == 'c':
                        t = addc(b, -a.a[0])
                        if t not in seen: seen.add(t); pool.append(t)
    return pool[:12]

def term_measure(self, S, hs, newvals, atoms, hv, c, key, cmps, marker):
    """Look for a quantity that strictly decreases (unsigned 64-bit, hence well-founded) on every back edge."""
    if not newvals: return 'no back edge'
    aset = set(atoms)
    al = [a for a in atoms if a.w >= 8]
    pool = list(al)
    if c is not None:
        for t in bounds_pool(cmps, aset, 64, marker): pool.append(sub(t, c))
        for a in al: 
            if a.w == 64: pool.append(sub(a, c))
        pool.append(neg(c))
    for a in al:
        if a is c: continue
        for t in bounds_pool(cmps, aset, a.w, marker): pool.append(sub(t, a))
        for b in al:
            if b is not a and b is not c and b.w == a.w: pool.append(sub(a, b))
        v, init, base, esc = atoms[a]
        if base:
            r = S.mem.get(base >> 40)
            if r is not None: pool.append(sub(exact_div(r.size, esc), a))
    for v, t in hv.items():
        # linear variables not represented by atoms (counter-derived)
        if t not in aset and t.w == 64 and t.op == 'lin' and c is not None and c in [x for x, _ in t.a[1]]:
            pool.append(t); pool.append(neg(t))
    for x, y, r in cmps[:60]:
        if x.w == 64 and not newvars(r, marker, aset):
            pool.append(sub(x, y)); pool.append(sub(y, x))
    seen = set()
    ms = [atommap(atoms, nv, hv, c) for _, nv in newvals]
    for p in pool:
        if p in seen or p.op == 'c' or len(seen) > 120: continue
        seen.add(p)
        ok = True
        for (s, nv), m in zip(newvals, ms):
            q = subst(p, m, {})
            if self.solver.check(s.pc, bnot(ult(q, p))) != 'unsat': ok = False; break
        if ok: return str(p)
    # lexicographic pairs / sums of two loop variables
    for i, a in enumerate(al):
        for b in al[i + 1:]:
            if a.w != b.w or a.w > 64: continue
            p = add(zext(a, 66), zext(b, 66))
            ok = True
            for (s, nv), m in zip(newvals, ms):
                if self.solver.check(s.pc, bnot(ult(subst(p, m, {}), p))) != 'unsat': ok = False; break
            if ok: return str(p)
    return None
