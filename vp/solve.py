"""z3 back end (cvc5 as second opinion) for term.py terms."""
import time, subprocess, os, tempfile
import z3
from term import *
import term as tm
from lia import Lia

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unknown = 0; self.cvc5 = 0; self.modelhits = 0
        self.by = {'z3': 0, 'z3-int': 0, 'z3-fresh': 0, 'cvc5': 0, 'syntactic': 0}

class Conv:
    def __init__(self):
        self.memo = {}
        self.ufs = {}
    def __call__(self, t):
        memo = self.memo
        r = memo.get(t)
        if r is not None: return r
        st = [t]
        while st:
            x = st[-1]
            if x in memo: st.pop(); continue
            op = x.op
            if op == 'lin': kids = [p[0] for p in x.a[1]]
            elif op == 'uf': kids = x.a[1:]
            elif op == 'ext': kids = x.a[:1]
            elif op in ('c', 'v'): kids = ()
            else: kids = x.a
            need = [k for k in kids if k not in memo]
            if need: st.extend(need); continue
            st.pop()
            memo[x] = self.one(x, op, [memo[k] for k in kids])
        return memo[t]
    def one(self, x, op, k):
        w = x.w
        if op == 'c':
            return z3.BitVecVal(x.a[0], w) if w else z3.BoolVal(bool(x.a[0]))
        if op == 'v':
            return z3.BitVec(x.a[0], w) if w else z3.Bool(x.a[0])
        if op == 'lin':
            r = None
            half = 1 << (w - 1)
            for (at, c), z in zip(x.a[1], k):
                sc = c - (1 << w) if c > half else c
                if sc == 1: term = z
                elif sc == -1:
                    r = -z if r is None else r - z
                    continue
                elif c & (c - 1) == 0: term = z << z3.BitVecVal(c.bit_length() - 1, w)
                else: term = z * z3.BitVecVal(c, w)
                r = term if r is None else r + term
            if x.a[0]: r = r + z3.BitVecVal(x.a[0], w)
            return r
        if op == 'ite': return z3.If(k[0], k[1], k[2])
        if op == 'eq': return k[0] == k[1]
        if op == 'ult': return z3.ULT(k[0], k[1])
        if op == 'slt': return k[0] < k[1]
        if op == 'band': return z3.And(k[0], k[1])
        if op == 'bor': return z3.Or(k[0], k[1])
        if op == 'bnot': return z3.Not(k[0])
        if op == 'zext': return z3.ZeroExt(w - x.a[0].w, k[0])
        if op == 'sext': return z3.SignExt(w - x.a[0].w, k[0])
        if op == 'ext': return z3.Extract(x.a[1], x.a[2], k[0])
        if op == 'concat': return z3.Concat(k[0], k[1])
        if op == 'and': return k[0] & k[1]
        if op == 'or': return k[0] | k[1]
        if op == 'xor': return k[0] ^ k[1]
        if op == 'mul': return k[0] * k[1]
        if op == 'shl': return k[0] << k[1]
        if op == 'lshr': return z3.LShR(k[0], k[1])
        if op == 'ashr': return k[0] >> k[1]
        if op == 'udiv': return z3.UDiv(k[0], k[1])
        if op == 'urem': return z3.URem(k[0], k[1])
        if op == 'sdiv': return k[0] / k[1]
        if op == 'srem': return z3.SRem(k[0], k[1])
        if op == 'uf':
            key = (x.a[0], tuple(a.w for a in x.a[1:]), w)
            f = self.ufs.get(key)
            if f is None:
                f = z3.Function(x.a[0], *[z3.BitVecSort(a.w) for a in x.a[1:]], z3.BitVecSort(w) if w else z3.BoolSort())
                self.ufs[key] = f
            return f(*k)
        raise NotImplementedError(op)

class Solver:
    def __init__(self, stats, deadline=None):
        self.conv = Conv()
        self.stats = stats
        self.s = z3.Solver()
        self.ms = 250
        self.s.set('timeout', self.ms)
        self.lia = Lia()
        self.stack = []
        self.deadline = deadline
        self.lastmodel = None
        self.long_ms = 30000 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 240000

    def sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]: n += 1
        d = len(st) - n
        if d:
            self.s.pop(d); del st[n:]
        for t in pc[n:]:
            self.s.push(); self.s.add(self.conv(t)); st.append(t)

    def check(self, pc, extra, want_model=False, hard=False):
        """-> 'sat'/'unsat'/'unknown'; model in self.lastmodel (env dict) if sat and wanted."""
        if extra.op == 'c' and extra.a[0] == 0: return 'unsat'
        t0 = time.time()
        if self.deadline and t0 > self.deadline: raise TimeoutError('deadline')
        self.stats.queries += 1
        self.lastmodel = None
        self.sync(pc)
        self.s.push()
        try:
            self.s.add(self.conv(extra))
            r = self.s.check()
            if r == z3.unknown:
                # the same question over the integers, then the bit-vectors again with more time
                if self.lia.check(relevant(pc, extra) + [extra], 2000) == z3.unsat:
                    self.stats.by['z3-int'] += 1
                    return 'unsat'
                self.s.set('timeout', 4000)
                try: r = self.s.check()
                finally: self.s.set('timeout', self.ms)
            if r == z3.sat:
                if want_model: self.lastmodel = self.model_env(self.s.model(), list(pc) + [extra])
                return 'sat'
            if r == z3.unsat:
                self.stats.by['z3'] += 1
                return 'unsat'
        finally:
            self.s.pop()
            dt = time.time() - t0
            self.stats.time += dt
            if SLOW and dt > SLOW:
                print('SLOW', round(dt, 2), r, 'pc', len(pc))
                if os.environ.get('VP_SLOWQ'):
                    for p in relevant(pc, extra): print('     PC', str(p)[:400])
                    print('     Q', str(extra)[:600])
        if not hard:
            self.stats.unknown += 1
            return 'unknown'
        return self.hardcheck(pc, extra, want_model)

    def hardcheck(self, pc, extra, want_model):
        t0 = time.time()
        for mk in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'bv1-blast' if False else 'simplify', 'smt').solver(),
                   lambda: z3.SolverFor('QF_UFBV')):
            s = mk()
            s.set('timeout', self.long_ms // 2)
            for t in relevant(pc, extra): s.add(self.conv(t))
            s.add(self.conv(extra))
            r = s.check()
            if r == z3.unsat:
                self.stats.by['z3-fresh'] += 1; self.stats.time += time.time() - t0
                return 'unsat'
            if r == z3.sat:
                # relevant() may have dropped constraints: recheck fully
                s2 = z3.Solver(); s2.set('timeout', self.long_ms)
                for t in pc: s2.add(self.conv(t))
                s2.add(self.conv(extra))
                r2 = s2.check()
                self.stats.time += time.time() - t0
                if r2 == z3.sat:
                    if want_model: self.lastmodel = self.model_env(s2.model(), list(pc) + [extra])
                    return 'sat'
                if r2 == z3.unsat: return 'unsat'
                return 'unknown'
        # second back end
        s = z3.Solver()
        for t in relevant(pc, extra): s.add(self.conv(t))
        s.add(self.conv(extra))
        r = cvc5_check(s.to_smt2(), self.long_ms)
        self.stats.time += time.time() - t0
        if r == 'unsat':
            self.stats.by['cvc5'] += 1
            return 'unsat'
        self.stats.unknown += 1
        return 'unknown'

    def model_env(self, m, roots):
        env = {}
        uu = []
        for x in tm.subterms(roots):
            if x.op == 'v':
                v = m.eval(self.conv(x), model_completion=True)
                env[x.a[0]] = (1 if z3.is_true(v) else 0) if x.w == 0 else v.as_long()
            else: uu.append(x)
        for x in uu:
            v = m.eval(self.conv(x), model_completion=True)
            v = (1 if z3.is_true(v) else 0) if x.w == 0 else v.as_long()
            args = tuple(m.eval(self.conv(a), model_completion=True).as_long() for a in x.a[1:])
            env[('uf', x.a[0]) + args] = v
        return env

SLOW = float(os.environ.get('VP_SLOW', '0'))

def relevant(pc, extra):
    """Cone of influence on shared variables/ufs (sound for unsat)."""
    vs = [set(t.a[0] for t in tm.subterms([p])) for p in pc]
    cur = set(t.a[0] for t in tm.subterms([extra]))
    inc = [False] * len(pc)
    ch = True
    while ch:
        ch = False
        for i, s in enumerate(vs):
            if not inc[i] and s & cur:
                inc[i] = True; cur |= s; ch = True
    return [p for i, p in enumerate(pc) if inc[i]]

def cvc5_check(smt, ms):
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + smt)
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 10)
        out = p.stdout.strip().split('\n')[0]
        os.unlink(f.name)
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
