"""Integer view of a bit-vector query: every w-bit term becomes an integer in [0, 2^w); linear terms carry an explicit
wrap-around count, so the translation is exact where it applies. Operations outside it become unconstrained integers of
their range, which only weakens the query: an 'unsat' answer is an 'unsat' of the bit-vector query, nothing else is used."""
import z3
from term import *
import term as tm

class Lia:
    def __init__(self):
        self.memo = {}      # term -> (z3 expr, lo, hi)  (lo/hi None for Bool)
        self.side = {}      # term -> list of side constraints
        self.ufs = {}
        self.n = 0
    def fresh(self, lo, hi, side):
        self.n += 1
        v = z3.Int('k!%d' % self.n)
        side.append(v >= lo); side.append(v <= hi)
        return v
    def __call__(self, t):
        memo = self.memo
        if t in memo: return memo[t][0]
        st = [t]
        while st:
            x = st[-1]
            if x in memo: st.pop(); continue
            op = x.op
            if op == 'lin': kids = [p[0] for p in x.a[1]]
            elif op == 'uf': kids = x.a[1:]
            elif op == 'ext': kids = x.a[:1]
            elif op in ('c', 'v'): kids = ()
            else: kids = x.a
            need = [k for k in kids if k not in memo]
            if need: st.extend(need); continue
            st.pop()
            side = []
            memo[x] = self.one(x, op, kids, [memo[k] for k in kids], side)
            if side: self.side[x] = side
        return memo[t][0]
    def wrap(self, e, lo, hi, w, side):
        m = 1 << w
        a, b = lo // m, hi // m
        if a == b:
            return (e - a * m if a else e), lo - a * m, hi - a * m
        k = self.fresh(a, b, side)
        r = e - m * k
        side.append(r >= 0); side.append(r < m)
        return r, 0, m - 1
    def signed(self, k, w):
        e, lo, hi = k
        h = 1 << (w - 1)
        if hi < h: return e
        if lo >= h: return e - (1 << w)
        return z3.If(e >= h, e - (1 << w), e)
    def one(self, x, op, kids, k, side):
        w = x.w; m = 1 << w
        B = lambda e: (e, None, None)
        if op == 'c':
            return (z3.IntVal(x.a[0]), x.a[0], x.a[0]) if w else B(z3.BoolVal(bool(x.a[0])))
        if op == 'v':
            if not w: return B(z3.Bool(x.a[0]))
            v = z3.Int(x.a[0]); side += [v >= 0, v < m]
            return v, 0, m - 1
        if op == 'lin':
            e = z3.IntVal(0); lo = hi = 0; half = m >> 1
            c0 = x.a[0] - m if x.a[0] > half else x.a[0]
            for (at, c), (z, l, h) in zip(x.a[1], k):
                s = c - m if c > half else c
                e = e + s * z
                lo += s * l if s > 0 else s * h; hi += s * h if s > 0 else s * l
            return self.wrap(e + c0, lo + c0, hi + c0, w, side)
        if op == 'ite':
            e = z3.If(k[0][0], k[1][0], k[2][0])
            return (e, min(k[1][1], k[2][1]), max(k[1][2], k[2][2])) if w else B(e)
        if op == 'eq':
            return B(k[0][0] == k[1][0])
        if op == 'ult': return B(k[0][0] < k[1][0])
        if op == 'slt': return B(self.signed(k[0], kids[0].w) < self.signed(k[1], kids[0].w))
        if op == 'band': return B(z3.And(k[0][0], k[1][0]))
        if op == 'bor': return B(z3.Or(k[0][0], k[1][0]))
        if op == 'bnot': return B(z3.Not(k[0][0]))
        if op == 'zext': return k[0]
        if op == 'sext':
            e, lo, hi = k[0]; kw = kids[0].w; h = 1 << (kw - 1)
            if hi < h: return k[0]
            return z3.If(e >= h, e - (1 << kw) + m, e), 0, m - 1
        if op == 'ext':
            e, lo, hi = k[0]; top, bot = x.a[1], x.a[2]
            if hi < (1 << (top + 1)) and bot == 0: return k[0]
            r = self.fresh(0, m - 1, side)
            s = r if bot == 0 else r * (1 << bot) + self.fresh(0, (1 << bot) - 1, side)
            if hi >> (top + 1): s = s + (1 << (top + 1)) * self.fresh(0, hi >> (top + 1), side)
            side.append(e == s)
            return r, 0, m - 1
        if op == 'concat':
            lw = kids[1].w
            return k[0][0] * (1 << lw) + k[1][0], (k[0][1] << lw) + k[1][1], (k[0][2] << lw) + k[1][2]
        if op == 'shl' and kids[1].op == 'c' and kids[1].a[0] < w:
            s = 1 << kids[1].a[0]
            return self.wrap(k[0][0] * s, k[0][1] * s, k[0][2] * s, w, side)
        if op in ('lshr', 'udiv', 'urem') and kids[1].op == 'c':
            d = kids[1].a[0]
            if op == 'lshr': d = 1 << d if d < w else 0
            if d > 0:
                q = self.fresh(k[0][1] // d, k[0][2] // d, side); r = self.fresh(0, d - 1, side)
                side.append(k[0][0] == q * d + r)
                return (r, 0, d - 1) if op == 'urem' else (q, k[0][1] // d, k[0][2] // d)
        if op == 'and':
            hi = min(k[0][2], k[1][2])
            v = self.fresh(0, hi, side); side += [v <= k[0][0], v <= k[1][0]]
            return v, 0, hi
        if op == 'or':
            v = self.fresh(0, m - 1, side); side += [v >= k[0][0], v >= k[1][0], v <= k[0][0] + k[1][0]]
            return v, 0, m - 1
        if op == 'uf':
            key = (x.a[0], len(x.a) - 1, bool(w))
            f = self.ufs.get(key)
            if f is None:
                f = z3.Function(x.a[0] + '$%d' % (len(x.a) - 1), *([z3.IntSort()] * (len(x.a) - 1)), z3.IntSort() if w else z3.BoolSort())
                self.ufs[key] = f
            e = f(*[z[0] for z in k])
            if not w: return B(e)
            side += [e >= 0, e < m]
            return e, 0, m - 1
        if not w: 
            self.n += 1
            return B(z3.Bool('b!%d' % self.n))
        return self.fresh(0, m - 1, side), 0, m - 1
    def check(self, terms, ms):
        s = z3.Solver(); s.set('timeout', ms)
        for t in terms: s.add(self(t))
        seen = set()
        for t in terms:
            for x in tm.allsub(t):
                if x not in seen:
                    seen.add(x)
                    for c in self.side.get(x, ()): s.add(c)
        return s.check()
