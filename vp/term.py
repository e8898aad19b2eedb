"""Hash-consed bit-vector/boolean terms with a linear normal form.

A term is an immutable node. Width 0 means Bool. All arithmetic is modulo 2^w
(machine arithmetic is never treated as mathematical arithmetic here).
"""
import itertools

class T:
    __slots__ = ('op', 'w', 'a', 'id', '_rng')
    def __repr__(self):
        return pp(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_tab = {}
_ids = itertools.count(1)

def _mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.a = a; t.id = next(_ids); t._rng = None
        _tab[k] = t
    return t

_MASK = [(1 << i) - 1 for i in range(0, 513)]
def mask(w):
    return _MASK[w] if w <= 512 else (1 << w) - 1

def const(v, w):
    return _mk('c', w, (v & mask(w),))

TRUE = _mk('c', 0, (1,))
FALSE = _mk('c', 0, (0,))

def boolc(b):
    return TRUE if b else FALSE

def is_const(t):
    return t.op == 'c'

def cval(t):
    return t.a[0]

def sval(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v

_vn = itertools.count()
def var(name, w):
    return _mk('v', w, (name,))

def fresh(name, w):
    return _mk('v', w, ('%s!%d' % (name, next(_vn)),))

def uf(name, args, w):
    return _mk('uf', w, (name,) + tuple(args))

# ---------------------------------------------------------------- ranges
def rng(t):
    r = t._rng
    if r is None:
        r = _rng(t)
        t._rng = r
    return r

def _rng(t):
    op = t.op; w = t.w
    m = mask(w) if w else 1
    if op == 'c':
        return (t.a[0], t.a[0])
    if op == 'zext':
        return rng(t.a[0])
    if op == 'ite':
        l1, h1 = rng(t.a[1]); l2, h2 = rng(t.a[2])
        return (min(l1, l2), max(h1, h2))
    if op == 'and':
        l1, h1 = rng(t.a[0]); l2, h2 = rng(t.a[1])
        return (0, min(h1, h2))
    if op == 'or' or op == 'xor':
        l1, h1 = rng(t.a[0]); l2, h2 = rng(t.a[1])
        h = (1 << max(h1.bit_length(), h2.bit_length())) - 1
        return (max(l1, l2) if op == 'or' else 0, h)
    if op == 'lshr':
        l1, h1 = rng(t.a[0])
        if t.a[1].op == 'c':
            k = min(t.a[1].a[0], w)
            return (l1 >> k, h1 >> k)
        return (0, h1)
    if op == 'udiv':
        l1, h1 = rng(t.a[0])
        if t.a[1].op == 'c' and t.a[1].a[0]:
            return (l1 // t.a[1].a[0], h1 // t.a[1].a[0])
        return (0, m)
    if op == 'urem':
        if t.a[1].op == 'c' and t.a[1].a[0]:
            return (0, min(t.a[1].a[0] - 1, rng(t.a[0])[1]))
        return (0, m)
    if op == 'ext':
        hi, lo = t.a[1], t.a[2]
        l1, h1 = rng(t.a[0])
        if lo == 0 and h1 <= m:
            return (l1, h1)
        if h1.bit_length() <= hi + 1:
            return (l1 >> lo, h1 >> lo)
        return (0, m)
    if op == 'concat':
        lh, hh = rng(t.a[0]); ll, hl = rng(t.a[1]); wl = t.a[1].w
        return ((lh << wl) | ll, (hh << wl) | hl)
    if op == 'lin':
        c = t.a[0]; lo = c; hi = c
        half = 1 << (w - 1)
        for at, k in t.a[1]:
            l, h = rng(at)
            if k >= half:
                k -= m + 1
            if k > 0:
                lo += k * l; hi += k * h
            else:
                lo += k * h; hi += k * l
        # allow the constant to be read as negative
        if lo > m and hi <= 2 * m + 1:
            return (lo - m - 1, hi - m - 1)
        if lo >= 0 and hi <= m:
            return (lo, hi)
        return (0, m)
    return (0, m)

# ---------------------------------------------------------------- linear
def _lin_parts(t):
    if t.op == 'lin':
        return t.a
    if t.op == 'c':
        return (t.a[0], ())
    return (0, ((t, 1),))

def _lin(w, c, items):
    """items: dict atom->coeff"""
    m = mask(w)
    its = []
    for at, k in items.items():
        k &= m
        if k:
            its.append((at, k))
    c &= m
    if not its:
        return _mk('c', w, (c,))
    if len(its) == 1 and c == 0 and its[0][1] == 1:
        return its[0][0]
    its.sort(key=lambda p: p[0].id)
    return _mk('lin', w, (c, tuple(its)))

def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.a[0] + b.a[0], a.w)
    if b.op == 'c' and b.a[0] == 0: return a
    if a.op == 'c' and a.a[0] == 0: return b
    ca, ia = _lin_parts(a); cb, ib = _lin_parts(b)
    if not ib:
        if ia and a.op == 'lin':
            c = (ca + cb) & mask(a.w)
            if c == 0 and len(ia) == 1 and ia[0][1] == 1:
                return ia[0][0]
            return _mk('lin', a.w, (c, ia))
    d = dict(ia)
    for at, k in ib:
        d[at] = d.get(at, 0) + k
    return _lin(a.w, ca + cb, d)

def scale(a, k):
    w = a.w
    k &= mask(w)
    if k == 0: return const(0, w)
    if k == 1: return a
    if a.op == 'c': return const(a.a[0] * k, w)
    c, it = _lin_parts(a)
    return _lin(w, c * k, {at: kk * k for at, kk in it})

def neg(a):
    return scale(a, -1)

def sub(a, b):
    if a is b: return const(0, a.w)
    return add(a, scale(b, -1))

def addc(a, k):
    return add(a, const(k, a.w))

def mul(a, b):
    if a.op == 'c': return scale(b, a.a[0])
    if b.op == 'c': return scale(a, b.a[0])
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
        return ite(a.a[0], scale(b, a.a[1].a[0]), scale(b, a.a[2].a[0]))
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], scale(a, b.a[1].a[0]), scale(a, b.a[2].a[0]))
    if a.id > b.id: a, b = b, a
    return _mk('mul', a.w, (a, b))

# ---------------------------------------------------------------- bitwise
def bvnot(a):
    if a.w == 0: return bnot(a)
    return sub(const(-1, a.w), a)

def band(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE or b is FALSE: return FALSE
    if a is b: return a
    if bnot(a) is b: return FALSE
    if a.id > b.id: a, b = b, a
    return _mk('band', 0, (a, b))

def bor(a, b):
    if a is FALSE: return b
    if b is FALSE: return a
    if a is TRUE or b is TRUE: return TRUE
    if a is b: return a
    if bnot(a) is b: return TRUE
    if a.id > b.id: a, b = b, a
    return _mk('bor', 0, (a, b))

def bnot(a):
    if a.op == 'c': return FALSE if a.a[0] else TRUE
    if a.op == 'bnot': return a.a[0]
    return _mk('bnot', 0, (a,))

def bxor(a, b):
    if a.op == 'c': return bnot(b) if a.a[0] else b
    if b.op == 'c': return bnot(a) if b.a[0] else a
    if a is b: return FALSE
    return bnot(eq(a, b))

def implies(a, b):
    return bor(bnot(a), b)

def conj(ts):
    r = TRUE
    for t in ts: r = band(r, t)
    return r

def disj(ts):
    r = FALSE
    for t in ts: r = bor(r, t)
    return r

def and_(a, b):
    if a.w == 0: return band(a, b)
    if a.op == 'c' and b.op == 'c': return const(a.a[0] & b.a[0], a.w)
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        v = a.a[0]; w = a.w
        if v == 0: return a
        if v == mask(w): return b
        # low mask
        if v & (v + 1) == 0:
            k = v.bit_length()
            if rng(b)[1] <= v: return b
            return zext(extract(b, k - 1, 0), w)
        if b.op == 'and' and b.a[0].op == 'c':
            return and_(const(v & b.a[0].a[0], w), b.a[1])
        # contiguous mask: extract
        tz = (v & -v).bit_length() - 1
        vv = v >> tz
        if vv & (vv + 1) == 0:
            k = vv.bit_length()
            e = extract(b, tz + k - 1, tz)
            r = concat(e, const(0, tz))
            return zext(r, w)
        if rng(b)[1] & ~v == 0 and rng(b)[0] == rng(b)[1]:
            return b
        return _mk('and', w, (a, b))
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return _mk('and', a.w, (a, b))

def or_(a, b):
    if a.w == 0: return bor(a, b)
    if a.op == 'c' and b.op == 'c': return const(a.a[0] | b.a[0], a.w)
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        if a.a[0] == 0: return b
        if a.a[0] == mask(a.w): return a
    if a is b: return a
    # disjoint or => merge of concat pieces
    da = _disjoint_pos(a); db = _disjoint_pos(b)
    if da is not None and db is not None:
        r = _merge_fields(a.w, da, db)
        if r is not None: return r
    if a.id > b.id: a, b = b, a
    return _mk('or', a.w, (a, b))

def _disjoint_pos(t):
    """Decompose t as list of (lo, width, term) fields, zeros elsewhere."""
    out = []
    def go(t, base):
        if t.op == 'c':
            v = t.a[0]
            if v == 0: return True
            tz = (v & -v).bit_length() - 1
            k = v.bit_length() - tz
            out.append((base + tz, k, const(v >> tz, k)))
            return True
        if t.op == 'zext':
            return go(t.a[0], base)
        if t.op == 'concat':
            return go(t.a[1], base) and go(t.a[0], base + t.a[1].w)
        if t.op == 'lin' and t.a[0] == 0 and len(t.a[1]) == 1:
            at, k = t.a[1][0]
            if k & (k - 1) == 0:
                s = k.bit_length() - 1
                h = rng(at)[1].bit_length()
                if h + s <= t.w:
                    out.append((base + s, h, extract(at, h - 1, 0))); return True
                out.append((base + s, t.w - s, extract(at, t.w - s - 1, 0))); return True
            return False
        h = rng(t)[1].bit_length()
        if h == 0: return True
        if h < t.w:
            out.append((base, h, extract(t, h - 1, 0)))
        else:
            out.append((base, t.w, t))
        return True
    if t.op not in ('c', 'zext', 'concat', 'lin') and rng(t)[1].bit_length() >= t.w:
        return None
    if not go(t, 0): return None
    return out

def _merge_fields(w, da, db):
    fs = sorted(da + db, key=lambda f: f[0])
    pos = 0
    r = None
    for lo, k, t in fs:
        if lo < pos: return None
        if lo > pos:
            z = const(0, lo - pos)
            r = z if r is None else concat(z, r)
        r = t if r is None else concat(t, r)
        pos = lo + k
    if r is None: return const(0, w)
    if pos < w: r = zext(r, w)
    if pos > w: return None
    return r

def xor(a, b):
    if a.w == 0: return bxor(a, b)
    if a.op == 'c' and b.op == 'c': return const(a.a[0] ^ b.a[0], a.w)
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        if a.a[0] == 0: return b
        if a.a[0] == mask(a.w): return bvnot(b)
        if a.a[0] == 1 and rng(b)[1] <= 1:
            return sub(const(1, a.w), b)
    if a is b: return const(0, a.w)
    if a.id > b.id: a, b = b, a
    return _mk('xor', a.w, (a, b))

def shl(a, b):
    if b.op == 'c':
        k = b.a[0]
        if k >= a.w: return const(0, a.w)
        return scale(a, 1 << k)
    if a.op == 'c' and a.a[0] == 0: return a
    return _mk('shl', a.w, (a, b))

def lshr(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k == 0: return a
        if k >= w: return const(0, w)
        if a.op == 'c': return const(a.a[0] >> k, w)
        return zext(extract(a, w - 1, k), w)
    if a.op == 'c' and a.a[0] == 0: return a
    return _mk('lshr', w, (a, b))

def ashr(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k == 0: return a
        if k >= w: k = w - 1
        if a.op == 'c': return const(sval(a) >> k, w)
        return sext(extract(a, w - 1, k), w)
    return _mk('ashr', w, (a, b))

def udiv(a, b):
    w = a.w
    if b.op == 'c':
        d = b.a[0]
        if d == 0: return const(-1, w)
        if a.op == 'c': return const(a.a[0] // d, w)
        if d == 1: return a
        if d & (d - 1) == 0: return lshr(a, const(d.bit_length() - 1, w))
    return _mk('udiv', w, (a, b))

def urem(a, b):
    w = a.w
    if b.op == 'c':
        d = b.a[0]
        if d == 0: return a
        if a.op == 'c': return const(a.a[0] % d, w)
        if d & (d - 1) == 0: return and_(a, const(d - 1, w))
    return _mk('urem', w, (a, b))

def sdiv(a, b):
    w = a.w
    if b.op == 'c':
        if a.op == 'c' and b.a[0]:
            x, y = sval(a), sval(b)
            q = abs(x) // abs(y)
            return const(-q if (x < 0) != (y < 0) else q, w)
        if b.a[0] == 1: return a
        if rng(a)[1] < (1 << (w - 1)) and b.a[0] < (1 << (w - 1)) and b.a[0]:
            return udiv(a, b)
    return _mk('sdiv', w, (a, b))

def srem(a, b):
    w = a.w
    if b.op == 'c':
        if a.op == 'c' and b.a[0]:
            x, y = sval(a), sval(b)
            r = abs(x) % abs(y)
            return const(-r if x < 0 else r, w)
        if rng(a)[1] < (1 << (w - 1)) and b.a[0] < (1 << (w - 1)) and b.a[0]:
            return urem(a, b)
    return _mk('srem', w, (a, b))

# ---------------------------------------------------------------- sizes
def zext(a, w):
    if a.w == w: return a
    if a.w == 0:
        return ite(a, const(1, w), const(0, w))
    if a.op == 'c': return const(a.a[0], w)
    if a.op == 'zext': return zext(a.a[0], w)
    if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
        return ite(a.a[0], zext(a.a[1], w), zext(a.a[2], w))
    return _mk('zext', w, (a,))

def sext(a, w):
    if a.w == w: return a
    if a.w == 0:
        return ite(a, const(-1, w), const(0, w))
    if a.op == 'c': return const(sval(a), w)
    if a.op == 'zext': return zext(a, w)
    if a.op == 'sext': return sext(a.a[0], w)
    if rng(a)[1] < (1 << (a.w - 1)): return zext(a, w)
    if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
        return ite(a.a[0], sext(a.a[1], w), sext(a.a[2], w))
    return _mk('sext', w, (a,))

def trunc(a, w):
    if a.w == w: return a
    return extract(a, w - 1, 0)

def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    op = a.op
    if op == 'c': return const(a.a[0] >> lo, w)
    if op == 'ext':
        return extract(a.a[0], a.a[2] + hi, a.a[2] + lo)
    if op == 'zext':
        b = a.a[0]
        if lo >= b.w: return const(0, w)
        if hi < b.w: return extract(b, hi, lo)
        return zext(extract(b, b.w - 1, lo), w)
    if op == 'sext':
        b = a.a[0]
        if hi < b.w: return extract(b, hi, lo)
        if lo == 0: return sext(b, w)
        if lo < b.w: return sext(extract(b, b.w - 1, lo), w)
    if op == 'concat':
        h, l = a.a
        if hi < l.w: return extract(l, hi, lo)
        if lo >= l.w: return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if op == 'lin' and lo == 0:
        c, it = a.a
        r = const(c, w)
        for at, k in it:
            r = add(r, scale(extract(at, hi, 0), k))
        return r
    if op == 'lin' and lo > 0:
        # shifted field: all coeffs multiples of 2^lo, no overflow concerns since mod
        c, it = a.a
        m = (1 << lo) - 1
        if c & m == 0 and all(k & m == 0 for _, k in it):
            r = const(c >> lo, w)
            for at, k in it:
                # at * (k>>lo) mod 2^w
                r = add(r, scale(extract(at, w - 1, 0) if at.w > w else at, (k >> lo)))
            return r
    if op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
        return ite(a.a[0], extract(a.a[1], hi, lo), extract(a.a[2], hi, lo))
    if op in ('and', 'or', 'xor') :
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        return f(extract(a.a[0], hi, lo), extract(a.a[1], hi, lo))
    if op == 'mul' and lo == 0:
        return mul(extract(a.a[0], hi, 0), extract(a.a[1], hi, 0))
    if rng(a)[1].bit_length() <= lo:
        return const(0, w)
    return _mk('ext', w, (a, hi, lo))

def concat(h, l):
    if h.w == 0 or l.w == 0:
        if h.w == 0 and l.w == 0: raise ValueError
        return l if h.w == 0 else h
    w = h.w + l.w
    if h.op == 'c' and l.op == 'c':
        return const((h.a[0] << l.w) | l.a[0], w)
    if h.op == 'c' and h.a[0] == 0:
        return zext(l, w)
    if h.op == 'ext' and l.op == 'ext' and h.a[0] is l.a[0] and h.a[2] == l.a[1] + 1:
        return extract(h.a[0], h.a[1], l.a[2])
    if h.op == 'ext' and l.op != 'c' and h.a[0] is l and h.a[2] == l.w:
        return extract(h.a[0], h.a[1], 0)
    if l.op == 'concat':
        x = l.a[0]
        if (h.op == 'ext' and x.op == 'ext' and h.a[0] is x.a[0] and h.a[2] == x.a[1] + 1) \
           or (h.op == 'c' and x.op == 'c'):
            return concat(concat(h, x), l.a[1])
    if h.op == 'zext':
        return zext(concat(h.a[0], l), w)
    if h.op == 'concat':
        # right-assoc normal form
        return concat(h.a[0], concat(h.a[1], l))
    if h.op == 'ite' and h.a[1].op == 'c' and h.a[2].op == 'c' and l.op == 'c':
        return ite(h.a[0], concat(h.a[1], l), concat(h.a[2], l))
    if h.op == 'ite' and l.op == 'ite' and h.a[0] is l.a[0]:
        return ite(h.a[0], concat(h.a[1], l.a[1]), concat(h.a[2], l.a[2]))
    return _mk('concat', w, (h, l))

# ---------------------------------------------------------------- ite / compare
def ite(c, a, b):
    if c.op == 'c': return a if c.a[0] else b
    if a is b: return a
    if a.w == 0:
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(bnot(c), b)
        if b is TRUE: return bor(bnot(c), a)
        if b is FALSE: return band(c, a)
        return _mk('ite', 0, (c, a, b)) if c.op != 'bnot' else _mk('ite', 0, (c.a[0], b, a))
    if c.op == 'bnot':
        c, a, b = c.a[0], b, a
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return _mk('ite', a.w, (c, a, b))

def eq(a, b):
    if a is b: return TRUE
    if a.w == 0:
        if a.op == 'c': return b if a.a[0] else bnot(b)
        if b.op == 'c': return a if b.a[0] else bnot(a)
        if bnot(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return _mk('eq', 0, (a, b))
    if a.op == 'c' and b.op == 'c': return FALSE
    if a.op == 'c': a, b = b, a
    w = a.w
    if b.op == 'c':
        v = b.a[0]
        l, h = rng(a)
        if v < l or v > h: return FALSE
        op = a.op
        if op == 'zext':
            return eq(a.a[0], const(v, a.a[0].w))
        if op == 'sext':
            x = a.a[0]; k = const(v, x.w)
            return eq(x, k) if sval(k) & mask(w) == v else FALSE
        if op == 'ite':
            c, x, y = a.a
            if x.op == 'c' or y.op == 'c':
                return ite(c, eq(x, b), eq(y, b))
        if op == 'lin':
            c0, it = a.a
            if c0:
                if len(it) == 1 and it[0][1] == 1:
                    return eq(it[0][0], const(v - c0, w))
                if len(it) == 1 and it[0][1] == mask(w):
                    return eq(it[0][0], const(c0 - v, w))
                return eq(_lin(w, 0, dict(it)), const(v - c0, w))
            if it[0][1] > (1 << (w - 1)):  # normalise sign
                return eq(_lin(w, 0, {at: -k for at, k in it}), const(-v, w))
            # power-of-two common factor with no-overflow ranges
            if len(it) == 1:
                at, k = it[0]
                lo, hi = rng(at)
                if hi * k <= mask(w):
                    if v % k: return FALSE
                    return eq(at, const(v // k, w))
        if op == 'concat':
            hh, ll = a.a
            return band(eq(ll, const(v, ll.w)), eq(hh, const(v >> ll.w, hh.w)))
        return _mk('eq', 0, (a, b))
    la, ha = rng(a); lb, hb = rng(b)
    if ha < lb or hb < la: return FALSE
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'c': return boolc(d.a[0] == 0)
        # only rewrite when it became simpler (shared atoms cancelled) 
        return eq(d, const(0, w))
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.a[0], b.a[0]
        mw = max(x.w, y.w)
        return eq(zext(x, mw), zext(y, mw))
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0])
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], eq(b.a[1], a), eq(b.a[2], a))
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
    if a.id > b.id: a, b = b, a
    return _mk('eq', 0, (a, b))

def ne(a, b): return bnot(eq(a, b))

def ult(a, b):
    if a is b: return FALSE
    la, ha = rng(a); lb, hb = rng(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    w = a.w
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.a[0], b.a[0]
        mw = max(x.w, y.w)
        if mw < w: return ult(zext(x, mw), zext(y, mw))
    if b.op == 'c':
        v = b.a[0]
        if v == 1: return eq(a, const(0, w))
        if v == hb and v == ha and la == ha: return FALSE
        if v == mask(w): return bnot(eq(a, b))
        if a.op == 'zext':
            x = a.a[0]
            return ult(x, const(v, x.w)) if v <= mask(x.w) else TRUE
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if a.op == 'c':
        v = a.a[0]
        if v == 0: return bnot(eq(b, a))
        if v == mask(w) - 1: return eq(b, const(-1, w))
        if b.op == 'zext':
            x = b.a[0]
            return ult(const(v, x.w), x) if v <= mask(x.w) else FALSE
        if b.op == 'ite' and (b.a[1].op == 'c' or b.a[2].op == 'c'):
            return ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
    # cancel identical additive context when ranges show no wrap
    if a.op == 'lin' and b.op == 'lin' and (a.a[0] or b.a[0]):
        ca, ia = a.a; cb, ib = b.a
        m = min(ca, cb)
        if m and m < (1 << (w - 1)) and la >= m and lb >= m and (la, ha) != (0, mask(w)) and (lb, hb) != (0, mask(w)):
            return ult(addc(a, -m), addc(b, -m))
    return _mk('ult', 0, (a, b))

def ule(a, b): return bnot(ult(b, a))

def slt(a, b):
    if a is b: return FALSE
    w = a.w
    if a.op == 'c' and b.op == 'c': return boolc(sval(a) < sval(b))
    half = 1 << (w - 1)
    la, ha = rng(a); lb, hb = rng(b)
    if ha < half and hb < half: return ult(a, b)
    if la >= half and lb >= half: return ult(a, b)
    if la >= half and hb < half: return TRUE
    if ha < half and lb >= half: return FALSE
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0])
    if b.op == 'c' and a.op == 'sext':
        x = a.a[0]; k = const(b.a[0], x.w)
        if sval(k) == sval(b): return slt(x, k)
        return boolc(0 < sval(b))
    if a.op == 'c' and b.op == 'sext':
        x = b.a[0]; k = const(a.a[0], x.w)
        if sval(k) == sval(a): return slt(k, x)
        return boolc(sval(a) < 0)
    if b.op == 'c' and a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
        return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    if a.op == 'c' and b.op == 'ite' and (b.a[1].op == 'c' or b.a[2].op == 'c'):
        return ite(b.a[0], slt(a, b.a[1]), slt(a, b.a[2]))
    if b.op == 'c' and b.a[0] == 0:
        return eq(extract(a, w - 1, w - 1), const(1, 1))
    return _mk('slt', 0, (a, b))

def sle(a, b): return bnot(slt(b, a))

# ---------------------------------------------------------------- printing
def pp(t, d=0):
    if d > 12: return '...'
    op = t.op
    if op == 'c':
        if t.w == 0: return 'true' if t.a[0] else 'false'
        return ('%d' % t.a[0] if t.a[0] < 65536 else hex(t.a[0]))
    if op == 'v': return str(t.a[0])
    if op == 'lin':
        s = []
        if t.a[0]:
            s.append(str(sval(const(t.a[0], t.w))))
        for at, k in t.a[1]:
            k = sval(const(k, t.w))
            s.append(('%d*' % k if k != 1 else '') + pp(at, d + 1))
        return '(' + ' + '.join(s) + ')'
    if op == 'uf':
        return '%s(%s)' % (t.a[0], ','.join(pp(x, d + 1) for x in t.a[1:]))
    return '(%s%s %s)' % (op, ':%d' % t.w if t.w else '', ' '.join(pp(x, d + 1) if isinstance(x, T) else str(x) for x in t.a))

# ---------------------------------------------------------------- evaluation
def evalt(t, env, memo):
    """Concrete value of t; env maps var name->int, ('uf',name,args)->int (default 0)."""
    r = memo.get(t)
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop(); continue
        op = x.op
        if op == 'c':
            memo[x] = x.a[0]; stack.pop(); continue
        if op == 'v':
            memo[x] = env.get(x.a[0], 0); stack.pop(); continue
        if op == 'lin':
            kids = [p[0] for p in x.a[1]]
        elif op == 'uf':
            kids = x.a[1:]
        elif op == 'ext':
            kids = x.a[:1]
        else:
            kids = x.a
        need = [k for k in kids if k not in memo]
        if need:
            stack.extend(need); continue
        stack.pop()
        memo[x] = _ev(x, op, kids, memo, env)
    return memo[t]

def _sv(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def _ev(x, op, kids, memo, env):
    w = x.w
    m = mask(w)
    if op == 'lin':
        s = x.a[0]
        for at, k in x.a[1]:
            s += k * memo[at]
        return s & m
    if op == 'uf':
        return env.get(('uf', x.a[0]) + tuple(memo[k] for k in kids), 0) & m
    v = [memo[k] for k in kids]
    kw = kids[0].w
    if op == 'ite': return v[1] if v[0] else v[2]
    if op == 'eq': return int(v[0] == v[1])
    if op == 'ult': return int(v[0] < v[1])
    if op == 'slt': return int(_sv(v[0], kw) < _sv(v[1], kw))
    if op == 'band': return v[0] & v[1]
    if op == 'bor': return v[0] | v[1]
    if op == 'bnot': return 1 - v[0]
    if op == 'zext': return v[0]
    if op == 'sext': return _sv(v[0], kw) & m
    if op == 'ext': return (v[0] >> x.a[2]) & m
    if op == 'concat': return (v[0] << kids[1].w) | v[1]
    if op == 'and': return v[0] & v[1]
    if op == 'or': return v[0] | v[1]
    if op == 'xor': return v[0] ^ v[1]
    if op == 'mul': return (v[0] * v[1]) & m
    if op == 'shl': return (v[0] << v[1]) & m if v[1] < w else 0
    if op == 'lshr': return v[0] >> v[1] if v[1] < w else 0
    if op == 'ashr': return (_sv(v[0], w) >> min(v[1], w - 1)) & m
    if op == 'udiv': return v[0] // v[1] if v[1] else m
    if op == 'urem': return v[0] % v[1] if v[1] else v[0]
    if op == 'sdiv':
        a, b = _sv(v[0], w), _sv(v[1], w)
        if b == 0: return 1 if a < 0 else m
        q = abs(a) // abs(b)
        return (-q if (a < 0) != (b < 0) else q) & m
    if op == 'srem':
        a, b = _sv(v[0], w), _sv(v[1], w)
        if b == 0: return v[0]
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & m
    raise NotImplementedError(op)

def subterms(roots, seen=None):
    """All vars and uf apps reachable."""
    if seen is None: seen = set()
    out = []
    st = list(roots)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        op = x.op
        if op == 'v' or op == 'uf': out.append(x)
        if op == 'lin': st.extend(p[0] for p in x.a[1])
        elif op == 'uf': st.extend(x.a[1:])
        elif op == 'ext': st.append(x.a[0])
        elif op in ('c', 'v'): pass
        else: st.extend(x.a)
    return out

def subst(t, m, memo):
    """Substitute term->term (keys arbitrary atoms)."""
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        memo[t] = m[t]; return m[t]
    op = t.op
    if op in ('c', 'v'): r = t
    elif op == 'lin':
        r = const(t.a[0], t.w)
        for at, k in t.a[1]: r = add(r, scale(subst(at, m, memo), k))
    elif op == 'uf':
        r = uf(t.a[0], [subst(x, m, memo) for x in t.a[1:]], t.w)
    elif op == 'ext':
        r = extract(subst(t.a[0], m, memo), t.a[1], t.a[2])
    else:
        k = [subst(x, m, memo) for x in t.a]
        r = rebuild(op, t, k)
    memo[t] = r
    return r

def rebuild(op, t, k):
    if op == 'ite': return ite(*k)
    if op == 'eq': return eq(*k)
    if op == 'ult': return ult(*k)
    if op == 'slt': return slt(*k)
    if op == 'band': return band(*k)
    if op == 'bor': return bor(*k)
    if op == 'bnot': return bnot(*k)
    if op == 'zext': return zext(k[0], t.w)
    if op == 'sext': return sext(k[0], t.w)
    if op == 'concat': return concat(*k)
    return {'and': and_, 'or': or_, 'xor': xor, 'mul': mul, 'shl': shl, 'lshr': lshr,
            'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](*k)

def allsub(root):
    seen = set(); st = [root]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        op = x.op
        if op == 'lin': st.extend(p[0] for p in x.a[1])
        elif op == 'uf': st.extend(x.a[1:])
        elif op == 'ext': st.append(x.a[0])
        elif op not in ('c', 'v'): st.extend(x.a)
