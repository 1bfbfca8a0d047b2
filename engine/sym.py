"""Terms: polynomials with integer coefficients over atoms (z3 integer terms), and booleans."""
import z3
from math import gcd


class Atom:
    __slots__ = ('id', 'z', 'lo', 'hi', 'ite', 'name', 'kind')

    def __init__(self, id, z, lo, hi, name, ite=None, kind=None):
        self.id = id
        self.z = z
        self.lo = lo
        self.hi = hi
        self.name = name
        self.ite = ite
        self.kind = kind


class Ctx:
    """all atoms / definitional facts of one run"""

    def __init__(self):
        self.atoms = []
        self.cache = {}
        self.defs = []           # definitional facts (on fresh symbols): always usable
        self.prod = {}           # monomial -> z3 var
        self.prod_list = []      # (mono, var, factor-mono-a, factor-mono-b)
        self.divs = []           # symbolic divisions made so far
        self.n = 0
        self.keep = []

    def fresh_name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def atom(self, z, lo=None, hi=None, name='', ite=None, kind=None):
        a = Atom(len(self.atoms), z, lo, hi, name, ite, kind)
        self.atoms.append(a)
        if ite is None:
            if lo is not None:
                self.defs.append(z >= lo)
            if hi is not None:
                self.defs.append(z <= hi)
        return Poly({(a.id,): 1})

    def var(self, name, lo=None, hi=None, kind=None):
        nm = self.fresh_name(name)
        return self.atom(z3.Int(nm), lo, hi, nm, kind=kind)

    def bvar(self, name):
        return z3.Bool(self.fresh_name(name))

    def prodvar(self, mono):
        v = self.prod.get(mono)
        if v is None:
            # (all but last) * last, the last being chosen as the atom with the largest id
            rest, last = mono[:-1], mono[-1]
            if len(rest) > 1:
                self.prodvar(rest)
            v = z3.Int('m_' + '_'.join(map(str, mono)))
            self.prod[mono] = v
            self.prod_list.append((mono, v, rest, (last,)))
            self.basic_lemmas(mono, v, rest, (last,))
        return v

    def monoz(self, mono):
        if len(mono) == 1:
            return self.atoms[mono[0]].z
        return self.prodvar(mono)

    def mono_iv(self, mono):
        lo, hi = 1, 1
        for i in mono:
            a = self.atoms[i]
            lo, hi = mul_iv(lo, hi, a.lo, a.hi)
        if len(mono) == 2 and mono[0] == mono[1]:
            lo = 0 if lo is None or lo < 0 else lo
        return lo, hi

    def basic_lemmas(self, mono, v, ra, rb):
        la, ha = self.mono_iv(ra)
        lb, hb = self.mono_iv(rb)
        a, b = self.monoz(ra), self.monoz(rb)
        D = self.defs
        D.append(z3.Implies(z3.Or(a == 0, b == 0), v == 0))
        D.append(z3.Implies(a == 1, v == b))
        D.append(z3.Implies(b == 1, v == a))
        if la is not None and lb is not None:
            D.append(v >= la * b + lb * a - la * lb)
        if ha is not None and hb is not None:
            D.append(v >= ha * b + hb * a - ha * hb)
        if ha is not None and lb is not None:
            D.append(v <= ha * b + lb * a - ha * lb)
        if la is not None and hb is not None:
            D.append(v <= la * b + hb * a - la * hb)
        if la is None or lb is None:
            D.append(z3.Implies(z3.And(a >= 0, b >= 0), v >= 0))
            D.append(z3.Implies(z3.And(a <= 0, b >= 0), v <= 0))
            D.append(z3.Implies(z3.And(a >= 0, b <= 0), v <= 0))
        # monotonicity against every product sharing a factor
        for m2, v2, ra2, rb2 in self.prod_list[:-1]:
            if len(m2) != len(mono):
                continue
            for (c, x) in ((ra, rb), (rb, ra)):
                for (c2, x2) in ((ra2, rb2), (rb2, ra2)):
                    if c == c2 and x != x2:
                        cz, xz, yz = self.monoz(c), self.monoz(x), self.monoz(x2)
                        D.append(z3.Implies(z3.And(cz >= 0, xz <= yz), v <= v2))
                        D.append(z3.Implies(z3.And(cz >= 0, yz <= xz), v2 <= v))
                        D.append(z3.Implies(z3.And(cz >= 0, xz + 1 <= yz), v + cz <= v2))
                        D.append(z3.Implies(z3.And(cz >= 0, yz + 1 <= xz), v2 + cz <= v))
                        D.append(z3.Implies(z3.And(cz >= 0, xz + 2 <= yz), v + 2 * cz <= v2))
                        D.append(z3.Implies(z3.And(cz >= 0, yz + 2 <= xz), v2 + 2 * cz <= v))


C = Ctx()


def reset():
    global C
    C.__init__()


def add(a, b):
    return None if a is None or b is None else a + b


def mul_iv(l1, h1, l2, h2):
    if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
        return l1 * l2, (None if h1 is None or h2 is None else h1 * h2)
    if None in (l1, h1, l2, h2):
        return None, None
    c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
    return min(c), max(c)


class Poly:
    __slots__ = ('m', '_z', '_iv', '_key')

    def __init__(self, m):
        self.m = m
        self._z = None
        self._iv = None
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.m.items()))
        return self._key

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), 0)

    @property
    def z(self):
        if self._z is None:
            parts = []
            for mono, c in self.m.items():
                if mono == ():
                    parts.append(z3.IntVal(c))
                else:
                    v = C.monoz(mono)
                    parts.append(v if c == 1 else c * v)
            if not parts:
                self._z = z3.IntVal(0)
            elif len(parts) == 1:
                self._z = parts[0]
            else:
                self._z = z3.Sum(parts)
        return self._z

    @property
    def iv(self):
        if self._iv is None:
            lo = hi = self.m.get((), 0)
            for mono, c in self.m.items():
                if mono == ():
                    continue
                l, h = C.mono_iv(mono)
                l, h = (mul1(l, c), mul1(h, c)) if c > 0 else (mul1(h, c), mul1(l, c))
                lo, hi = add(lo, l), add(hi, h)
            self._iv = (lo, hi)
        return self._iv

    def __add__(self, o):
        if isinstance(o, int):
            o = K(o)
        if len(o.m) > len(self.m):
            a, b = o.m, self.m
        else:
            a, b = self.m, o.m
        if not b:
            return Poly(a)
        r = dict(a)
        for k, v in b.items():
            s = r.get(k, 0) + v
            if s:
                r[k] = s
            else:
                r.pop(k, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return K(0)
            return Poly({k: v * o for k, v in self.m.items()})
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                s = r.get(k, 0) + v1 * v2
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def gcd(self, with_const=True):
        g = 0
        for k, v in self.m.items():
            if k == () and not with_const:
                continue
            g = gcd(g, v)
        return g

    def __repr__(self):
        return 'Poly(%s)' % ' + '.join('%d%s' % (c, ''.join('*' + (C.atoms[i].name or '#%d' % i) for i in k)) for k, c in self.m.items())


def mul1(x, c):
    return None if x is None else x * c


def K(n):
    return Poly({(): n}) if n else Poly({})


# ---- booleans: python bool or z3 BoolRef
def is_b(x):
    return isinstance(x, bool)


def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    r = z3.And(out)
    C.keep.append(r)
    return r


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    r = z3.Or(out)
    C.keep.append(r)
    return r


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    r = z3.Not(x)
    C.keep.append(r)
    return r


def Implies(a, b):
    return Or(Not(a), b)


def IteB(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if isinstance(a, bool):
        return Or(c, b) if a else And(Not(c), b)
    if isinstance(b, bool):
        return Or(Not(c), a) if b else And(c, a)
    if a.get_id() == b.get_id():
        return a
    r = z3.If(c, a, b)
    C.keep.append(r)
    return r


def Ite(c, a, b):
    """integer ite over polys"""
    if isinstance(c, bool):
        return a if c else b
    if a.key == b.key:
        return a
    common = {k: v for k, v in a.m.items() if b.m.get(k) == v}
    if common:
        cp = Poly(common)
        return cp + Ite(c, a - cp, b - cp)
    if z3.is_not(c):
        return Ite(c.arg(0), b, a)
    if b.is_const() and a.is_const():
        # b + (a-b)*[c]
        d = a.const() - b.const()
        if d != 1 or b.const() != 0:
            return b + Ite(c, K(1), K(0)) * d
        a, b = K(1), K(0)
    d = a - b
    if d.is_const() and not b.is_const():
        return b + Ite(c, K(1), K(0)) * d.const()
    g = gcd(a.gcd(), b.gcd())
    if g > 1 and not (a.is_const() and b.is_const()):
        return Ite(c, Poly({k: v // g for k, v in a.m.items()}), Poly({k: v // g for k, v in b.m.items()})) * g
    kk = ('ite', c.get_id(), a.key, b.key)
    r = C.cache.get(kk)
    if r is None:
        la, ha = a.iv
        lb, hb = b.iv
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        v = z3.Int(C.fresh_name('ite'))
        C.keep.append(c)
        C.defs.append(z3.If(c, v == a.z, v == b.z))
        r = C.atom(v, lo, hi, 'ite', ite=(c, a, b))
        C.cache[kk] = r
    return r


def b2p(c):
    return Ite(c, K(1), K(0))


def cmp0(d, op):
    """d op 0, d a Poly, op in lt le eq"""
    if d.is_const():
        c = d.const()
        return c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0
    lo, hi = d.iv
    if op == 'lt':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == 'le':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        g = d.gcd(False)
        if g > 1 and d.const() % g:
            return False
    # k*ite(c,1,0) + const
    mons = [k for k in d.m if k != ()]
    if len(mons) == 1 and len(mons[0]) == 1:
        at = C.atoms[mons[0][0]]
        if at.ite is not None and at.ite[1].is_const() and at.ite[2].is_const():
            k = d.m[mons[0]]
            c0 = d.const()
            ra = cmp0(K(c0 + k * at.ite[1].const()), op)
            rb = cmp0(K(c0 + k * at.ite[2].const()), op)
            return IteB(at.ite[0], ra, rb)
    kk = (op, d.key)
    r = C.cache.get(kk)
    if r is None:
        g = d.gcd(True)
        dd = Poly({k: v // g for k, v in d.m.items()}) if g > 1 else d
        # put negative coefficients on the other side
        pos = Poly({k: v for k, v in dd.m.items() if v > 0})
        neg = Poly({k: -v for k, v in dd.m.items() if v < 0})
        r = (pos.z < neg.z) if op == 'lt' else (pos.z <= neg.z) if op == 'le' else (pos.z == neg.z)
        C.cache[kk] = r
    return r


def Lt(a, b):
    return cmp0(a - b, 'lt')


def Le(a, b):
    return cmp0(a - b, 'le')


def Eq(a, b):
    d = a - b
    # canonical sign for caching
    if d.m:
        k = min(d.m)
        if d.m[k] < 0:
            d = -d
    return cmp0(d, 'eq')


def Ne(a, b):
    return Not(Eq(a, b))


def divmod_poly(p, d):
    """floor division by a positive constant: returns (q, r) with p = q*d + r, 0 <= r < d"""
    if d == 1:
        return p, K(0)
    # split off the part divisible by d
    a = {}
    b = {}
    for k, v in p.m.items():
        q, r = divmod(v, d)
        if r == 0:
            a[k] = q
        else:
            b[k] = v
    if not b:
        return Poly(a), K(0)
    if set(b) == {()}:
        q, r = divmod(b[()], d)
        if q:
            a[()] = a.get((), 0) + q
        return Poly({k: v for k, v in a.items() if v}), K(r)
    bp = Poly(b)
    lo, hi = bp.iv
    if lo is not None and hi is not None and lo // d == hi // d:
        q = lo // d
        return Poly(a) + q, bp - q * d
    kk = ('divmod', bp.key, d)
    qr = C.cache.get(kk)
    if qr is None:
        q = C.var('q', None if lo is None else lo // d, None if hi is None else hi // d)
        r = bp - q * d
        C.defs.append(z3.And(r.z >= 0, r.z < d))
        # give the remainder its own bounded atom
        ra = C.var('r', 0, d - 1)
        C.defs.append(ra.z == r.z)
        qr = (q, ra)
        C.cache[kk] = qr
    return Poly(a) + qr[0], qr[1]


ABSDIV = [False]     # symbolic quotients as uninterpreted functions (congruence only)


def divmod_sym(n, d):
    """n, d polys, meaningful when n >= 0 and d > 0: q, r"""
    kk = ('sdivmod', n.key, d.key)
    qr = C.cache.get(kk)
    if qr is None:
        hi = n.iv[1]
        q = C.var('q', 0, hi if hi is not None and hi >= 0 else None)
        if ABSDIV[0]:
            r = ra = C.var('r', 0, None)
        elif len(d.m) > 1:     # one product q*d instead of one for each term of d
            da = C.cache.get(('divatom', d.key))
            if da is None:
                da = C.var('d', *d.iv)
                C.defs.append(da.z == d.z)
                C.cache[('divatom', d.key)] = da
            r = n - q * da
        else:
            r = n - q * d
        if not ABSDIV[0]:
            ok = z3.And(n.z >= 0, d.z > 0)
            C.defs.append(z3.Implies(ok, z3.And(r.z >= 0, r.z + 1 <= d.z, q.z <= n.z)))
            dh = d.iv[1]
            ra = C.var('r', 0, dh - 1 if dh is not None and dh > 0 else None)
            C.defs.append(z3.Implies(ok, ra.z == r.z))
        for n2, d2, q2 in C.divs:
            C.defs.append(z3.Implies(z3.And(bz(Eq(n, n2)), bz(Eq(d, d2))), q2.z == q.z))
        C.divs.append((n, d, q))
        qr = (q, ra)
        C.cache[kk] = qr
    return qr
