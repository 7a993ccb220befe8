"""Canonical numeric forms of value numbers.

A term is mapped to a Laurent polynomial with exact rational coefficients over interned
atoms.  Sine, cosine, tangent and exponentials become formal exponentials E[Q]=exp(Q), so
every trigonometric identity is decided by polynomial arithmetic; conditions become
idempotent atoms, so gated phi terms distribute over every operation; sums of more than
one monomial are inverted (or rooted) through interned polynomial atoms, and equality is
decided by clearing those denominators.  Two expressions with the same form denote the
same function over the reals; nothing is evaluated at sample points.
"""
import hashlib
import math
from fractions import Fraction
from .term import T, C, S, NONE, TRUE, FALSE, num, sval, walk, subst, rewrite, show, selector, boolterm, emptyselection, ERASE_CALL

F0, F1, HALF = Fraction(0), Fraction(1), Fraction(1, 2)
ERASE_METH = {'astype', 'view', 'copy', 'item', 'tolist', 'expanduser', 'absolute', 'resolve'}
STRUCT = {'kw', 'list', 'tuple', 'slice', 'dict', 'kv', 'over', 'range', 'obj', 'star', 'when', 'while'}
UNARY = {'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.exp', 'numpy.arctan', 'numpy.arcsin', 'numpy.arccos', 'numpy.abs',
         'numpy.conj', 'numpy.sinh', 'numpy.cosh', 'numpy.tanh', 'numpy.log', 'numpy.sign', 'numpy.floor', 'numpy.ceil',
         'numpy.angle', 'numpy.isnan', 'numpy.isfinite', 'numpy.sqrt', 'numpy.arctan2', 'numpy.hypot', 'numpy.log10', 'numpy.clip', 'scipy.special.factorial'}


PRIME = 2305843009213693921          # prime, 1 mod 4 (2^61 - 31)


EXPSCALE = math.lcm(*range(1, 40)) * 10 ** 24


def _sqrtm1(p):
    for a in range(2, 1000):
        r = pow(a, (p - 1) // 4, p)
        if r * r % p == p - 1:
            return r


SQRTM1 = _sqrtm1(PRIME)


def rnd(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big') % PRIME


class Atom:
    __slots__ = ('id', 'kind', 'data', 'syms', 'pos', 'excl', 'term')

    def __init__(self, id, kind, data, syms=frozenset(), pos=False, excl=None, term=None):
        self.id, self.kind, self.data, self.syms, self.pos, self.excl, self.term = id, kind, data, syms, pos, excl, term


class TooBig(Exception):
    pass


def scalarish(t):
    return t.op in ('c', 'pi', 'const', 'sym') or t.op == 'attr' and t.args[0] == 'fill_value'


class NF:
    """one normal form context (interning tables + options)"""

    def __init__(self, pointwise=True, complex_syms=(), positive=(), hook=None, limit=60000, integers=(), shapes=None, complex_calls=(), keep=(), scalars=(), fold=True, trig=True):
        self.pointwise = pointwise
        self.trig = trig    # sine and cosine as exponentials (False: functions without identities but parity)
        self.fold = fold    # write exp(i*arctan(x)) with roots
        self.scalars = frozenset(scalars)    # symbols without dimensions: their first element is themselves
        self.keep = frozenset(keep)          # shape operations that are told apart
        self.erase = ERASE_CALL - self.keep
        self.complex_syms = set(complex_syms)
        self.positive = set(positive)
        self.integers = set(integers)
        self.hook = hook
        self.limit = limit
        self.atoms = []
        self.shapes = dict(shapes or {})
        self.shapes_memo = {}
        self.complex_calls = set(complex_calls)
        self.index = {}
        self.vals = {}       # frozen poly -> value id
        self.vlist = []      # value id -> poly
        self.dvals = []      # value ids of polynomials with denominators
        self.memo = {}
        self.modcache = {}
        self.I = self.atom('I', 'I')
        self.zero_phase = self.vid({})
        assert self.zero_phase == 0
        self.PI = self.atom('sym', 'pi', pos=True)

    # ------------------------------------------------------------ atoms / values
    def atom(self, kind, data, syms=frozenset(), pos=False, excl=None, term=None):
        key = (kind, data)
        a = self.index.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, data, frozenset(syms), pos, excl, term)
            self.atoms.append(a)
            self.index[key] = a
        return a

    def vid(self, P):
        """identity of a polynomial value"""
        fz = frozenset(P.items())
        v = self.vals.get(fz)
        if v is not None:
            return v
        if self.hasD(P):
            fp = self.print_of(P)
            for w, fw in self.dvals:
                if fp is not None and fw is not None and fp != fw:
                    continue
                if self.is_zero(self.sub(P, self.vlist[w])):
                    self.vals[fz] = w
                    return w
            # it may equal a polynomial without denominators
            Q = self.cleared(P)
            if Q is not None:
                w = self.vid(Q)
                self.vals[fz] = w
                return w
        elif self.dvals and len(P) > 1:
            fp = self.print_of(P)
            for w, fw in self.dvals:
                if fp is not None and fp == fw and self.is_zero(self.sub(P, self.vlist[w])):
                    self.vals[fz] = w
                    return w
        v = len(self.vlist)
        self.vlist.append(P)
        self.vals[fz] = v
        if self.hasD(P):
            self.dvals.append((v, fp))
        return v

    # ------------------------------------------------------------ modular evaluation: a certificate of difference only
    def print_of(self, P):
        out = []
        for seed in (1, 2):
            v = self.modval(P, seed)
            if v is None:
                return None
            out.append(v)
        return tuple(out)

    def modval(self, P, seed):
        """value of P modulo a prime at a fixed assignment of the atoms (None: not evaluated)"""
        t = 0
        for (pw, ex), c in P.items():
            v = c.numerator % PRIME
            if ex:
                x = self.phaseval(ex, seed)
                if x is None:
                    return None
                v = v * x % PRIME
            if c.denominator != 1:
                v = v * pow(c.denominator, -1, PRIME) % PRIME
            for a, e in pw:
                x = self.atomval(a, e, seed)
                if x is None:
                    return None
                v = v * x % PRIME
            t += v
        return t % PRIME

    def phaseval(self, ex, seed):
        """E[P] as a product of powers of one base per monomial of the exponent: additive in P"""
        key = ('ex', ex, seed)
        if key in self.modcache:
            return self.modcache[key]
        r = 1
        for (pw, ex2), c in self.vlist[ex].items():
            k = c * EXPSCALE
            if ex2 or k.denominator != 1 or all(a in (self.I.id, self.PI.id) for a, e in pw) or \
                    any(self.atoms[a].kind in ('poly', 'chi', 'root') for a, e in pw):
                r = None
                break
            r = r * pow(rnd('base', pw, seed), int(k) % (PRIME - 1), PRIME) % PRIME
        self.modcache[key] = r
        return r

    def atomval(self, a, e, seed):
        key = (a, e, seed)
        if key in self.modcache:
            return self.modcache[key]
        at = self.atoms[a]
        w = e.numerator // e.denominator
        fr = e - w
        if at.kind == 'chi':
            if at.excl is None:
                r = rnd('chi', a, seed) & 1
            else:
                r = int(rnd('grp', at.excl[0], seed) % 3 == 0 and min(b.id for b in self.atoms if b.kind == 'chi' and b.excl is not None and b.excl[0] == at.excl[0]) == a)
        else:
            if at.kind == 'I':
                b = SQRTM1
            elif at.kind == 'root':
                f = Fraction(at.data)
                b = f.numerator * pow(f.denominator, -1, PRIME) % PRIME
            elif at.kind == 'poly':
                b = self.modval(at.data, seed)
            else:
                b = rnd('atom', a, seed)
                fr, w = e, 0
                if e.denominator == 1:
                    fr, w = F0, e.numerator
            if b is None or (b == 0 and w < 0):
                r = None
            else:
                r = pow(b, w, PRIME)
                if fr:
                    r = r * rnd('frac', a, fr, seed) % PRIME
        self.modcache[key] = r
        return r

    def cleared(self, P):
        return None

    def hasD(self, P):
        return any(self.atoms[a].kind == 'poly' for (pw, ex) in P for a, e in pw)

    # ------------------------------------------------------------ polynomials
    def const(self, c):
        c = Fraction(c)
        return {((), 0): c} if c else {}

    def mono(self, a, e=F1):
        return {(((a.id, Fraction(e)),), 0): F1}

    def add(self, A, B, s=1):
        R = dict(A)
        for m, c in B.items():
            v = R.get(m, F0) + s * c
            if v:
                R[m] = v
            else:
                R.pop(m, None)
        return R

    def sub(self, A, B):
        return self.add(A, B, -1)

    def scale(self, A, c):
        return {m: v * c for m, v in A.items()} if c else {}

    def mul(self, A, B):
        if len(A) * len(B) > self.limit:
            raise TooBig()
        R = {}
        for m1, c1 in A.items():
            for m2, c2 in B.items():
                r = self.mulmono(m1, m2)
                if r is None:
                    continue
                m, s, expand = r
                c = c1 * c2 * s
                if expand:
                    P = {m: c}
                    for D, k in expand:
                        P = self.mul(P, self.powint(D, k))
                    for mm, cc in P.items():
                        v = R.get(mm, F0) + cc
                        if v:
                            R[mm] = v
                        else:
                            R.pop(mm, None)
                else:
                    v = R.get(m, F0) + c
                    if v:
                        R[m] = v
                    else:
                        R.pop(m, None)
        if len(R) > self.limit:
            raise TooBig()
        return R

    def mulmono(self, m1, m2):
        (p1, e1), (p2, e2) = m1, m2
        if not p1:
            pw = list(p2)
        elif not p2:
            pw = list(p1)
        else:
            d = dict(p1)
            for a, e in p2:
                d[a] = d.get(a, F0) + e
            pw = sorted((a, e) for a, e in d.items() if e)
        s = F1
        expand = []
        out = []
        excl = {}
        touched = bool(p1 and p2)
        for a, e in pw:
            at = self.atoms[a]
            if at.kind == 'I':
                k = int(e) % 4
                if k >= 2:
                    s = -s
                if k % 2:
                    out.append((a, F1))
                continue
            if at.kind == 'chi':
                if at.excl is not None:
                    if excl.get(at.excl[0], at.excl[1]) != at.excl[1]:
                        return None
                    excl[at.excl[0]] = at.excl[1]
                out.append((a, F1))
                continue
            if at.kind == 'poly' and touched and e >= 1:
                k = e.numerator // e.denominator
                expand.append((at.data, k))
                e = e - k
                if not e:
                    continue
            out.append((a, e))
        if e1 and e2:
            ph = self.add(self.vlist[e1], self.vlist[e2])
            ph, ss, pw2 = self.normphase(ph)
            ex = self.vid(ph) if ph else 0
            s = s * ss
            if pw2:
                r = self.mulmono((tuple(out), ex), (pw2, 0))
                if r is None:
                    return None
                m, s2, exp2 = r
                return m, s * s2, expand + exp2
        else:
            ex = e1 or e2
        return (tuple(out), ex), s, expand

    def normphase(self, P):
        """pull rational multiples of i*pi/2 out of an exponent; returns (P, sign, extra powers)"""
        key = (((self.I.id, F1), (self.PI.id, F1)), 0)
        c = P.get(key)
        if c is None:
            return P, F1, ()
        k = c * 2
        r = k % 4
        P = dict(P)
        del P[key]
        if r.denominator == 1:
            r = int(r)
            return P, F1 if r < 2 else -F1, ((self.I.id, F1),) if r % 2 else ()
        q = int(r)
        P[key] = (r - q) / 2
        return P, F1 if q < 2 else -F1, ((self.I.id, F1),) if q % 2 else ()

    def powint(self, P, k):
        if k < 0:
            return self.powint(self.inv(P), -k)
        R = self.const(1)
        base = P
        while k:
            if k & 1:
                R = self.mul(R, base)
            k >>= 1
            if k:
                base = self.mul(base, base)
        return R

    def split_chi(self, P):
        """first condition atom of a polynomial, or None"""
        best = None
        for (pw, ex) in P:
            for a, e in pw:
                if self.atoms[a].kind == 'chi' and (best is None or a < best):
                    best = a
        return best

    def restrict(self, P, a, val):
        """condition atom a fixed to 0/1"""
        R = {}
        at = self.atoms[a]
        for (pw, ex), c in P.items():
            d = dict(pw)
            if a in d:
                if not val:
                    continue
                del d[a]
            if val and at.excl is not None and any(
                    self.atoms[x].kind == 'chi' and self.atoms[x].excl is not None and x != a
                    and self.atoms[x].excl[0] == at.excl[0] and self.atoms[x].excl[1] != at.excl[1] for x in d):
                continue
            m = (tuple(sorted(d.items())), ex)
            v = R.get(m, F0) + c
            if v:
                R[m] = v
            else:
                R.pop(m, None)
        return R

    def by_cases(self, Ps, fn):
        """apply fn to polynomials after splitting on the conditions they contain"""
        a = None
        for P in Ps:
            b = self.split_chi(P)
            if b is not None and (a is None or b < a):
                a = b
        if a is None:
            return fn(*Ps)
        X = self.mono(self.atoms[a])
        on = self.by_cases([self.restrict(P, a, 1) for P in Ps], fn)
        off = self.by_cases([self.restrict(P, a, 0) for P in Ps], fn)
        if on == off:
            return on
        return self.add(self.mul(X, on), self.mul(self.sub(self.const(1), X), off))

    def inv(self, P):
        return self.by_cases([P], self._inv)

    def _inv(self, P):
        if not P:
            return self.mono(self.atom('sym', 'inf', pos=True))
        if len(P) == 1:
            (m, c), = P.items()
            return {self.invmono(m): 1 / c} if not self.hasI(m) else self.mul({self.invmono(m): 1 / c}, self.const(-1))
        if len(P) == 2:
            # complex constants a + bI
            keys = set(P)
            if keys <= {((), 0), (((self.I.id, F1),), 0)}:
                a, b = P.get(((), 0), F0), P.get((((self.I.id, F1),), 0), F0)
                n = a * a + b * b
                return {k: v for k, v in {((), 0): a / n, (((self.I.id, F1),), 0): -b / n}.items() if v}
        content, Q = self.content(P)
        D = self.patom(Q)
        return self.mul(self._inv(content), {(((D.id, -F1),), 0): F1})

    def hasI(self, m):
        return any(a == self.I.id for a, e in m[0])

    def invmono(self, m):
        pw, ex = m
        out = []
        for a, e in pw:
            at = self.atoms[a]
            if at.kind == 'I':
                out.append((a, F1))      # 1/I = -I (sign handled by the caller)
            else:
                out.append((a, -e))
        return (tuple(out), self.vid(self.scale(self.vlist[ex], -1)) if ex else 0)

    def lead(self, P):
        return min(P, key=lambda m: (len(m[0]), m[0], m[1]))

    def content(self, P):
        """P = content (one monomial) * Q with Q normalised"""
        common = None
        for (pw, ex) in P:
            d = {a: e for a, e in pw if self.atoms[a].kind != 'I'}
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)} if True else {}
            if not common:
                break
        pw = tuple(sorted(common.items())) if common else ()
        ld = self.lead(P)
        ex = ld[1]
        c = P[ld]
        content = {(pw, ex): c}
        Q = self.mul(P, {(tuple((a, -e) for a, e in pw), self.vid(self.scale(self.vlist[ex], -1)) if ex else 0): 1 / c})
        if len(Q) < 2:
            return self.const(1), P
        return content, Q

    def patom(self, Q):
        v = self.vid(Q)
        Q = self.vlist[v]
        syms = self.symsof(Q)
        key = ('poly', v)
        a = self.index.get(key)
        if a is None:
            a = Atom(len(self.atoms), 'poly', Q, syms)
            a.pos = bool(Q) and all(c > 0 and not ex and all(self.atoms[x].pos or (e.denominator == 1 and e % 2 == 0
                                    and self.atoms[x].kind != 'I') for x, e in pw) for (pw, ex), c in Q.items())
            self.atoms.append(a)
            self.index[key] = a
        return a

    def symsof(self, P):
        out = set()
        for (pw, ex) in P:
            for a, e in pw:
                out |= self.atoms[a].syms
            if ex:
                out |= self.symsof(self.vlist[ex])
        return frozenset(out)

    def powfrac(self, P, e):
        return self.by_cases([P], lambda Q: self._powfrac(Q, e))

    def _powfrac(self, P, e):
        if e.denominator == 1:
            return self.powint(P, int(e))
        if not P:
            return {} if e > 0 else self._inv(P)
        if len(P) == 1:
            (m, c), = P.items()
            pw, ex = m
            if c > 0 and not self.hasI(m):
                r = self.ratpow(c, e)
                out, rest = [], []
                for a, k in pw:
                    at = self.atoms[a]
                    if at.pos or (at.kind == 'poly' and (k.denominator != 1)) or at.data == ('abs',):
                        out.append((a, k * e))
                    else:
                        rest.append((a, k))
                # only real exponentials may be rooted
                exr = 0
                restex = ex
                if ex and not any(a == self.I.id for (q, _) in self.vlist[ex] for a, _e in q):
                    exr = self.vid(self.scale(self.vlist[ex], e))
                    restex = 0
                if not rest and not restex:
                    R = {(tuple(sorted(out)), exr): F1}
                    R = self.mul(R, r)
                    return self.mul(R, self.const(1))
                inner = {(tuple(rest), restex): F1}
                D = self.patom(inner)
                R = {(((D.id, e),), 0): F1}
                R = self.mul(R, {(tuple(sorted(out)), exr): F1})
                return self.mul(R, r)
        # rational content
        c = None
        from math import gcd
        nn = 0
        dd = 1
        for v in P.values():
            nn = gcd(nn, v.numerator)
            dd = dd * v.denominator // gcd(dd, v.denominator)
        c = Fraction(nn, dd)
        common = None
        for (pw, ex) in P:
            d = {a: k for a, k in pw if self.atoms[a].pos}
            common = d if common is None else {a: min(k, d[a]) for a, k in common.items() if a in d}
        pw = tuple(sorted((a, k) for a, k in (common or {}).items()))
        Q = self.mul(P, {(tuple((a, -k) for a, k in pw), 0): 1 / c})
        if len(Q) < 2:
            Q = P
            c = F1
            pw = ()
        # a perfect square of a single poly atom power is handled by exponent arithmetic
        D = self.patom(Q)
        R = {(((D.id, e),), 0): F1}
        if pw:
            R = self.mul(R, {(tuple((a, k * e) for a, k in pw), 0): F1})
        return self.mul(R, self.ratpow(c, e))

    def ratpow(self, c, e):
        """rational number to a rational power: exact when possible, else an atom per prime-free base"""
        if c == 1:
            return self.const(1)
        q = e.denominator
        out = self.const(1)
        for part, sgn in ((c.numerator, 1), (c.denominator, -1)):
            if part == 1:
                continue
            # trial division up to a bound, the rest stays as one factor
            n, fac = part, {}
            p = 2
            while p * p <= n and p < 2000:
                while n % p == 0:
                    fac[p] = fac.get(p, 0) + 1
                    n //= p
                p += 1
            if n > 1:
                r = round(n ** (1 / q))
                for k in (r - 1, r, r + 1):
                    if k > 1 and k ** q == n:
                        fac[k] = fac.get(k, 0) + q
                        n = 1
                        break
                if n > 1:
                    fac[n] = fac.get(n, 0) + 1
            for p, k in fac.items():
                x = e * k * sgn
                w = x.numerator // x.denominator
                out = self.scale(out, Fraction(p) ** w)
                fr = x - w
                if fr:
                    a = self.atom('root', p, pos=True)
                    out = self.mulroot(out, a, fr, p)
        return out

    def mulroot(self, P, a, fr, p):
        R = {}
        for (pw, ex), c in P.items():
            d = dict(pw)
            k = d.get(a.id, F0) + fr
            w = k.numerator // k.denominator
            k -= w
            d[a.id] = k
            if not k:
                del d[a.id]
            m = (tuple(sorted(d.items())), ex)
            R[m] = R.get(m, F0) + c * Fraction(p) ** w
        return R

    # ------------------------------------------------------------ zero test
    def is_zero(self, P, depth=0):
        P = self.fixroots(P)
        if not P:
            return True
        if not depth and len(P) > 1:
            fp = self.print_of(P)
            if fp is not None and any(fp):
                return False
        parts = self.independent(P)
        if len(parts) > 1:
            return all(self.is_zero(Q, depth) for Q in parts)
        seen = 0
        while True:
            best = None
            for (pw, ex) in P:
                for a, e in pw:
                    if self.atoms[a].kind == 'poly' and (e < 0 or e >= 1):
                        if best is None or a > best:
                            best = a
            if best is None:
                break
            seen += 1
            if seen > 60:
                return False
            # minimal exponent of each class
            lo = F0
            for (pw, ex) in P:
                e = dict(pw).get(best, F0)
                lo = min(lo, e)
            up = -lo
            k = -(-up.numerator // up.denominator)   # ceil
            D = self.atoms[best].data
            groups = {}
            for (pw, ex), c in P.items():
                d = dict(pw)
                e = d.pop(best, F0) + k
                w = e.numerator // e.denominator
                fr = e - w
                if fr:
                    d[best] = fr
                g = groups.setdefault(w, {})
                m = (tuple(sorted(d.items())), ex)
                v = g.get(m, F0) + c
                if v:
                    g[m] = v
                else:
                    g.pop(m, None)
            R = {}
            try:
                # Horner in the denominator
                top = max(groups)
                for w in range(top, -1, -1):
                    if R:
                        R = self.mul(R, D)
                    if w in groups:
                        R = self.add(R, groups[w])
            except TooBig:
                return False
            P = self.fixroots(R)
            if not P:
                return True
        if not P:
            return True
        # conditions: a multilinear polynomial vanishes iff all restrictions vanish (exclusive atoms considered)
        a = self.split_chi(P)
        if a is not None and depth < 12:
            on, off = self.restrict(P, a, 1), self.restrict(P, a, 0)
            if on == P and off == P:
                return False
            return self.is_zero(on, depth + 1) and self.is_zero(off, depth + 1)
        return False

    def independent(self, P):
        """split P by the factors that no denominator of P involves: P vanishes iff every part does"""
        inside, stack, hasex = set(), [], False
        for (pw, ex) in P:
            for a, e in pw:
                if self.atoms[a].kind == 'poly' and a not in inside:
                    inside.add(a)
                    stack.append(a)
        if not inside:
            return [P]
        while stack:
            for (pw, ex) in self.atoms[stack.pop()].data:
                hasex = hasex or bool(ex)
                for a, e in pw:
                    if a not in inside:
                        inside.add(a)
                        if self.atoms[a].kind == 'poly':
                            stack.append(a)
        groups = {}
        for (pw, ex), c in P.items():
            key = tuple((a, e) for a, e in pw if a not in inside and self.atoms[a].kind not in ('chi', 'root', 'I'))
            ke = ex if not hasex else 0
            d = tuple((a, e) for a, e in pw if a in inside or self.atoms[a].kind in ('chi', 'root', 'I'))
            g = groups.setdefault((key, ke), {})
            m = (d, 0 if ke else ex)
            g[m] = g.get(m, F0) + c
        return list(groups.values())

    def fixroots(self, P):
        R = {}
        changed = False
        for (pw, ex), c in P.items():
            d = None
            for a, e in pw:
                if self.atoms[a].kind == 'root' and not (0 <= e < 1):
                    d = d or dict(pw)
                    w = e.numerator // e.denominator
                    c = c * Fraction(self.atoms[a].data) ** w
                    if e - w:
                        d[a] = e - w
                    else:
                        del d[a]
                    changed = True
            m = (tuple(sorted(d.items())), ex) if d is not None else (pw, ex)
            v = R.get(m, F0) + c
            if v:
                R[m] = v
            else:
                R.pop(m, None)
        return R if changed else P

    def equal(self, A, B):
        return self.is_zero(self.sub(A, B))

    # ------------------------------------------------------------ functions
    def i(self):
        return self.mono(self.I)

    def exp(self, Q):
        return self.by_cases([Q], self._exp)

    def _exp(self, Q):
        """exp of a polynomial exponent"""
        Q = self.reduce_mod(Q)
        pre = self.const(1)
        rest = {}
        for (pw, ex), c in Q.items():
            if self.fold and not ex and len(pw) == 2 and pw[0] == (self.I.id, F1) and c.denominator == 1 and pw[1][1] == 1:
                at = self.atoms[pw[1][0]]
                if at.kind == 'app' and at.data[0] in ('arctan2', 'arctan', 'arcsin', 'arccos'):
                    k = int(c)
                    args = [self.vlist[x[1]] for x in at.data[1:]]
                    one = self.const(1)
                    if at.data[0] == 'arctan2':
                        y, x = args
                        z = self.mul(self.add(x, self.mul(self.i(), y)),
                                     self.powfrac(self.add(self.mul(x, x), self.mul(y, y)), -HALF))
                    elif at.data[0] == 'arctan':
                        y, = args
                        z = self.mul(self.add(one, self.mul(self.i(), y)), self.powfrac(self.add(one, self.mul(y, y)), -HALF))
                    elif at.data[0] == 'arcsin':
                        s, = args
                        z = self.add(self.powfrac(self.sub(one, self.mul(s, s)), HALF), self.mul(self.i(), s))
                    else:
                        s, = args
                        z = self.add(s, self.mul(self.i(), self.powfrac(self.sub(one, self.mul(s, s)), HALF)))
                    if k < 0:
                        z = self.conj(z)
                        k = -k
                    pre = self.mul(pre, self.powint(z, k))
                    continue
            rest[(pw, ex)] = c
        if rest:
            ph, s, pw2 = self.normphase(rest)
            E = {(pw2, self.vid(ph) if ph else 0): s}
            pre = self.mul(pre, E)
        return pre

    def reduce_mod(self, Q):
        """drop mod() inside an exponent when the modulus times its factor is a multiple of 2*pi*i"""
        hit = True
        n = 0
        while hit and n < 20:
            hit = False
            n += 1
            for (pw, ex), c in list(Q.items()):
                for a, e in pw:
                    at = self.atoms[a]
                    if at.kind == 'app' and at.data[0] in ('floor', 'ceil', 'round', 'rint', 'trunc') and not ex and \
                            (c / 2).denominator == 1 and pw == tuple(sorted(((self.I.id, F1), (self.PI.id, F1), (a, F1)))):
                        Q = self.sub(Q, {(pw, ex): c})
                        hit = True
                        break
                    if at.kind == 'app' and at.data[0] == 'mod' and e == 1:
                        x, m = self.vlist[at.data[1][1]], self.vlist[at.data[2][1]]
                        rest = {(tuple((b, k) for b, k in pw if b != a), ex): c}
                        full = self.mul(rest, m)
                        key = (((self.I.id, F1), (self.PI.id, F1)), 0)
                        if set(full) == {key} and (full[key] / 2).denominator == 1:
                            Q = self.sub(Q, {(pw, ex): c})
                            Q = self.add(Q, self.mul(rest, x))
                            hit = True
                            break
                if hit:
                    break
        return Q

    def conj(self, P):
        R = {}
        for (pw, ex), c in P.items():
            if any(a == self.I.id for a, e in pw):
                c = -c
            newex = self.vid(self.conj(self.vlist[ex])) if ex else 0
            bad = [(a, e) for a, e in pw if self.atoms[a].kind == 'poly' and self.is_cplx(self.atoms[a].data)]
            if bad:
                part = {(tuple(x for x in pw if x not in bad), newex): c}
                for a, e in bad:
                    part = self.mul(part, self.powfrac(self.conj(self.atoms[a].data), e))
                R = self.add(R, part)
                continue
            m = (pw, newex)
            v = R.get(m, F0) + c
            if v:
                R[m] = v
            else:
                R.pop(m, None)
        return R

    def is_cplx(self, P):
        return self.conj(P) != P

    def re(self, P):
        return self.scale(self.add(P, self.conj(P)), HALF)

    def im(self, P):
        return self.mul(self.scale(self.sub(P, self.conj(P)), HALF), self.scale(self.i(), -1))

    def cos(self, Q):
        z = self.exp(self.mul(self.i(), Q))
        w = self.exp(self.mul(self.scale(self.i(), -1), Q))
        return self.scale(self.add(z, w), HALF)

    def sin(self, Q):
        z = self.exp(self.mul(self.i(), Q))
        w = self.exp(self.mul(self.scale(self.i(), -1), Q))
        return self.mul(self.scale(self.sub(z, w), HALF), self.scale(self.i(), -1))

    def abs(self, P):
        return self.by_cases([P], self._abs)

    def _abs(self, P):
        if set(P) <= {((), 0)}:
            return self.const(abs(P.get(((), 0), F0)))
        n = self.mul(P, self.conj(P))
        return self.powfrac(n, HALF)

    def app(self, head, *Ps, **kw):
        """uninterpreted real function of values"""
        return self.by_cases(list(Ps), lambda *Q: self.mono(
            self.atom('app', (head,) + tuple(('v', self.vid(q)) for q in Q),
                      syms=frozenset().union(*[self.symsof(q) for q in Q]) if Q else frozenset())))

    # ------------------------------------------------------------ terms
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._nf(t)
            self.memo[t.id] = r
        return r

    def eq(self, a, b):
        return self.equal(self.nf(a), self.nf(b))

    def key(self, t):
        """structural identity of a term argument"""
        if not isinstance(t, T):
            return ('l', t if not isinstance(t, Fraction) else str(t))
        if t.op == 'c' and not isinstance(t.args[0], Fraction):
            return ('k', type(t.args[0]).__name__, t.args[0])
        if t.op in STRUCT:
            return (t.op,) + tuple(self.key(a) for a in t.args)
        return ('v', self.vid(self.nf(t)))

    def syms_term(self, t):
        out = set()
        for x in walk(t):
            if x.op == 'sym':
                out.add(x.args[0])
        return frozenset(out)

    def opaque(self, head, *parts, term=None):
        """real atom for an uninterpreted construct"""
        ks = tuple(self.key(p) for p in parts)
        syms = frozenset().union(*[self.syms_term(p) for p in parts if isinstance(p, T)]) if parts else frozenset()
        at = self.atom('app', (head,) + ks, syms=syms, term=term)
        return self.mono(at)

    def cplx(self, P):
        """complex value whose real and imaginary parts are the atoms re/im of P's identity"""
        v = self.vid(P)
        s = self.symsof(P)
        a = self.atom('app', ('re', ('v', v)), syms=s)
        b = self.atom('app', ('im', ('v', v)), syms=s)
        return self.add(self.mono(a), self.mul(self.i(), self.mono(b)))

    def chi(self, key, syms=frozenset(), excl=None, term=None):
        return self.mono(self.atom('chi', key, syms=syms, excl=excl, term=term))

    def bool(self, t):
        """polynomial of a condition"""
        if t is TRUE:
            return self.const(1)
        if t is FALSE or t is NONE:
            return {}
        if t.op == 'not':
            return self.sub(self.const(1), self.bool(t.args[0]))
        if t.op == 'and':
            R = self.const(1)
            for x in t.args:
                R = self.mul(R, self.bool(x))
            return R
        if t.op == 'or':
            R = self.const(1)
            for x in t.args:
                R = self.mul(R, self.sub(self.const(1), self.bool(x)))
            return self.sub(self.const(1), R)
        if t.op == 'ite':
            c = self.bool(t.args[0])
            return self.add(self.mul(c, self.bool(t.args[1])), self.mul(self.sub(self.const(1), c), self.bool(t.args[2])))
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not None:
                return r if isinstance(r, dict) else self.bool(r)
        if t.op == 'cmp':
            return self.cmp(t)
        if t.op == 'call' and t.args[0] in self.erase and len(t.args) > 1:
            return self.bool(t.args[1])
        if t.op == 'c' and isinstance(t.args[0], Fraction):
            return self.const(1 if t.args[0] else 0)
        if t.op in ('div', 'mul', 'add', 'sub', 'pow'):
            return self.opaque_bool('truth', t)
        P = self.nf(t)
        if all(self.atoms[a].kind == 'chi' for (pw, ex) in P for a, e in pw) and not any(ex for pw, ex in P):
            return P
        return self.chi(('truth', self.vid(P)), syms=self.symsof(P), term=t)

    def opaque_bool(self, head, *parts):
        return self.chi((head,) + tuple(self.key(p) for p in parts),
                        syms=frozenset().union(*[self.syms_term(p) for p in parts if isinstance(p, T)]))

    def cmp(self, t):
        op, a, b = t.args[0], t.args[1], t.args[2]
        if op == 'in' and b.op in ('list', 'tuple') and all(x.op == 'c' for x in b.args):
            R = self.const(1)
            for x in b.args:
                R = self.mul(R, self.sub(self.const(1), self.bool(T('cmp', '==', *sorted((a, x), key=lambda y: (y.op == 'c', y.id))))))
            return self.sub(self.const(1), R)
        if op == '==' and b.op == 'c' and not isinstance(b.args[0], Fraction):
            k = self.key(a)
            return self.chi(('==', k, self.key(b)), syms=self.syms_term(a), excl=(('==', k), self.key(b)), term=t)
        if op == '==' and b.op in ('list', 'tuple', 'const') or a.op in ('list', 'tuple', 'dict', 'const'):
            return self.opaque_bool(op, a, b)
        if op in ('==', '<', '<='):
            d = self.sub(self.nf(a), self.nf(b))

            def f(d):
                if set(d) <= {((), 0)}:
                    c = d.get(((), 0), F0)
                    return self.const(int(c == 0 if op == '==' else c < 0 if op == '<' else c <= 0))
                if self.is_zero(d):
                    return self.const(1 if op in ('==', '<=') else 0)
                ld = self.lead({m: c for m, c in d.items() if m != ((), 0)} or d)
                c = d[ld]
                sy = self.symsof(d)
                if op == '==':
                    dn = self.scale(d, 1 / c)
                    k0 = {m: v for m, v in dn.items() if m != ((), 0)}
                    return self.chi(('==0', self.vid(dn)), syms=sy, term=t,
                                    excl=(('n==', self.vid(k0)), str(dn.get(((), 0), F0))))
                if op == '<=':       # a<=b  <=>  not (b<a)
                    return self.sub(self.const(1), self.chi(('<0', self.vid(self.scale(d, -1 / abs(c)))), syms=sy, term=t))
                return self.chi(('<0', self.vid(self.scale(d, 1 / abs(c)))), syms=sy, term=t)
            return self.by_cases([d], f)
        return self.opaque_bool(op, a, b)

    def _nf(self, t):
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not None:
                return r if isinstance(r, dict) else self.nf(r)
        o, a = t.op, t.args
        if o == 'c':
            v = a[0]
            if isinstance(v, bool):
                return self.const(int(v))
            if isinstance(v, Fraction):
                return self.const(v)
            return self.mono(self.atom('sym', ('k', type(v).__name__, v)))
        if o == 'pi':
            return self.mono(self.PI)
        if o == 'I':
            return self.i()
        if o == 'sym':
            at = self.atom('sym', a[0], syms={a[0]}, pos=a[0] in self.positive)
            P = self.mono(at)
            return self.cplx(P) if a[0] in self.complex_syms else P
        if o == 'const':
            return self.mono(self.atom('sym', ('const', a[0])))
        if o == 'add':
            return self.add(self.nf(a[0]), self.nf(a[1]))
        if o == 'sub':
            return self.sub(self.nf(a[0]), self.nf(a[1]))
        if o == 'neg':
            return self.scale(self.nf(a[0]), -1)
        if o == 'mul':
            return self.mul(self.nf(a[0]), self.nf(a[1]))
        if o == 'div':
            return self.mul(self.nf(a[0]), self.inv(self.nf(a[1])))
        if o == 'pow':
            e = self.nf(a[1])
            if set(e) <= {((), 0)}:
                k = e.get(((), 0), F0)
                if abs(k) <= 40:
                    return self.powfrac(self.nf(a[0]), k)
            b = self.nf(a[0])
            if b == self.const(-1):
                return self.by_cases([e], lambda q: self.parity(q))
            return self.app('pow', b, e)
        if o == 'mod':
            x, y = self.nf(a[0]), self.nf(a[1])
            if set(x) <= {((), 0)} and set(y) == {((), 0)}:
                return self.const(x.get(((), 0), F0) % y[((), 0)])
            return self.app('mod', x, y)
        if o == 'fdiv':
            return self.app('floor', self.mul(self.nf(a[0]), self.inv(self.nf(a[1]))))
        if o == 'ite' and self.pointwise and emptyselection(t):
            return self.nf(a[1])
        if o == 'ite':
            c = self.bool(a[0])
            return self.add(self.mul(c, self.nf(a[1])), self.mul(self.sub(self.const(1), c), self.nf(a[2])))
        if o in ('cmp', 'not', 'and', 'or'):
            return self.bool(t)
        if o == 'attr':
            return self.attribute(t)
        if o == 'idx':
            return self.indexed(a[0], a[1], t)
        if o == 'fill':
            if self.pointwise:
                return self.nf(a[1])
            return self.opaque('fill', *a, term=t)
        if o == 'store':
            return self.stored(t)
        if o == 'setattr':
            if self.pointwise and a[1] in ('mask', 'fill_value', 'dtype'):
                return self.nf(a[0])
            if self.pointwise and a[1] == 'data':
                return self.nf(a[2])
            return self.opaque('setattr', *a, term=t)
        if o in ('sum', 'prod'):
            return self.reduction(t)
        if o == 'call':
            return self.callnf(t)
        if o == 'meth':
            if a[0] in ERASE_METH and self.pointwise:
                return self.nf(a[1])
            return self.opaque('meth', *a, term=t)
        return self.opaque('op:' + o, *a, term=t)

    def parity(self, q):
        """(-1)**q for integer q"""
        R = {}
        for (pw, ex), c in q.items():
            if c.denominator == 1:
                if c % 2 == 0:
                    continue
                c = F1
            R[(pw, ex)] = c
        if not R:
            return self.const(1)
        if R == self.const(1):
            return self.const(-1)
        s = 1
        if R.get(((), 0)) == 1:
            R = {m: c for m, c in R.items() if m != ((), 0)}
            s = -1
        return self.scale(self.mono(self.atom('app', ('parity', ('v', self.vid(R))), syms=self.symsof(R))), s)

    def attribute(self, t):
        name, b = t.args
        if name == 'real':
            return self.re(self.nf(b))
        if name == 'imag':
            return self.im(self.nf(b))
        if name == 'T' and 'T' in self.keep:
            P = self.nf(b)
            return P if not P or set(P) == {((), 0)} else self.opaque('T', b)
        if name in ('data', 'T', 'flat', 'values') and self.pointwise:
            return self.nf(b)
        if name == 'mask':
            return self.opaque_bool('mask', b)
        return self.opaque('attr', name, b, term=t)

    ELEM = {'add', 'sub', 'mul', 'div', 'neg', 'pow', 'mod', 'not', 'and', 'or'}

    def erased_index(self, i):
        parts = i.args if i.op == 'tuple' else (i,)
        return all(p is NONE or (p.op == 'slice' and all(x is NONE for x in p.args)) or
                   (p.op == 'const' and p.args[0] == 'Ellipsis') for p in parts)

    # ---- static shapes ------------------------------------------------
    def shape(self, t):
        """list of dimension terms (None when a dimension is unknown) or None"""
        r = self.shapes_memo.get(t.id, 0)
        if r == 0:
            self.shapes_memo[t.id] = None
            r = self._shape(t)
            self.shapes_memo[t.id] = r
        return r

    def _shape(self, t):
        o, a = t.op, t.args
        if o == 'sym':
            return self.shapes.get(a[0])
        if o in ('store', 'fill', 'setattr'):
            return self.shape(a[0])
        if o == 'storeloop':
            return self.shape(a[1])
        if o in self.ELEM or o in ('cmp', 'ite') or (o == 'call' and a[0] in UNARY):
            best = None
            for x in a:
                if isinstance(x, T) and x.op != 'kw':
                    s = self.shape(x)
                    if s is not None and (best is None or len(s) > len(best)):
                        best = list(s)
                    elif s is not None and best is not None and len(s) == len(best):
                        best = [q if (p is None or num(p) == 1) else p for p, q in zip(best, s)]
            return best
        if o == 'attr':
            s = self.shape(a[1])
            if a[0] == 'T' and s is not None:
                return s[::-1]
            return s if a[0] in ('real', 'imag', 'data', 'mask', 'T') else None
        if o == 'meth' and a[0] in ERASE_METH:
            return self.shape(a[1])
        if o == 'call':
            n = a[0].split('.')[-1]
            pos = [x for x in a[1:] if x.op != 'kw']
            if n in ('zeros', 'ones', 'empty', 'full') and a[0].startswith('numpy') and pos:
                if pos[0].op in ('tuple', 'list'):
                    return list(pos[0].args)
                if pos[0].op == 'attr' and pos[0].args[0] == 'shape':
                    return self.shape(pos[0].args[1])
                if pos[0].op == 'call' and pos[0].args[0] == 'numpy.shape':
                    return self.shape(pos[0].args[1])
                return [pos[0]]
            if pos and pos[0].op in ('tuple', 'list') and (n == 'column_stack' or n == 'stack' and a[-1].op == 'kw' and num(a[-1].args[1]) in (1, -1)):
                return [None, C(len(pos[0].args))]
            if n in ('zeros_like', 'ones_like', 'empty_like', 'copy', 'full_like') and pos:
                return self.shape(pos[0])
            if a[0] in ERASE_CALL and pos:
                if n in ('ravel', 'squeeze', 'reshape', 'broadcast_to', 'expand_dims', 'atleast_2d'):
                    return None
                return self.shape(pos[0])
            if n == 'transpose' and len(pos) == 1:
                s = self.shape(pos[0])
                return s[::-1] if s else None
            if n == 'dot' and len(pos) == 2:
                x, y = self.shape(pos[0]), self.shape(pos[1])
                if x and y:
                    return x[:-1] + (y[:-2] + y[-1:] if len(y) > 1 else [])
        if o in ('list', 'tuple') and a:
            s = self.shape(a[0])
            return [C(len(a))] + (s or [])
        if o == 'idx':
            if self.is_cr(a[0], 'c_') and a[1].op == 'tuple':
                return [None, C(len(a[1].args))]
            if self.is_cr(a[0], 'r_') and a[1].op == 'tuple':
                return [C(len(a[1].args))]
            s = self.shape(a[0])
            if s is None:
                return None
            parts = list(a[1].args) if a[1].op == 'tuple' else [a[1]]
            out = []
            s = list(s)
            for p in parts:
                if p is NONE:
                    out.append(C(1))
                elif not s:
                    return None
                elif p.op == 'slice':
                    d = s.pop(0)
                    out.append(d if all(x is NONE for x in p.args) else None)
                elif p.op == 'const':
                    return None
                else:
                    s.pop(0)
            return out + s
        return None

    def is_cr(self, t, n):
        return t.op == 'ext' and t.args[0] == 'numpy.' + n

    def dim(self, t, k):
        """static integer extent of dimension k"""
        s = self.shape(t)
        if s is None or not -len(s) <= k < len(s) or s[k] is None:
            return None
        n = num(s[k])
        return int(n) if n is not None and n.denominator == 1 else None

    @staticmethod
    def full(p):
        return p.op == 'slice' and all(x is NONE for x in p.args)

    def indexed(self, b, i, t):
        if self.pointwise and self.erased_index(i):
            return self.nf(b)
        r = self.elem(b, i)
        if r is not None:
            return self.nf(r) if isinstance(r, T) else r
        if b.op not in STRUCT:
            base = self.nf(b)
            if set(base) <= {((), 0)}:
                return base
        if i.op == 'tuple' and len(i.args) > 1 and self.full(i.args[-1]):
            # a trailing full slice selects everything
            return self.nf(T('idx', b, T('tuple', *i.args[:-1]) if len(i.args) > 2 else i.args[0]))
        P = self.opaque('idx', b, i, term=t)
        if self.rooted_complex(b):
            return self.cplx(P)
        return P

    def rooted_complex(self, t):
        while True:
            if t.op == 'sym':
                return t.args[0] in self.complex_syms
            if t.op == 'idx' or t.op == 'setattr':
                t = t.args[0]
            elif t.op == 'attr' and t.args[0] in ('T', 'data', 'flat', 'values'):
                t = t.args[1]
            elif t.op == 'meth' and t.args[0] in ERASE_METH:
                t = t.args[1]
            elif t.op == 'call' and t.args[0] in self.erase and len(t.args) > 1:
                t = t.args[1]
            elif t.op == 'call':
                return t.args[0] in self.complex_calls
            else:
                return False

    def elem(self, b, i):
        """element term of an array expression at an index (None: leave it alone)"""
        if b.op in self.ELEM:
            return T(b.op, *[self.push(x, i) for x in b.args])
        if b.op in ('and', 'or', 'not') and i.op != 'list':
            return T(b.op, *[self.push(x, i) for x in b.args])
        if b.op == 'cmp' and b.args[0] in ('==', '<', '<='):
            return T('cmp', b.args[0], self.push(b.args[1], i), self.push(b.args[2], i))
        if b.op == 'sym' and b.args[0] in self.scalars or b.op == 'call' and b.args[0] in ('numpy.min', 'numpy.max', 'len') and len(b.args) == 2:
            return b
        if b.op == 'idx' and b.args[0].op == 'call' and b.args[0].args[0] in self.scalars:
            return b
        if b.op == 'ite' and emptyselection(b):
            return T('idx', b.args[1], i)
        if b.op == 'ite':
            return T('ite', b.args[0] if self.shape(b.args[0]) is None else self.push(b.args[0], i),
                     self.push(b.args[1], i), self.push(b.args[2], i))
        if b.op == 'call' and b.args[0] in UNARY and all(not (isinstance(x, T) and x.op == 'kw') for x in b.args[1:]):
            return T('call', b.args[0], *[self.push(x, i) for x in b.args[1:]])
        if b.op == 'attr' and b.args[0] in ('real', 'imag'):
            return T('attr', b.args[0], self.push(b.args[1], i))
        if b.op == 'call' and b.args[0] == 'numpy.diff' and len(b.args) == 2 and num(i) is not None:
            k = int(num(i))     # of vectors
            return T('sub', T('idx', b.args[1], C(k + 1 if k >= 0 else k)), T('idx', b.args[1], C(k if k >= 0 else k - 1)))
        parts = list(i.args) if i.op == 'tuple' else [i]
        if b.op == 'call' and b.args[0] in self.erase and self.pointwise and len(b.args) > 1 and \
                (b.args[1].op not in ('list', 'tuple') or b.args[0].split('.')[-1] in ('array', 'asarray', 'copy')):
            return T('idx', b.args[1], i)
        if b.op == 'meth' and b.args[0] in ERASE_METH and self.pointwise:
            return T('idx', b.args[1], i)
        if b.op == 'attr' and b.args[0] in ('data',) and self.pointwise:
            return T('idx', b.args[1], i)
        if (b.op == 'attr' and b.args[0] == 'T' or b.op == 'call' and b.args[0] == 'numpy.transpose' and len(b.args) == 2) and len(parts) == 2:
            return T('idx', b.args[1], T('tuple', *parts[::-1]))
        if b.op == 'call' and b.args[0].startswith('numpy.') and b.args[0].split('.')[-1] in ('zeros', 'zeros_like', 'empty'):
            return C(0)
        if b.op == 'call' and b.args[0].startswith('numpy.') and b.args[0].split('.')[-1] in ('ones', 'ones_like'):
            return C(1)
        if b.op == 'call' and b.args[0] in ('numpy.vstack', 'numpy.row_stack', 'numpy.stack') and len(b.args) == 2 \
                and b.args[1].op in ('tuple', 'list') and num(parts[0]) is not None:
            k = int(num(parts[0]))
            if -len(b.args[1].args) <= k < len(b.args[1].args):
                x = b.args[1].args[k]
                return self.sub_idx(x, parts[1:])
        if b.op in ('list', 'tuple') and num(parts[0]) is not None:
            k = int(num(parts[0]))
            if -len(b.args) <= k < len(b.args):
                return self.sub_idx(b.args[k], parts[1:])
        if b.op in ('list', 'tuple') and self.full(parts[0]) and len(parts) > 1:
            return T('list', *[self.sub_idx(x, parts[1:]) for x in b.args])
        if b.op == 'call' and len(b.args) > 1 and b.args[1].op in ('tuple', 'list') and (
                b.args[0] == 'numpy.column_stack' and len(b.args) == 2 or b.args[0] == 'numpy.stack' and len(b.args) == 3
                and b.args[2].op == 'kw' and b.args[2].args[0] == 'axis' and num(b.args[2].args[1]) in (1, -1)):
            b = T('idx', T('ext', 'numpy.c_'), T('tuple', *b.args[1].args))
        if b.op == 'idx' and self.is_cr(b.args[0], 'c_') and b.args[1].op == 'tuple' and parts[0].op != 'slice' and \
                (len(parts) == 1 or len(parts) == 2 and self.full(parts[1])):
            return T('list', *[self.sub_idx(x, parts[:1]) for x in b.args[1].args])
        if b.op == 'idx' and self.is_cr(b.args[0], 'c_') and b.args[1].op == 'tuple' and len(parts) == 2 and num(parts[1]) is not None:
            k = int(num(parts[1]))
            if -len(b.args[1].args) <= k < len(b.args[1].args):
                return self.sub_idx(b.args[1].args[k], parts[:1])
        if b.op == 'idx' and self.is_cr(b.args[0], 'r_') and b.args[1].op == 'tuple' and num(parts[0]) is not None:
            k = int(num(parts[0]))
            if -len(b.args[1].args) <= k < len(b.args[1].args):
                return self.sub_idx(b.args[1].args[k], parts[1:])
        if b.op == 'idx' and (b.args[1].op != 'slice' or self.full(parts[0]) or num(parts[0]) is not None and num(b.args[1].args[2]) is not None) and b.args[1] is not NONE:
            inner = list(b.args[1].args) if b.args[1].op == 'tuple' else [b.args[1]]
            if not any(x is NONE or x.op == 'const' for x in inner) and not self.is_cr(b.args[0], 'c_') and not self.is_cr(b.args[0], 'r_'):
                # A[i][j]: fill the open slots of the inner index, then append
                outer = list(parts)
                new = []
                composed = True
                for x in inner:
                    if x.op == 'slice' and outer and x.args[1] is NONE and num(outer[0]) is not None and num(outer[0]) >= 0 and num(x.args[0]) is not None and num(x.args[0]) >= 0 \
                            and num(x.args[2]) is not None and num(x.args[2]) > 0:      # A[a::s][k]
                        new.append(C(num(x.args[0]) + num(x.args[2])*num(outer.pop(0))))
                    elif x.op == 'slice' and not self.full(x):    # A[a:b, :][:, i]: a part is kept by an open slot
                        composed = composed and bool(outer) and self.full(outer[0])
                        new.append(x)
                        outer = outer[1:]
                    elif self.full(x) and outer:
                        new.append(outer.pop(0))
                    elif x.op == 'list' and outer and sum(y.op == 'list' for y in inner) == 1 and num(outer[0]) is not None \
                            and -len(x.args) <= int(num(outer[0])) < len(x.args):
                        new.append(x.args[int(num(outer.pop(0)))])
                    else:
                        new.append(x)
                if composed:
                    return T('idx', b.args[0], T('tuple', *(new + outer)) if len(new + outer) > 1 else (new + outer)[0])
        if b.op == 'storeloop':
            r = self.loopread(b, i)
            if r is not None:
                return r
        if b.op == 'map':
            if len(parts) == 1 and parts[0].op not in ('slice',):
                return subst(b.args[1], {b.args[0].args[0]: i})
        if b.op == 'fill':
            return self.push(b.args[1], i)
        if b.op == 'store':
            if self.pointwise and boolterm(selector(b.args[1])):
                v = strip_index(b.args[2], b.args[1])
                return T('ite', T('idx', selector(b.args[1]), i), v if scalarish(v) else T('idx', v, i), T('idx', b.args[0], i))
            m = self.match(b.args[1], parts)
            if m == 'no':
                return T('idx', b.args[0], i)
            if m is not None:
                return self.sub_idx(b.args[2], m) if m else b.args[2]
        if b.op == 'call' and b.args[0] in ('numpy.dot', 'numpy.matmul') and len(b.args) == 3:
            A, B = b.args[1], b.args[2]
            n = self.dim(A, -1)
            if n is None:
                n = self.dim(B, 0 if len(self.shape(B) or [1]) == 1 else -2)
            sa = self.shape(A)
            if n is not None and n <= 64:
                two = sa is None or len(sa) == 2
                if sa is not None and len(sa) == 1:
                    return self.addup([T('mul', T('idx', A, C(k)), T('idx', B, T('tuple', C(k), *parts) if parts else C(k)))
                                       for k in range(n)])
                if two and parts:
                    row, rest = parts[0], parts[1:]
                    terms = [T('mul', T('idx', A, T('tuple', row, C(k))),
                               T('idx', B, T('tuple', C(k), *rest) if rest else C(k))) for k in range(n)]
                    return self.addup(terms)
        if b.op == 'call' and b.args[0] == 'numpy.einsum':
            r = self.einsum(b, parts)
            if r is not None:
                return r
        if b.op == 'call' and b.args[0] == 'numpy.linalg.inv' and len(b.args) == 2 and len(parts) >= 2 and num(parts[-1]) is not None \
                and num(parts[-2]) is not None and self.dim(b.args[1], -1) in (2, 3):
            n, X = self.dim(b.args[1], -1), b.args[1]
            r, c = int(num(parts[-2])) % n, int(num(parts[-1])) % n
            m = lambda p, q: T('idx', X, T('tuple', *parts[:-2], C(p % n), C(q % n)))
            mul = lambda *xs: T('mul', xs[0], xs[1]) if len(xs) == 2 else T('mul', T('mul', xs[0], xs[1]), xs[2])
            if n == 2:
                det = T('sub', mul(m(0, 0), m(1, 1)), mul(m(0, 1), m(1, 0)))
                cof = m(c + 1, r + 1) if r == c else T('neg', m(r, c))
            else:
                minor = lambda p, q: T('sub', mul(m(p + 1, q + 1), m(p + 2, q + 2)), mul(m(p + 1, q + 2), m(p + 2, q + 1)))
                det = self.addup([mul(m(0, q), minor(0, q)) for q in range(3)])
                cof = minor(c, r)
            return T('div', cof, det)
        if b.op == 'call' and b.args[0] == 'numpy.repeat' and len(b.args) == 4 and len(parts) == 2 and b.args[3].op == 'kw' \
                and b.args[3].args[0] == 'axis' and num(b.args[3].args[1]) == 0:
            row = b.args[1]
            if row.op == 'call' and row.args[0] == 'numpy.atleast_2d' and len(row.args) == 2:
                return T('idx', row.args[1], parts[1])
            if row.op == 'idx' and row.args[1].op == 'tuple' and row.args[1].args[0] is NONE and all(self.full(x) for x in row.args[1].args[1:]):
                return T('idx', row.args[0], parts[1])
        if b.op == 'call' and b.args[0] == 'numpy.cross' and len(b.args) == 3 and num(parts[-1]) is not None:
            k = int(num(parts[-1])) % 3
            A, B = b.args[1], b.args[2]
            ix = lambda X, j: T('idx', X, T('tuple', *parts[:-1], C(j)) if len(parts) > 1 else C(j))
            p, q = (k + 1) % 3, (k + 2) % 3
            return T('sub', T('mul', ix(A, p), ix(B, q)), T('mul', ix(A, q), ix(B, p)))
        return None

    def sub_idx(self, x, parts):
        parts = list(parts)
        if not parts or all(self.full(p) for p in parts):
            return x
        return T('idx', x, T('tuple', *parts) if len(parts) > 1 else parts[0])

    def match(self, stored, parts):
        """store index against read index: 'no' disjoint, list of remaining indices into the value, None unknown"""
        sp = list(stored.args) if stored.op == 'tuple' else [stored]
        if any(x.op == 'const' for x in sp + parts):
            return None
        n = max(len(sp), len(parts))
        full = T('slice', NONE, NONE, NONE)
        sp = sp + [full] * (n - len(sp))
        rp = parts + [full] * (n - len(parts))
        rest = []
        for x, y in zip(sp, rp):
            if x is y:
                if self.full(x):
                    rest.append(y)
                    continue
                if x.op == 'slice':
                    return None
                continue
            p, q = num(x), num(y)
            if p is not None and q is not None and (p >= 0) == (q >= 0):
                return 'no'
            if self.full(x) and y.op != 'slice':
                rest.append(y)
                continue
            return None
        while rest and self.full(rest[-1]):
            rest.pop()
        return rest

    def addup(self, terms):
        cur = terms[0] if terms else C(0)
        for x in terms[1:]:
            cur = T('add', cur, x)
        return cur

    def einsum(self, b, parts):
        spec = sval(b.args[1])
        ops = [x for x in b.args[2:] if x.op != 'kw']
        if spec is None or '->' not in spec:
            return None
        ins, out = spec.replace('...', '').replace(' ', '').split('->')
        ins = ins.split(',')
        if len(ins) != len(ops) or len(out) < len(parts):
            return None
        val = dict(zip(out, list(parts) + [T('slice', NONE, NONE, NONE)] * (len(out) - len(parts))))
        contr = sorted(set(''.join(ins)) - set(out))
        rng = []
        for c in contr:
            n = None
            for sp, x in zip(ins, ops):
                if c in sp:
                    n = n or self.dim(x, sp.index(c))
            if n is None or n > 16:
                return None
            rng.append(n)
        import itertools
        terms = []
        for combo in itertools.product(*[range(n) for n in rng]):
            v = dict(val)
            v.update({c: C(k) for c, k in zip(contr, combo)})
            cur = None
            for sp, x in zip(ins, ops):
                e = T('idx', x, T('tuple', *[v[c] for c in sp]) if len(sp) > 1 else v[sp[0]])
                cur = e if cur is None else T('mul', cur, e)
            terms.append(cur)
        return self.addup(terms)

    def hasapp(self, P):
        return True if P and set(P) - {((), 0)} else False

    def chosen(self, x):
        """elements (with the condition that they are selected) of a short array, or of elements selected from short arrays"""
        sels, stack = set(), [x]
        while stack:
            y = stack.pop()
            if y.op in self.ELEM or y.op in ('cmp', 'and', 'or', 'not', 'ite') or y.op == 'call' and y.args[0] in UNARY:
                stack += [z for z in y.args if isinstance(z, T)]
            elif y.op == 'idx' and (selector(y.args[1]) is not y.args[1] or boolterm(y.args[1])):
                sels.add(y.args[1])
        if sels:
            # (elements of one grid cell are broadcast along a selection from a short array)
            short = [i for i in sels if (sh := self.shape(selector(i))) is not None and len(sh) == 1 and num(sh[0]) is not None and num(sh[0]) <= 16]
            if len(short) != 1:
                return None
            i, = short
            c = selector(i)
            sh = self.shape(c)
            return [(self.atindex(c, j), rewrite(x, lambda y: self.atindex(y.args[0], j) if y.op == 'idx' and y.args[1] is i else y)) for j in range(int(num(sh[0])))]
        if x.op in ('list', 'tuple'):
            return [(TRUE, y) for y in x.args]
        sh = self.shape(x)
        if sh is None or len(sh) != 1 or num(sh[0]) is None or num(sh[0]) > 16:
            return None
        return [(TRUE, self.atindex(x, j)) for j in range(int(num(sh[0])))]

    def atindex(self, x, j):
        return T('idx', x, C(j))

    def push(self, x, i):
        if x.op == 'call' and x.args[0] in ('numpy.min', 'numpy.max', 'len') and len(x.args) == 2 or x.op == 'sym' and x.args[0] in self.scalars:
            return x
        if x.op in ('c', 'pi', 'I', 'const') or (x.op == 'sym' and str(x.args[0]).startswith('%')):
            return x
        return T('idx', x, i)

    def loopread(self, b, i):
        """element of an array filled in a loop, when the index addresses the loop variable"""
        dom, init = b.args[0], b.args[1]
        iv = dom.args[0]
        pairs = list(zip(b.args[2::2], b.args[3::2]))
        if len(pairs) != 1:
            return None
        k, v = pairs[0]
        mp = {}

        def old(t):
            return rewrite(t, lambda x: T('idx', init, i) if x.op == 'old' else x)
        sel = k.args[0] if k.op == 'idx' and k.args[1] is iv else None
        if sel is not None and selector(sel) is not sel and selector(sel).op in ('and', 'or', 'not', 'cmp', 'attr', 'call', 'sym', 'ite'):
            # loop over the indices of the true elements of a condition
            r = dom.args[1]
            if r.op == 'range' and num(r.args[0]) == 0 and num(r.args[2]) == 1 and r.args[1].op == 'len' and r.args[1].args[0] is sel or r is sel or \
                    r.op == 'range' and num(r.args[0]) == 0 and num(r.args[2]) == 1 and r.args[1] is T('call', 'len', sel):
                v = old(rewrite(v, lambda x: i if x is k else x))
                if not any(x is iv or x is sel for x in walk(v)):
                    return T('ite', self.push(selector(sel), i), v, T('idx', init, i))
            return None

        def un(p, q):
            if p is iv:
                mp[iv] = q
                return True
            if p is q:
                return True
            if p.op == q.op == 'tuple' and len(p.args) == len(q.args):
                return all(un(x, y) for x, y in zip(p.args, q.args))
            return False
        if un(k, i) and iv in mp:
            return old(subst(v, mp))
        return None

    def stored(self, t):
        c, i, v = t.args
        if self.pointwise and boolterm(selector(i)):
            # masked assignment: x[cond] = v
            vv = strip_index(v, i)
            cc = self.bool(selector(i))
            return self.add(self.mul(cc, self.nf(vv)), self.mul(self.sub(self.const(1), cc), self.nf(c)))
        return self.opaque('store', c, i, v, term=t)

    def reduction(self, t):
        dom, body = t.args
        iv = dom.args[0]
        # canonical bound variable
        lvl = 0
        for x in walk(body):
            if x.op == 'sym' and str(x.args[0]).startswith('%b'):
                lvl = max(lvl, int(str(x.args[0])[2:]) + 1)
        inner = [x for x in walk(body) if x.op in ('sum', 'prod', 'map', 'storeloop')]
        lvl = max(lvl, len(inner))
        bv = S(f'%b{lvl}')
        body = subst(body, {iv: bv})
        rng = dom.args[1]
        P = self.nf(body)
        dk = self.key(rng)
        if t.op == 'prod':
            return self.mono(self.atom('app', ('prod', dk, ('v', self.vid(P))), syms=(self.symsof(P) | self.syms_term(rng)) - {bv.args[0]}))
        name = bv.args[0]
        R = {}
        for (pw, ex), c in P.items():
            fr, bd = [], []
            for a, e in pw:
                (bd if name in self.atoms[a].syms else fr).append((a, e))
            fex, bex = 0, 0
            if ex:
                f, b = {}, {}
                for m, k in self.vlist[ex].items():
                    if name in self.symsof({m: k}):
                        b[m] = k
                    else:
                        f[m] = k
                fex = self.vid(f) if f else 0
                bex = self.vid(b) if b else 0
            bp = {(tuple(bd), bex): F1}
            at = self.atom('app', ('sum', dk, ('v', self.vid(bp))), syms=(self.symsof(bp) | self.syms_term(rng)) - {name})
            sm = self.mono(at)
            if self.is_cplx(bp):
                # complex summand: keep the sum as re + i im so that conjugation stays exact
                re_, im_ = self.re(bp), self.im(bp)
                sm = self.add(self.mono(self.atom('app', ('sum', dk, ('v', self.vid(re_))), syms=at.syms)),
                              self.mul(self.i(), self.mono(self.atom('app', ('sum', dk, ('v', self.vid(im_))), syms=at.syms))))
            R = self.add(R, self.mul({(tuple(fr), fex): c}, sm))
        return R

    def reshaped(self, x, shape):
        """rearrangement of the elements: commutes with elementwise operations"""
        return self.reshapepoly(self.nf(x), self.key(shape))

    def reshapepoly(self, P, sk):
        R = {}
        for (pw, ex), c in P.items():
            M = self.const(c)
            if ex:
                M = self.mul(M, self.exp(self.reshapepoly(self.vlist[ex], sk)))
            for a, e in pw:
                at = self.atoms[a]
                if at is self.I or at is self.PI or at.kind == 'root' or at.kind == 'chi' and at.data[0] not in ('mask', 'reshape'):
                    A = self.mono(at)
                elif at.kind == 'chi':
                    A = self.chi(('reshape', ('v', self.vid(self.mono(at))), sk), syms=at.syms)
                elif at.kind == 'poly':
                    A = self.reshapepoly(at.data, sk)
                else:
                    A = self.mono(self.atom('app', ('reshape', ('v', self.vid(self.mono(at))), sk), syms=at.syms))
                M = self.mul(M, self.powfrac(A, e))
            R = self.add(R, M)
        return R

    def callnf(self, t):
        n, args = t.args[0], t.args[1:]
        pos = [x for x in args if not (isinstance(x, T) and x.op == 'kw')]
        kws = {x.args[0]: x.args[1] for x in args if isinstance(x, T) and x.op == 'kw'}
        if n == 'numpy.reshape' and n in self.keep and len(pos) == 2:
            return self.reshaped(pos[0], pos[1])
        if n in self.erase and self.pointwise and pos and pos[0].op not in ('list', 'tuple', 'dict'):
            return self.nf(pos[0])
        if n in ('scipy.special.factorial', 'math.factorial', 'numpy.math.factorial') and len(pos) == 1 and num(pos[0]) is not None and \
                num(pos[0]).denominator == 1 and 0 <= num(pos[0]) <= 170:
            return self.const(math.factorial(int(num(pos[0]))))
        if n == 'numpy.angle' and pos and not (set(kws) - {'deg'}):
            deg = kws.get('deg') or (pos[1] if len(pos) > 1 else FALSE)
            if deg in (TRUE, FALSE):
                z = self.nf(pos[0])
                v = self.by_cases([self.im(z), self.re(z)], self.arctan2)
                return v if deg is FALSE else self.scale(self.mul(v, self.inv(self.mono(self.PI))), 180)
        if len(pos) == 1 and not (set(kws) - {'dtype', 'out', 'where'}):
            x = pos[0]
            if not self.trig and n in ('numpy.sin', 'numpy.cos', 'numpy.tan'):
                q = self.nf(x)
                if n == 'numpy.tan':
                    return self.mul(self.odd('sin', q), self.inv(self.odd('cos', q)))
                return self.odd(n[6:], q)
            if n == 'numpy.sin':
                return self.sin(self.nf(x))
            if n == 'numpy.cos':
                return self.cos(self.nf(x))
            if n == 'numpy.tan':
                return self.mul(self.sin(self.nf(x)), self.inv(self.cos(self.nf(x))))
            if n in ('numpy.exp', 'math.exp', 'cmath.exp'):
                return self.exp(self.nf(x))
            if n in ('numpy.sinh', 'numpy.cosh', 'numpy.tanh'):
                q = self.nf(x)
                p, m = self.exp(q), self.exp(self.scale(q, -1))
                sh, ch = self.scale(self.sub(p, m), HALF), self.scale(self.add(p, m), HALF)
                return {'numpy.sinh': lambda: sh, 'numpy.cosh': lambda: ch, 'numpy.tanh': lambda: self.mul(sh, self.inv(ch))}[n]()
            if n in ('numpy.conj',):
                return self.conj(self.nf(x))
            if n == 'numpy.abs':
                return self.abs(self.nf(x))
            if n in ('numpy.arctan', 'numpy.arcsin', 'numpy.arccos', 'numpy.log', 'numpy.sign', 'numpy.floor', 'numpy.ceil',
                     'numpy.log10', 'numpy.round', 'numpy.rint', 'numpy.trunc'):
                return self.odd(n.split('.')[1], self.nf(x))
            if n in ('numpy.real', 'numpy.imag'):
                return self.re(self.nf(x)) if n.endswith('real') else self.im(self.nf(x))
            if n in ('numpy.zeros', 'numpy.zeros_like', 'numpy.ma.zeros', 'numpy.ma.zeros_like') and self.pointwise:
                return {}
            if n in ('numpy.ones', 'numpy.ones_like', 'numpy.ma.ones', 'numpy.ma.ones_like') and self.pointwise:
                return self.const(1)
            if n in ('numpy.isnan', 'numpy.isfinite', 'numpy.isinf'):
                return self.opaque_bool(n, x)
        if n in ('numpy.inner', 'numpy.dot') and len(pos) == 2:
            k = self.dim(pos[1], -1)
            sh = self.shape(pos[1])
            if k is not None and sh is not None and len(sh) == 1 and k <= 64:
                full = T('slice', NONE, NONE, NONE)
                s0 = self.shape(pos[0])
                one = s0 is not None and len(s0) == 1
                return self.nf(self.addup([T('mul', T('idx', pos[0], C(j) if one else T('tuple', full, C(j))), T('idx', pos[1], C(j)))
                                           for j in range(k)]))
        if n in ('numpy.sum', 'numpy.any', 'numpy.all') and len(pos) == 1 and not kws:
            parts = self.chosen(pos[0])
            if parts is not None:
                if n == 'numpy.sum':
                    return self.nf(self.addup([T('ite', c, x, C(0)) for c, x in parts]))
                return self.bool(T('or', *[T('and', c, x) for c, x in parts]) if n == 'numpy.any' else
                                 T('and', *[T('or', T('not', c), x) for c, x in parts]))
        if n in ('numpy.sum', 'numpy.linalg.norm') and len(pos) >= 1:
            ax = kws.get('axis') or (pos[1] if len(pos) > 1 and n == 'numpy.sum' else None)
            sh = self.shape(pos[0])
            if sh is not None and (ax is not None and num(ax) is not None or ax is None and len(sh) == 1):
                axn = int(num(ax)) if ax is not None else 0
                k = self.dim(pos[0], axn)
                if k is not None and k <= 64:
                    full = T('slice', NONE, NONE, NONE)
                    pre = [full] * (axn if axn >= 0 else len(sh) + axn)
                    ts = [T('idx', pos[0], T('tuple', *pre, C(j)) if pre else C(j)) for j in range(k)]
                    if n == 'numpy.sum':
                        return self.nf(self.addup(ts))
                    return self.powfrac(self.nf(self.addup([T('mul', x, x) for x in ts])), HALF)
            if n == 'numpy.sum' and pos[0].op in ('list', 'tuple') and (ax is not None and num(ax) == 0):
                return self.nf(self.addup(list(pos[0].args)))
        if len(pos) == 2 and n == 'numpy.arctan2':
            return self.by_cases([self.nf(pos[0]), self.nf(pos[1])], self.arctan2)
        if len(pos) == 2 and n == 'numpy.hypot':
            x, y = self.nf(pos[0]), self.nf(pos[1])
            return self.powfrac(self.add(self.mul(x, x), self.mul(y, y)), HALF)
        if n == 'numpy.outer' and len(pos) == 2:
            def outer(A, B):
                if not A or not B:
                    return {}
                a, b = A[self.lead(A)], B[self.lead(B)]
                return self.scale(self.app('outer', self.scale(A, 1 / a), self.scale(B, 1 / b)), a * b)
            return outer(self.nf(pos[0]), self.nf(pos[1]))
        if len(pos) == 2 and n == 'numpy.fmod':
            return self.app('fmod', self.nf(pos[0]), self.nf(pos[1]))
        if n in ('numpy.full', 'numpy.full_like') and len(pos) >= 2 and self.pointwise:
            return self.nf(pos[1])
        if n == 'numpy.logical_xor' and len(pos) == 2:
            x, y = self.bool(pos[0]), self.bool(pos[1])
            return self.sub(self.add(x, y), self.scale(self.mul(x, y), 2))
        return self.opaque('call', n, *args, term=t)

    def odd(self, head, P):
        """odd functions get a sign-normalised argument"""
        def f(P):
            if not P:
                if head in ('arctan', 'arcsin', 'sign', 'floor', 'ceil', 'round', 'rint', 'trunc'):
                    return {}
            if head in ('sin', 'cos') and not P:
                return self.const(1) if head == 'cos' else {}
            if head in ('sin', 'cos') and P[self.lead(P)] < 0:
                return self.scale(self.app(head, self.scale(P, -1)), -1 if head == 'sin' else 1)
            if head in ('arctan', 'arcsin', 'sign') and P:
                ld = self.lead(P)
                if P[ld] < 0:
                    return self.scale(self.app(head, self.scale(P, -1)), -1)
            return self.app(head, P)
        return self.by_cases([P], f)

    def arctan2(self, y, x):
        """positive scale invariant: both arguments divided by a positive common factor"""
        if not y and not x:
            return {}
        allp = list(y.items()) + list(x.items())
        if not y and len(x) == 1:
            (pw, ex), c0 = next(iter(x.items()))
            if c0 > 0 and not ex and all(self.atoms[a].pos for a, e in pw):
                return {}
        ld = min((m for m, c in allp), key=lambda m: (len(m[0]), m[0], m[1]))
        c = abs(dict(y).get(ld) or dict(x).get(ld))
        y, x = self.scale(y, 1 / c), self.scale(x, 1 / c)
        common = None
        for (pw, ex) in list(y) + list(x):
            d = {a: k for a, k in pw if self.atoms[a].pos}
            common = d if common is None else {a: min(k, d[a]) for a, k in common.items() if a in d}
        if common:
            f = {(tuple((a, -k) for a, k in sorted(common.items())), 0): F1}
            y, x = self.mul(y, f), self.mul(x, f)
        if y:
            l2 = self.lead(y)
            if y[l2] < 0:
                return self.scale(self.app('arctan2', self.scale(y, -1), x), -1)
        return self.app('arctan2', y, x)

    # ------------------------------------------------------------ display
    def show(self, P, n=8):
        if not P:
            return '0'
        out = []
        for (pw, ex), c in sorted(P.items(), key=lambda x: str(x[0]))[:n]:
            s = [str(c) if len(str(c)) < 24 else repr(float(c))]
            for a, e in pw:
                s.append(self.showatom(self.atoms[a]) + ('' if e == 1 else f'^{e}'))
            if ex:
                s.append('exp[' + self.show(self.vlist[ex], 5) + ']')
            out.append('*'.join(s))
        return ' + '.join(out) + (f' + …({len(P)} terms)' if len(P) > n else '')

    def showatom(self, a, d=3):
        if a.kind == 'I':
            return 'i'
        if a.kind == 'sym':
            return str(a.data)
        if a.kind == 'poly':
            return '(' + self.show(a.data, 5) + ')'
        if a.kind == 'root':
            return f'root({a.data})'
        return (('?' if a.kind == 'chi' else '') + str(a.data[0]) + '(' + ','.join(self.showkey(k) for k in a.data[1:]) + ')')[:300] \
            if isinstance(a.data, tuple) else str(a.data)

    def showkey(self, k):
        if isinstance(k, tuple) and k and k[0] == 'v':
            return self.show(self.vlist[k[1]], 3)
        if isinstance(k, tuple) and k:
            if k[0] == 'k':
                return repr(k[2])
            return str(k[0]) + '(' + ','.join(self.showkey(x) for x in k[1:]) + ')'
        if isinstance(k, int):
            return self.show(self.vlist[k], 3)
        return str(k)


def strip_index(v, i):
    """remove a selection x[i] inside the value of a masked assignment"""
    from .term import rewrite
    return rewrite(v, lambda t: t.args[0] if t.op == 'idx' and t.args[1] is i else t)
