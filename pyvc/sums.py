"""Normalisation of finite sums.

Every sum over a symbolic range is an uninterpreted function whose body is known.  Before
a query is sent to a solver, all applications are replaced by polynomials over canonical
sum atoms: bodies are expanded into monomials, factors that do not depend on the bound
variable are pulled out, nested sums are flattened, independent sums are separated and
bound variables are renamed canonically.  Two sums that are equal by these (exact) laws
become the same atom.
"""
import hashlib
import itertools
from fractions import Fraction

import z3

from pyvc.core import Unsupported


class SumDef:
    __slots__ = ("nm", "params", "b", "n", "body", "rsort", "count")

    def __init__(self, nm, params, b, n, body, rsort, count=False):
        self.nm, self.params, self.b, self.n, self.body, self.rsort = nm, params, b, n, body, rsort
        self.count = count


def register(ctx, nm, params, b, n, body, rsort, count=False):
    ctx.sums[nm] = SumDef(nm, list(params), b, n, body, rsort, count)


def count_facts(ctx, fs, limit=10):
    """monotonicity of counts over equal ranges: if one count exceeds another, some index is
    counted by the first and not by the second (a witness); both directions together give
    extensionality."""
    cs = {nm: sd for nm, sd in ctx.sums.items() if sd.count}
    if len(cs) < 2:
        return []
    apps, seen, stack = {}, set(), list(fs)
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(t):
            stack.extend(t.children())
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in cs and not _bvs(t):
                apps[k] = t
    items = []
    for t in apps.values():
        sd = cs[t.decl().name()]
        m = list(zip(sd.params, t.children()))
        n = z3.simplify(z3.substitute(sd.n, *m)) if m else z3.simplify(sd.n)
        body = lambda w, sd=sd, m=m: z3.substitute(sd.body, *m, (sd.b, w))
        items.append((t, n, body))
    out = []
    done = 0
    for (s, n, f), (t, n2, g) in itertools.combinations(items, 2):
        if not z3.eq(n, n2) or s.sort() != t.sort():
            continue
        done += 1
        if done > limit:
            break
        for a, b, x, y in ((s, t, f, g), (t, s, g, f)):
            w = z3.Int(f"cw!{len(out)}")
            out.append(z3.Implies(a > b, z3.And(w >= 0, w < n, x(w) > y(w))))
    return out


# A polynomial: dict {monomial: Fraction}; a monomial is a sorted tuple of (key, exp)
# where key indexes _Norm.atoms.
class _Norm:
    def __init__(self, ctx):
        self.ctx = ctx
        self.atoms = {}     # key -> z3 term (ordinary atom) or SumAtom
        self.memo = {}
        self.facts = []
        self.sumconst = {}  # canonical string -> z3 function
        self.inv_done = set()
        self.bound_ids = 0
        self.term_keys = {}
        self.budget = 20000
        self.bvars = {}

    # -------------------------------------------------------------- polynomials
    def const(self, q):
        return {(): Fraction(q)} if q != 0 else {}

    def add(self, p, q, s=1):
        out = dict(p)
        for m, c in q.items():
            v = out.get(m, 0) + s * c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
        return out

    def mulm(self, a, b):
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        # INV(t) * t = 1 when t is known to be nonzero (recorded facts)
        for k in list(d):
            if k in d and isinstance(k, tuple) and k[0] == "inv" and k[1] in d:
                base = k[1]
                e = min(d[k], d[base])
                if e > 0:
                    d[k] -= e
                    d[base] -= e
        return tuple(sorted(((k, e) for k, e in d.items() if e != 0), key=repr))

    def mul(self, p, q):
        out = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mulm(m1, m2)
                if self.ctx.roots:
                    sq = self.square(m)
                    if sq is not None:
                        out = self.add(out, sq, c1 * c2)
                        continue
                v = out.get(m, 0) + c1 * c2
                if v == 0:
                    out.pop(m, None)
                else:
                    out[m] = v
        self.budget -= len(p) * len(q)
        if self.budget < 0:
            raise Unsupported("polynomial too large")
        return out

    def square(self, m):
        """the square of a root is its argument"""
        for k, e in m:
            if e >= 2 and k[0] == "t":
                t = self.atoms[k]
                info = self.ctx.roots.get(t.decl().name()) if z3.is_app(t) else None
                if info is not None:
                    formals, arg = info
                    rest = tuple((q, x - 2 if q == k else x) for q, x in m if not (q == k and x == 2))
                    return self.mul({rest: Fraction(1)}, self.poly(z3.substitute(arg, *zip(formals, t.children())) if formals else arg))
        return None

    # -------------------------------------------------------------- terms
    def key(self, t):
        k = ("t", cstr(t))
        if k not in self.atoms:
            self.atoms[k] = t
        return k

    def atom(self, t):
        return {((self.key(t), 1),): Fraction(1)}

    def poly(self, t):
        """polynomial of a Real/Int term"""
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        p = self._poly(t)
        self.memo[k] = (t, p)
        return p

    def _poly(self, t):
        if z3.is_int_value(t):
            return self.const(t.as_long())
        if z3.is_rational_value(t):
            return self.const(t.as_fraction())
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            out = {}
            for c in ch:
                out = self.add(out, self.poly(c))
            return out
        if d == z3.Z3_OP_SUB:
            out = self.poly(ch[0])
            for c in ch[1:]:
                out = self.add(out, self.poly(c), -1)
            return out
        if d == z3.Z3_OP_UMINUS:
            return self.add({}, self.poly(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            out = self.poly(ch[0])
            for c in ch[1:]:
                out = self.mul(out, self.poly(c))
            return out
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or (
                d == z3.Z3_OP_POWER and z3.is_int_value(ch[1])):
            e = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
            if e.denominator == 1 and 0 <= e.numerator <= 6:
                out = self.const(1)
                for _ in range(e.numerator):
                    out = self.mul(out, self.poly(ch[0]))
                return out
        if d == z3.Z3_OP_DIV:
            den = ch[1]
            if z3.is_rational_value(den) and den.as_fraction() != 0:
                f = 1 / den.as_fraction()
                return {m: c * f for m, c in self.poly(ch[0]).items()}
            return self.mul(self.poly(ch[0]), self.inv(den))
        if d == z3.Z3_OP_TO_REAL:
            if not z3.is_app(ch[0]) or ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) \
                    or z3.is_int_value(ch[0]):
                # push the conversion inside for + - *
                return self.poly_int(ch[0])
            if ch[0].decl().kind() == z3.Z3_OP_UNINTERPRETED and ch[0].decl().name() in self.ctx.sums:
                return self.sum_app(ch[0])
            return self.atom(t)
        if d == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.ctx.sums:
            return self.sum_app(t)
        if d == z3.Z3_OP_ITE:
            # make the branches canonical so that equal branches merge
            return self.atom(t)
        return self.atom(t)

    def poly_int(self, t):
        if z3.is_int_value(t):
            return self.const(t.as_long())
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            out = {}
            for c in ch:
                out = self.add(out, self.poly_int(c))
            return out
        if d == z3.Z3_OP_SUB:
            out = self.poly_int(ch[0])
            for c in ch[1:]:
                out = self.add(out, self.poly_int(c), -1)
            return out
        if d == z3.Z3_OP_UMINUS:
            return self.add({}, self.poly_int(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            out = self.poly_int(ch[0])
            for c in ch[1:]:
                out = self.mul(out, self.poly_int(c))
            return out
        if d == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.ctx.sums:
            return self.sum_app(t)
        return self.atom(z3.ToReal(t))

    def inv(self, t):
        """1/t as a polynomial: monomial denominators are split into factors"""
        p = self.poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            out = {(): 1 / c}
            for k, e in m:
                if isinstance(k, tuple) and k[0] == "inv":
                    out = self.mul(out, {((k[1], e),): Fraction(1)})
                else:
                    ik = ("inv", k)
                    self.atoms.setdefault(ik, None)
                    out = self.mul(out, {((ik, e),): Fraction(1)})
            return out
        if not p:
            return self.atom(1 / t)
        # normalise the leading coefficient so that proportional denominators agree
        items = sorted(p.items(), key=lambda x: repr(x[0]))
        lead = items[0][1]
        q = {m: c / lead for m, c in p.items()}
        k = ("poly", repr(sorted(q.items(), key=lambda x: repr(x[0]))))
        self.atoms.setdefault(k, q)
        ik = ("inv", k)
        self.atoms.setdefault(ik, None)
        return {((ik, 1),): 1 / lead}

    # -------------------------------------------------------------- sums
    def sum_app(self, t):
        sd = self.ctx.sums[t.decl().name()]
        args = t.children()
        self.bound_ids += 1
        bv = z3.Int(f"bv!{self.bound_ids}")
        m = list(zip(sd.params, args))
        body = z3.substitute(sd.body, *m, (sd.b, bv))
        n = z3.substitute(sd.n, *m) if m else sd.n
        n = z3.simplify(n)
        body = z3.simplify(body)
        self.bvars[bv.decl().name()] = n
        ite = _point(body, bv)
        if ite is not None:
            # the body differs at a single point
            cond, at = ite
            no = z3.simplify(z3.substitute(body, (cond, z3.BoolVal(False))))
            yes = z3.simplify(z3.substitute(body, (cond, z3.BoolVal(True)), (bv, at)))
            other = z3.simplify(z3.substitute(no, (bv, at)))
            self.bound_ids += 1
            b2 = z3.Int(f"bv!{self.bound_ids}")
            self.bvars[b2.decl().name()] = n
            p = self.sum_poly(self.poly(z3.substitute(no, (bv, b2))), b2, n)
            diff = self.add(self.poly(yes), self.poly(other), -1)
            return self.add(p, self.mul(self.guard(at, n), diff))
        p = self.poly(body)
        return self.sum_poly(p, bv, n)

    def guard(self, at, n):
        """1 if the index is in range, else 0"""
        c = z3.simplify(z3.And(at >= 0, at < n))
        if not _bvs(c):
            s = self.ctx.solver
            s.push()
            s.add(z3.Not(c))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return self.const(1)
        return self.poly(z3.If(c, z3.RealVal(1), z3.RealVal(0)))

    def depends(self, key, bv):
        """does the atom contain the bound variable"""
        return f"bv!{bv}" in self.freebv(key)

    def freebv(self, key):
        c = self.__dict__.setdefault("_fb", {})
        if key in c:
            return c[key]
        if key[0] == "t":
            r = _bvs(self.atoms[key])
        elif key[0] == "inv":
            r = self.freebv(key[1])
        elif key[0] == "poly":
            r = set()
            for m in self.atoms[key]:
                for k, _ in m:
                    r |= self.freebv(k)
        elif key[0] == "sum":
            r = set()
            for x in key[2]:
                r |= _bvs_str(x)
        c[key] = r
        return r

    def sum_poly(self, p, bv, n):
        nm = bv.decl().name()
        out = {}
        for m, c in p.items():
            inside = [(k, e) for k, e in m if nm in self.freebv(k)]
            outside = tuple((k, e) for k, e in m if nm not in self.freebv(k))
            s = self.sum_mono(inside, nm, n)
            out = self.add(out, {self.mulm(outside, mm): c * cc for mm, cc in s.items()})
        return out

    def sum_mono(self, inside, nm, n):
        """sum over nm in [0,n) of a monomial, all of whose factors depend on nm"""
        if not inside:
            return self.poly_int(n) if not z3.is_int_value(n) else self.const(n.as_long())
        # flatten inner sums
        bvs = [(nm, n)]
        factors = []
        for k, e in inside:
            if k[0] == "sum":
                for _ in range(e):
                    fs, vs = self.open_sum(k)
                    factors.extend(fs)
                    bvs.extend(vs)
            else:
                factors.append((k, e))
        return self.make_sum(factors, bvs)

    def open_sum(self, k):
        """re-open a canonical sum atom with fresh bound variables"""
        factors, vs = self.atoms[k]
        ren = {}
        newv = []
        for v, n in vs:
            self.bound_ids += 1
            nv = f"bv!{self.bound_ids}"
            ren[v] = nv
            newv.append((nv, n))
        sub = [(z3.Int(a), z3.Int(b)) for a, b in ren.items()]
        out = []
        for fk, e in factors:
            out.append((self.subst_key(fk, sub), e))
        newv = [(v, z3.substitute(n, *sub)) for v, n in newv]
        return out, newv

    def subst_key(self, k, sub):
        if k[0] == "t":
            t = z3.substitute(self.atoms[k], *sub)
            return self.key(t)
        if k[0] == "inv":
            ik = ("inv", self.subst_key(k[1], sub))
            self.atoms.setdefault(ik, None)
            return ik
        if k[0] == "poly":
            q = {}
            for m, c in self.atoms[k].items():
                mm = self.mulm((), tuple((self.subst_key(a, sub), e) for a, e in m))
                q[mm] = q.get(mm, 0) + c
            nk = ("poly", repr(sorted(q.items(), key=lambda x: repr(x[0]))))
            self.atoms.setdefault(nk, q)
            return nk
        if k[0] == "sum":
            factors, vs = self.atoms[k]
            fs = [(self.subst_key(a, sub), e) for a, e in factors]
            (m, c), = self.make_sum(fs, [(v, z3.substitute(n, *sub)) for v, n in vs]).items()
            (kk, e), = m
            return kk
        raise Unsupported(k)

    def make_sum(self, factors, bvs):
        """sum over all bvs of the product of factors: split into connected components"""
        # merge equal factors
        d = {}
        for k, e in factors:
            d[k] = d.get(k, 0) + e
        # cancel inverse pairs
        for k in list(d):
            if k[0] == "inv" and k[1] in d and d.get(k, 0) > 0:
                e = min(d[k], d[k[1]])
                d[k] -= e
                d[k[1]] -= e
        factors = [(k, e) for k, e in d.items() if e]
        names = [v for v, _ in bvs]
        dim = dict(bvs)
        # components
        comp = {v: {v} for v in names}
        groups = [{v} for v in names]
        for k, _ in factors:
            used = [v for v in names if v in self.freebv(k)]
            merged = set(used)
            rest = []
            for g in groups:
                if g & merged:
                    merged |= g
                else:
                    rest.append(g)
            if merged:
                rest.append(merged)
            groups = rest
        for v in names:
            pass
        out = self.const(1)
        free = [(k, e) for k, e in factors if not any(v in self.freebv(k) for v in names)]
        if free:
            out = self.mul(out, {self.mulm((), tuple(free)): Fraction(1)})
        for g in groups:
            fs = [(k, e) for k, e in factors if any(v in self.freebv(k) for v in g)]
            vs = [(v, dim[v]) for v in names if v in g]
            if not fs:
                for v, n in vs:
                    out = self.mul(out, self.poly_int(n) if not z3.is_int_value(n)
                                   else self.const(n.as_long()))
                continue
            out = self.mul(out, {((self.canon(fs, vs), 1),): Fraction(1)})
        return out

    def canon(self, fs, vs):
        """canonical key of a connected sum"""
        best = None
        cands = list(itertools.permutations(range(len(vs)))) if len(vs) <= 5 else [tuple(range(len(vs)))]
        for perm in cands:
            sub = [(z3.Int(vs[p][0]), z3.Int(f"cb!{i}")) for i, p in enumerate(perm)]
            dims = [z3.substitute(vs[p][1], *sub).sexpr() for p in perm]
            keys = sorted((repr(self.canon_key(k, sub)), e) for k, e in fs)
            s = (tuple(dims), tuple(keys))
            if best is None or s < best[0]:
                best = (s, perm)
        s, perm = best
        free = set()
        for k, _ in fs:
            free |= self.freebv(k)
        free -= {v for v, _ in vs}
        key = ("sum", repr(s), tuple(sorted(free)))
        if key not in self.atoms:
            self.atoms[key] = (fs, vs)
        return key

    def canon_key(self, k, sub):
        if k[0] == "t":
            return ("t", cstr(z3.substitute(self.atoms[k], *sub)))
        if k[0] == "inv":
            return ("inv", self.canon_key(k[1], sub))
        if k[0] == "poly":
            items = []
            for m, c in self.atoms[k].items():
                items.append((tuple(sorted((repr(self.canon_key(a, sub)), e) for a, e in m)), str(c)))
            return ("poly", tuple(sorted(items)))
        if k[0] == "sum":
            factors, vs = self.atoms[k]
            return ("sum", tuple(sorted((repr(self.canon_key(a, sub)), e) for a, e in factors)))
        raise Unsupported(k)

    # -------------------------------------------------------------- back to z3
    def term(self, p, isint=False):
        terms = []
        for m, c in p.items():
            t = z3.RealVal(f"{c.numerator}/{c.denominator}")
            fac = [t] if c != 1 or not m else []
            for k, e in m:
                kt = self.key_term(k)
                for _ in range(e):
                    fac.append(kt)
            r = fac[0]
            for f in fac[1:]:
                r = r * f
            terms.append(r)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def key_term(self, k):
        if k in self.term_keys:
            return self.term_keys[k]
        if k[0] == "t":
            r = self.atoms[k]
            if z3.is_int(r):
                r = z3.ToReal(r)
            else:
                r = self.rewrite(r)
        elif k[0] == "inv":
            r = z3.Real(f"inv!{len(self.term_keys)}")
            self.term_keys[k] = r
            base = self.key_term(k[1])
            self.facts.append(z3.Implies(base != 0, r * base == 1))
            self.facts.append(z3.Implies(base > 0, r > 0))
            self.facts.append(z3.Implies(base < 0, r < 0))
        elif k[0] == "poly":
            r = self.term(self.atoms[k])
        elif k[0] == "sum":
            fs, vs = self.atoms[k]
            if all(fk[0] == "t" and _intval(self.atoms[fk]) for fk, _ in fs):
                r = z3.ToReal(z3.Int(f"sum!{len(self.term_keys)}"))
            else:
                r = z3.Real(f"sum!{len(self.term_keys)}")
            self.term_keys[k] = r
            if all(e % 2 == 0 for _, e in fs):
                self.facts.append(r >= 0)
            for v, n in vs:
                # a sum over an empty range is zero
                if not _bvs(n):
                    self.facts.append(z3.Implies(n <= 0, r == 0))
        self.term_keys[k] = r
        return r

    def has_sum(self, t):
        c = self.ctx._sum_cache
        k = t.get_id()
        x = c.get(k)
        if x is not None and x[2] == len(self.ctx.sums):
            return x[1]
        r = False
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.ctx.sums:
                r = True
            else:
                r = any(self.has_sum(x) for x in t.children())
        c[k] = (t, r, len(self.ctx.sums))
        return r

    def rewrite(self, f):
        """replace sums in a formula or term"""
        if not self.has_sum(f):
            return f
        if z3.is_arith(f):
            d = f.decl().kind()
            if d not in (z3.Z3_OP_ITE,):
                if d == z3.Z3_OP_UNINTERPRETED and f.decl().name() not in self.ctx.sums or d in (
                        z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                    return f.decl()(*[self.rewrite(c) for c in f.children()])
                p = self.poly(f)
                r = self.term(p)
                if z3.is_int(f):
                    # integer sums stay integers
                    r = z3.ToInt(r)
                return r
        return f.decl()(*[self.rewrite(c) for c in f.children()]) if f.num_args() else f


def _point(body, bv):
    """an if-then-else in the body whose condition is bv == e; returns condition and e"""
    stack, seen = [body], set()
    nm = bv.decl().name()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and z3.is_eq(t.arg(0)) and z3.is_int(t.arg(0).arg(0)):
            l, r = t.arg(0).arg(0), t.arg(0).arg(1)
            for a, b in ((l, r), (r, l)):
                if z3.eq(a, bv) and nm not in _bvs(b):
                    return t.arg(0), b
        stack.extend(t.children())
    return None


def _bvs(t):
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith("bv!"):
                out.add(n)
        else:
            stack.extend(x.children())
    return out


_AC = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR}
_cmemo = {}


def cstr(t):
    """digest of a term up to the order of the arguments of commutative operators"""
    k = t.get_id()
    if k in _cmemo:
        return _cmemo[k][1]
    if not z3.is_app(t):
        r = t.sexpr()
    elif not t.num_args():
        r = t.sexpr()
    else:
        ch = [cstr(c) for c in t.children()]
        if t.decl().kind() in _AC:
            ch.sort()
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() >= 2 and t.decl().name().startswith("symmetric_"):
            ch[-2:] = sorted(ch[-2:])  # arrays created by SymK.symmetric
        r = hashlib.sha1((t.decl().sexpr() + "(" + ",".join(ch) + ")").encode()).hexdigest()
    if len(_cmemo) > 200000:
        _cmemo.clear()
    _cmemo[k] = (t, r)
    return r


def _intval(t):
    """integer valued by its form"""
    if z3.is_int(t):
        return True
    if z3.is_rational_value(t):
        return t.denominator_as_long() == 1
    if z3.is_app(t):
        d = t.decl().kind()
        if d == z3.Z3_OP_TO_REAL:
            return True
        if d == z3.Z3_OP_ITE:
            return all(_intval(c) for c in t.children()[1:])
    return False


def _bvs_str(x):
    return {x} if isinstance(x, str) else set(x)


def rewrite(ctx, fs):
    if not ctx.sums:
        return fs
    nz = _Norm(ctx)
    if not any(nz.has_sum(f) for f in fs):
        return fs
    out = [nz.rewrite(f) for f in fs]
    return out + nz.facts
