"""Loop invariants for the nested loops over the upper triangle of an n x n matrix:
`for i in range(n): for j in range(i, n)` with a running counter."""


def triangle_loops(fn, fill, first=0, counter="idx", array="poly_terms", shift=0, start=0):
    """invariants for the loops `first` (outer) and `first`+1 (inner) of the function

    fill(k, arr, a, b) -> what holds of the array once the pair (a, b) is done (a z3 Bool)
    shift: counter - position of the next pair; start: the inner loop begins with (i, i + start)"""
    import z3

    from pyvc import values as V
    from pyvc.arrays import I, dterm
    from pyvc.builtins_shim import LoopInv
    from pyvc.npshim import TRI, triu_lemmas
    from pyvc.values import Num

    class Loop(LoopInv):
        def __init__(self, label):
            super().__init__(label, self.hv, self.iv)

        def run_for(self, it, body, names, vals):
            old = dict(zip(names, vals))
            if array in old:
                self.k.tri_array = old[array]
            k = self.k

            def at(item, *hv):
                if self.outer:
                    k.tri_i = I(item)
                return body(item, *hv)
            return super().run_for(it, at, names, vals)

        def hv(self, names, vals):
            k, arr = self.k, self.k.tri_array
            f, _ = k.ctx.fresh_fun(array, *[z3.IntSort()] * arr.ndim, z3.RealSort())
            arr.set_fn(lambda *i: Num(f(*[I(t) for t in i]), False))
            out = {counter: k.int(counter, lo=None)}
            return {a: b for a, b in out.items() if a in names}

        def common(self, idx, i, t):
            """idx: position of the next pair, (i, i + t)"""
            k = self.k
            n = dterm(k.tri_n)
            triu_lemmas(k.ctx)
            return n, [2 * idx == 2 * i * n - i * i + i + 2 * t, z3.Implies(z3.And(0 <= i, 0 <= t, i + t < n), TRI(n, i, i + t) == idx)]

    class Outer(Loop):
        outer = True

        def iv(self, i, v):
            i = I(i)
            n, parts = self.common(I(v[counter]) - shift, i, z3.IntVal(0))
            arr = self.k.tri_array
            return V.Conj(parts + [V.Forall([n, n], lambda a, b: z3.Implies(z3.And(a < i, a <= b), fill(self.k, arr, a, b)))])

    class Inner(Loop):
        outer = False

        def iv(self, t, v):
            i, t = self.k.tri_i, I(t) + start
            n, parts = self.common(I(v[counter]) - shift, i, t)
            arr = self.k.tri_array
            return V.Conj(parts + [i + t <= n, V.Forall([n, n], lambda a, b: z3.Implies(
                z3.And(a <= b, z3.Or(a < i, z3.And(a == i, b < i + t))), fill(self.k, arr, a, b)))])

    return {f"{fn}:{first}": Outer("rows of the triangle"), f"{fn}:{first + 1}": Inner("entries of the row")}


def position(n, a, b):
    from pyvc.arrays import dterm
    from pyvc.npshim import TRI

    return TRI(dterm(n), a, b)


def even_triangle(k, n):
    """n (n + 1) is even"""
    import z3
    from pyvc.arrays import dterm

    t = dterm(n)
    k.ctx.add_fact(2 * (t * (t + 1) / 2) == t * (t + 1))
    k.ctx.add_fact(2 * ((t * t + t) / 2) == t * (t + 1))
