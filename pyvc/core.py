"""Core of the verifier: path exploration, fresh symbols, assumptions, obligations.

The real source of /repo is executed (see loader.py) on symbolic values; every branch on
a symbolic condition forks the path, every obligation is discharged by an SMT solver for
all values of the symbols.  Universal facts ("for all i ...") are kept as schemas and
instantiated with the index terms that occur in the query; reductions (sum, min, norm...)
are uninterpreted functions whose defining axioms are instantiated on demand.
"""
import itertools
import time

import z3


class PathEnd(BaseException):
    """The current path is infeasible or deliberately ended."""


class Unsupported(BaseException):
    """The code uses something the verifier has no semantics for."""


class Undecided(BaseException):
    """Resource limit of the verifier."""


_cur = None


def cur():
    if _cur is None:
        raise RuntimeError("no active verification context")
    return _cur


def active():
    return _cur is not None


def _scan(f):
    seen, apps, idx = set(), [], {}
    stack = [f]
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(t) and t.num_args():
            ch = t.children()
            stack.extend(ch)
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                apps.append(t)
                for c in ch:
                    if z3.is_int(c):
                        idx[c.get_id()] = c
    return apps, idx


def _is_const(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


class Schema:
    """forall vars. body(vars); instantiated with index terms.

    dims: for every variable an (optional) tag; a term is only used for a variable if
    its tags are compatible (tags are dimension terms).
    """

    __slots__ = ("nvars", "fn", "label", "_tmpl")

    def __init__(self, nvars, fn, label=""):
        self.nvars = nvars
        self.fn = fn
        self.label = label
        self._tmpl = None

    def template(self, ctx):
        """(vars, body, triggers) or False if the body has to be evaluated per term.

        The body is evaluated once at generic indices; that is only valid if evaluating it
        neither branches nor introduces symbols or facts of its own."""
        if self._tmpl is None:
            vs = [z3.Int(f"__s{k}") for k in range(self.nvars)]
            names, npc, nsch, nsums = dict(ctx.names), len(ctx.pc), len(ctx.schemas), len(ctx.sums)
            old, ctx.no_branch = ctx.no_branch, True
            try:
                body = self.fn(*vs)
            except (Unsupported, Undecided, PathEnd):
                body = False
            finally:
                ctx.no_branch = old
            if (isinstance(body, bool) or names != ctx.names or npc != len(ctx.pc)
                    or nsch != len(ctx.schemas) or nsums != len(ctx.sums)):
                self._tmpl = False
            else:
                self._tmpl = (vs, body, _triggers(body, vs))
        return self._tmpl

    def instance(self, ctx, combo):
        t = self._tmpl
        if t:
            return z3.substitute(t[1], *zip(t[0], combo))
        return self.fn(*combo)


def _triggers(body, vs):
    """Where the variables occur as arguments of uninterpreted functions.

    Returns (joint, single): joint patterns contain all variables, single[k] those of
    variable k; None if some variable occurs in no argument position."""
    ids = {v.get_id(): k for k, v in enumerate(vs)}
    joint, single = [], [[] for _ in vs]
    seen, stack = set(), [body]
    pats = set()
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen or not z3.is_app(t):
            continue
        seen.add(k)
        ch = t.children()
        stack.extend(ch)
        if not ch or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        found = {}
        for pos, a in enumerate(ch):
            m = _linear_var(a, ids)
            if m is not None:
                found.setdefault(m[0], (pos, m[1]))
        if not found:
            continue
        pat = (t.decl().name(), tuple(sorted((v, p, str(o)) for v, (p, o) in found.items())))
        if pat in pats:
            continue
        pats.add(pat)
        if len(found) == len(vs):
            joint.append((t.decl().name(), [found[v] for v in range(len(vs))]))
        for v, (p, o) in found.items():
            single[v].append((t.decl().name(), p, o))
    if joint:
        return joint, None
    return None, [x or None for x in single]


def _linear_var(a, ids):
    """(variable, offset) if the term is variable + offset with a ground numeral offset"""
    if a.get_id() in ids:
        return ids[a.get_id()], 0
    if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and a.num_args() == 2:
        x, y = a.children()
        sgn = 1 if a.decl().kind() == z3.Z3_OP_ADD else -1
        if x.get_id() in ids and not _has(y, ids):
            return ids[x.get_id()], (y if sgn == 1 else -y)
        if sgn == 1 and y.get_id() in ids and not _has(x, ids):
            return ids[y.get_id()], x
    return None


def _has(t, ids):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in ids:
            return True
        stack.extend(x.children())
    return False


class Obligation:
    def __init__(self, name, status, backend, secs, model=None, detail=""):
        self.name = name
        self.status = status  # proved | refuted | unknown
        self.backend = backend
        self.secs = secs
        self.model = model
        self.detail = detail


class Ctx:
    """State of one exploration (several paths)."""

    def __init__(self, timeout_ms=8000, branch_timeout_ms=1500, max_paths=4000, deadline=None,
                 rounding=False):
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.rounding = rounding
        self.obligations = []
        self.n_paths = 0
        self.solver_s = 0.0
        self.queries = 0
        self.trusted = {}
        self.covers = {}
        self.lemma_hooks = {}  # decl name -> fn(args)->[z3 bool or Schema]
        self.assumed = {}
        self.cx_hook = None
        self.no_branch = False
        self.proved_before, self.decided_before = {}, {}
        self.dead = []  # paths whose assumptions contradict each other
        self.reset()

    # ------------------------------------------------------------------ path state
    def reset(self):
        self.pc = []
        self.schemas = []
        self.counter = itertools.count()
        self.names = {}
        self.tvars = []  # active template variables (bound index constants)
        self.tpl = None
        self.journal = None
        self.fun_reg = {}  # decl name -> lemma generator (per path)
        self.sums = {}
        self.roots = {}
        self.ext_sum_cache = {}
        self._term_cache = {}
        self._sum_cache = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_timeout_ms)
        self._base_instances = []
        self.notes = []
        self.pos = 0
        self.depth = 0

    # ------------------------------------------------------------------ fresh symbols
    def name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else f"{base}!{k}"

    def fresh(self, base, sort):
        nm = self.name(base)
        if self.tvars:
            f = z3.Function(nm, *[t.sort() for t in self.tvars], sort)
            return f(*self.tvars)
        return z3.Const(nm, sort)

    def fresh_fun(self, base, *sorts):
        """Fresh function; additionally depends on the active template variables."""
        nm = self.name(base)
        tv = list(self.tvars)
        f = z3.Function(nm, *[t.sort() for t in tv], *sorts)
        if tv:
            return lambda *a: f(*tv, *a), nm
        return f, nm

    # ------------------------------------------------------------------ facts
    def assume(self, f):
        from pyvc import values as V

        if isinstance(f, (list, tuple)):
            for g in f:
                self.assume(g)
            return
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        q = V.as_formula(f)
        self._assume_formula(q)

    def _assume_formula(self, q):
        from pyvc import values as V

        if isinstance(q, V.Forall):
            self.add_schema(q.nvars, lambda *ts: V.instantiate(q, ts))
            return
        if isinstance(q, V.Conj):
            for x in q.parts:
                self._assume_formula(x)
            return
        if isinstance(q, V.Imp):
            # cond (quantifier free) -> formula
            c = V.ground(q.cond)
            if isinstance(q.then, V.Forall):
                self.add_schema(q.then.nvars,
                                lambda *ts: z3.Implies(c, V.instantiate(q.then, ts)))
                return
            if isinstance(q.then, V.Conj):
                for x in q.then.parts:
                    self._assume_formula(V.Imp(q.cond, x))
                return
            if isinstance(q.then, V.Imp):
                self._assume_formula(V.Imp(z3.And(c, V.ground(q.then.cond)), q.then.then))
                return
            self.add_fact(z3.Implies(c, V.ground(q.then)))
            return
        self.add_fact(V.ground(q))

    def add_fact(self, t, guard=False):
        t = z3.simplify(t) if z3.is_expr(t) else z3.BoolVal(bool(t))
        if z3.is_true(t):
            return
        if self.tpl is not None:
            if guard:
                self.tpl.guards.append(t)
            else:
                self.tpl.export(self, 0, lambda: t)
        self.pc.append(t)
        self.solver.add(t)

    def add_schema(self, nvars, fn, label=""):
        if self.tpl is not None:
            self.tpl.export(self, nvars, fn)
        s = Schema(nvars, fn, label)
        s.template(self)  # evaluated now: the body must not see later changes of objects
        self.schemas.append(s)

    def lemma(self, declname, gen):
        """gen(args) -> iterable of z3 formulas / (nvars, fn) schemas, for every ground
        application of the function in a query."""
        self.fun_reg[declname] = gen

    # ------------------------------------------------------------------ branching
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.no_branch:
            raise Unsupported("branch inside a quantified statement")
        if self.deadline and time.time() > self.deadline:
            raise Undecided("time limit")
        tr = self.trail
        if self.pos < len(tr):
            d = tr[self.pos][0]
            self.pos += 1
            self.add_fact(c if d else z3.Not(c), guard=True)
            return d
        t_ok = self.feasible(c)
        f_ok = self.feasible(z3.Not(c))
        if not t_ok and not f_ok:
            self.dead.append(str(c)[:120])
            raise PathEnd()
        if t_ok and f_ok and self.tvars and self._mentions_foreign(c):
            raise Unsupported("undetermined branch on a generic index outside a template")
        if t_ok and f_ok:
            tr.append([True, True])
            d = True
        else:
            d = t_ok
            tr.append([d, False])
        self.pos += 1
        self.add_fact(c if d else z3.Not(c), guard=True)
        return d

    def _mentions_foreign(self, c):
        own = {t.get_id() for t in (self.tpl.all_tv if self.tpl is not None else [])}
        foreign = {t.get_id() for t in self.tvars} - own
        if not foreign:
            return False
        seen, stack = set(), [c]
        while stack:
            t = stack.pop()
            k = t.get_id()
            if k in foreign:
                return True
            if k in seen:
                continue
            seen.add(k)
            stack.extend(t.children())
        return False

    def feasible(self, c):
        """May the (ground) condition hold on the current path?"""
        t0 = time.time()
        self.queries += 1
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        if r != z3.unsat and (self.schemas or self.fun_reg):
            r = self._full_check([c], self.branch_timeout_ms)[0]
        self.solver_s += time.time() - t0
        return r != z3.unsat

    def provable(self, c, timeout=None):
        """Is the formula implied by the current path (used for semantics decisions)?"""
        from pyvc import values as V

        if isinstance(c, bool):
            return c
        q = V.as_formula(c)
        g = V.negate_for_proof(self, q)
        t0 = time.time()
        self.queries += 1
        key, refs = self._query_key(g)
        if key in self.decided_before:
            return self.decided_before[key][0] == z3.unsat
        self.solver.push()
        self.solver.add(*[x if z3.is_expr(x) else z3.BoolVal(x) for x in g])
        r = self.solver.check()
        self.solver.pop()
        if r != z3.unsat:
            r = self._full_check(g, timeout or self.branch_timeout_ms)[0]
        self.decided_before[key] = (r, refs)
        self.solver_s += time.time() - t0
        return r == z3.unsat

    def _query_key(self, fs):
        """identifies a query: paths that share a prefix repeat their queries (the formulas
        are kept alive, so that their ids stay unique)"""
        refs = [f if z3.is_expr(f) else z3.BoolVal(f) for f in list(self.pc) + list(fs)]
        key = (tuple(f.get_id() for f in refs), len(self.pc), len(self.schemas), len(self.fun_reg), len(self.sums),
               tuple(t.get_id() for t in self.tvars), tuple(t.get_id() for t in self.skolems))
        return key, (refs, list(self.tvars), list(self.skolems))

    # ------------------------------------------------------------------ solving
    def _terms(self, fs, seen=None):
        """uninterpreted applications and integer arguments in the formulas"""
        seen = set() if seen is None else seen
        apps, idx = [], {}
        cache = self._term_cache
        for f in fs:
            k = f.get_id()
            if k in seen:
                continue
            seen.add(k)
            c = cache.get(k)
            if c is None:
                c = cache[k] = (f, *_scan(f))
            for a in c[1]:
                ka = a.get_id()
                if ka not in seen:
                    seen.add(ka)
                    apps.append(a)
            idx.update(c[2])
        return apps, idx

    def expand(self, fs, rounds=3, cap=6000, full=False):
        """Instantiate schemas and lemmas for the ground formulas fs.

        A schema variable is instantiated with the terms that occur where the schema uses
        the variable (full: with all index terms)."""
        out = list(fs)
        done_apps = set()
        schemas = [[s, set()] for s in self.schemas]
        pool = {}
        at = {}     # (function, position) -> {id: term}
        apps_of = {}  # function -> {id: application}
        for t in self.index_terms():
            pool[t.get_id()] = t
        frontier = list(out)
        n = 0
        keep = []
        simp = {}
        fl = ([], {})
        sk = list(self.index_terms())

        def simplify(t):
            k = t.get_id()
            if k not in simp:
                simp[k] = (t, z3.simplify(t))
            return simp[k][1]

        seen = set()
        for rnd in range(rounds + (0 if full else 1)):
            apps, idx = self._terms(frontier, seen)
            for k, t in idx.items():
                t2 = simplify(t)
                pool[t2.get_id()] = t2
            new = []
            for a in apps:
                nm = a.decl().name()
                ch = a.children()
                apps_of.setdefault(nm, {})[a.get_id()] = [simplify(c) if z3.is_int(c) else None for c in ch]
                for p, c in enumerate(apps_of[nm][a.get_id()]):
                    if c is not None:
                        at.setdefault((nm, p), {})[c.get_id()] = c
                if nm in self.fun_reg:
                    key = a.get_id()
                    if key in done_apps:
                        continue
                    done_apps.add(key)
                    keep.append(a)
                    for x in self.fun_reg[nm](ch):
                        if isinstance(x, tuple):
                            schemas.append([Schema(x[0], x[1]), set()])
                        else:
                            new.append(x)
            if self.rounding:
                new.extend(self._rounding_facts(apps, fl))
            terms = list(pool.values())
            for s, done in schemas:
                tm = None if s.nvars == 0 else s.template(self)
                for combo in self._combos(s, tm, terms, at, apps_of, sk, full, simplify):
                    key = tuple(c.get_id() for c in combo)
                    if key in done:
                        continue
                    done.add(key)
                    keep.append(combo)
                    f = s.instance(self, combo)
                    if isinstance(f, bool):
                        if not f:
                            new.append(z3.BoolVal(False))
                        continue
                    new.append(f)
                    n += 1
                    if n > cap:
                        break
                if n > cap:
                    break
            if not new:
                break
            out.extend(new)
            frontier = new
            if n > cap:
                break
        return out

    def _rounding_facts(self, apps, state):
        """Correct rounding: fl is monotone and the identity on floating-point numbers, so a
        rounded result never passes a floating-point number that the exact result does not
        pass.  Operands and results of operations are floating-point numbers (no overflow)."""
        ops, floats = state
        out, new_f, new_o = [], [], []
        for a in apps:
            nm = a.decl().name()
            if not nm.startswith("fl_"):
                continue
            x, y = a.children()
            for t in (x, y, a):
                while t.decl().kind() == z3.Z3_OP_UMINUS or (t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and str(t.arg(0)) == "-1"):
                    t = t.children()[-1]
                if t.get_id() not in floats:
                    floats[t.get_id()] = t
                    new_f.append(t)
            new_o.append((nm, x, y, a))

        def pair(op, t):
            nm, x, y, a = op
            if t.get_id() == a.get_id():
                return
            if nm == "fl_add":
                e = x + y
            elif nm == "fl_sub":
                e = x - y
            else:
                return
            out.append(z3.Implies(e <= t, a <= t))
            out.append(z3.Implies(e >= t, a >= t))

        for nm, x, y, a in new_o:
            if nm == "fl_mul":
                for p, q in ((x, y), (y, x)):
                    m = z3.If(q >= 0, q, -q)
                    out.append(z3.Implies(z3.And(p <= 1, p >= -1), z3.And(a <= m, a >= -m)))
                    out.append(z3.Implies(z3.Or(p >= 1, p <= -1), z3.Or(a >= m, a <= -m)))
                out.append(z3.Implies(z3.And(x >= 0, y >= 0), a >= 0))
                out.append(z3.Implies(z3.And(x <= 0, y <= 0), a >= 0))
                out.append(z3.Implies(z3.And(x >= 0, y <= 0), a <= 0))
                out.append(z3.Implies(z3.And(x <= 0, y >= 0), a <= 0))
            elif nm == "fl_div":
                out.append(z3.Implies(z3.And(y > 0, x <= y), a <= 1))
                out.append(z3.Implies(z3.And(y > 0, x >= -y), a >= -1))
                out.append(z3.Implies(z3.And(y > 0, x >= y), a >= 1))
                out.append(z3.Implies(z3.And(y > 0, x >= 0), a >= 0))
                out.append(z3.Implies(z3.And(y > 0, x <= 0), a <= 0))
        for op in new_o:
            for t in floats.values():
                pair(op, t)
        for op in ops:
            for t in new_f:
                pair(op, t)
        ops.extend(new_o)
        return out

    def _combos(self, s, tm, terms, at, apps_of, sk, full, simplify):
        if full or not tm:
            yield from itertools.product(terms, repeat=s.nvars)
            return
        joint, single = tm[2]

        def shift(c, o):
            return c if isinstance(o, int) and o == 0 else simplify(c - o)

        if joint is not None:
            for nm, where in joint:
                for ch in list(apps_of.get(nm, {}).values()):
                    yield tuple(shift(ch[p], o) for p, o in where)
            if sk:
                yield from itertools.product(sk, repeat=s.nvars)
            return
        cands = []
        for pats in single:
            if pats is None:
                cands.append(terms)
                continue
            c = {t.get_id(): t for t in sk}
            for nm, p, o in pats:
                for t in at.get((nm, p), {}).values():
                    t2 = shift(t, o)
                    c[t2.get_id()] = t2
            cands.append(list(c.values()))
        yield from itertools.product(*cands)

    def index_terms(self):
        return self.skolems

    @property
    def skolems(self):
        return self.__dict__.setdefault("_skolems", [])

    def _hidden_terms(self, fs):
        """ground applications that only show up once sums are taken apart"""
        from pyvc import sums

        have = {a.get_id() for a in self._terms(fs)[0]}
        out = []
        for a in self._terms(sums.rewrite(self, list(fs)))[0]:
            if a.get_id() not in have and a.decl().name() in self.fun_reg and not sums._bvs(a):
                have.add(a.get_id())
                out.append(a)
        return out

    def _full_check(self, extra, timeout, full=False, deep=False):
        from pyvc import sums

        fs = list(self.pc) + list(extra)
        if deep:
            hidden = self._hidden_terms(fs)
            if not hidden:
                return z3.unknown, None
            fs += [a == a for a in hidden]
        if self.sums:
            fs += sums.count_facts(self, fs)
        fs = self.expand(fs, full=full)
        fs = sums.rewrite(self, fs)
        s = z3.Solver()
        s.set("timeout", int(timeout))
        s.add(*fs)
        r = s.check()
        return r, s

    def check(self, name, f, hint=None):
        """Obligation: the formula holds on the current path."""
        from pyvc import values as V

        t0 = time.time()
        self.queries += 1
        if isinstance(f, bool):
            st = "proved" if f else "refuted"
            model = None
            if not f:
                r, s = self._full_check([], self.timeout_ms)
                if r == z3.unsat:
                    st = "proved"
                elif r == z3.sat:
                    model = s.model()
                else:
                    st = "unknown"
            ob = Obligation(name, st, "z3", time.time() - t0, model)
        else:
            q = V.as_formula(f)
            ob = self._prove(name, q, t0)
        self.solver_s += time.time() - t0
        self.obligations.append(ob)
        if ob.status != "proved" and self.cx_hook is not None:
            try:
                ob.cx = self.cx_hook(ob)
            except (Exception, Unsupported, Undecided) as e:  # counterexample extraction is best effort
                ob.cx = None
                ob.detail += f" [no concrete counterexample: {e!r}]"
        return ob.status == "proved"

    def _prove(self, name, q, t0):
        from pyvc import values as V

        # split conjunctions: one query each
        worst = None
        for g in V.split_goal(self, q):
            sk0 = len(self.skolems)
            ng = V.negate_for_proof(self, g)
            backend = "z3"
            key, refs = self._query_key(ng)
            if key in self.proved_before:
                # the same obligation on a path with the same prefix
                del self.skolems[sk0:]
                if worst is None:
                    worst = Obligation(name, "proved", self.proved_before[key][0], 0)
                continue
            self.solver.push()
            self.solver.add(*[x if z3.is_expr(x) else z3.BoolVal(x) for x in ng])
            r, s = self.solver.check(), self.solver
            self.solver.pop()
            if r != z3.unsat:
                r, s = self._full_check(ng, self.timeout_ms)
            if r != z3.unsat and self.schemas:
                r, s = self._full_check(ng, self.timeout_ms, full=True)
            if r != z3.unsat and self.sums:
                r3, s3 = self._full_check(ng, self.timeout_ms, deep=True)
                if s3 is not None:
                    r, s = r3, s3
            if r == z3.unknown:
                r2, b2 = second_backend(s, self.timeout_ms)
                if r2 is not None:
                    r, backend = r2, b2
            del self.skolems[sk0:]
            if r == z3.unsat:
                self.proved_before[key] = (backend, refs)
                if worst is None:
                    worst = Obligation(name, "proved", backend, 0)
            else:
                st = "refuted" if r == z3.sat else "unknown"
                model = s.model() if r == z3.sat and backend == "z3" else None
                worst = Obligation(name, st, backend, 0, model,
                                   detail=str(z3.simplify(ng[-1]))[:400] if ng else "")
                worst.pc = [str(p)[:200] for p in self.pc[-12:]]
                break
        if worst is None:
            worst = Obligation(name, "proved", "trivial", 0)
        worst.secs = time.time() - t0
        return worst

    # ------------------------------------------------------------------ exploration
    def explore(self, fn):
        """Run fn on every feasible path."""
        global _cur
        prev = _cur
        _cur = self
        self.trail = []
        try:
            while True:
                self.reset()
                self.__dict__["_skolems"] = []
                self.n_paths += 1
                if self.n_paths > self.max_paths:
                    raise Undecided("too many paths")
                if self.deadline and time.time() > self.deadline:
                    raise Undecided("time limit")
                try:
                    fn()
                except PathEnd:
                    pass
                while self.trail and not self.trail[-1][1]:
                    self.trail.pop()
                if not self.trail:
                    return
                self.trail[-1] = [not self.trail[-1][0], False]
        finally:
            _cur = prev

    def explore_template(self, dims, fn):
        """Evaluate fn at generic indices 0<=t_k<dims_k, on all local paths.

        Returns (tvars, [(guard, result, effects)]).  Facts that are assumed on the way
        are exported as universally quantified schemas.  Effects on tracked objects are
        recorded in the journal and undone after every local path."""
        tv = [z3.Int(self.name(f"t{len(self.tvars) + k}_")) for k in range(len(dims))]
        saved = (self.trail, self.pos, self.pc, self.schemas, self.tpl, self.journal)
        results, exported = [], []
        rng = [z3.And(t >= 0, t < d) for t, d in zip(tv, dims)]
        self.tvars = self.tvars + tv
        local_trail = []
        try:
            while True:
                self.trail, self.pos = local_trail, 0
                self.pc = list(saved[2])
                self.schemas = list(saved[3])
                self.tpl = _Template(tv, rng)
                self.tpl.all_tv = tv + (saved[4].all_tv if saved[4] is not None else [])
                self.journal = []
                self.solver.push()
                for r in rng:
                    self.pc.append(r)
                    self.solver.add(r)
                ok = False
                try:
                    try:
                        val = fn(*tv)
                        ok = True
                    except PathEnd:
                        pass
                finally:
                    self.solver.pop()
                    effects = list(self.journal)
                    for e in reversed(effects):
                        e.undo()
                if ok:
                    g = self.tpl.guards
                    results.append((z3.And(g) if g else z3.BoolVal(True), val, effects))
                exported.extend(self.tpl.pending)
                while local_trail and not local_trail[-1][1]:
                    local_trail.pop()
                if not local_trail:
                    break
                local_trail[-1] = [not local_trail[-1][0], False]
                if len(results) > 64:
                    raise Undecided("too many local paths")
        finally:
            (self.trail, self.pos, self.pc, self.schemas, self.tpl, self.journal) = saved
            self.tvars = self.tvars[:len(self.tvars) - len(tv)]
        for nv, g in exported:
            self.add_schema(nv, g)
        return tv, results


class _Template:
    def __init__(self, tv, rng):
        self.tv, self.rng = tv, rng
        self.guards = []
        self.pending = []

    def export(self, ctx, nvars, fn):
        tv, hyp = list(self.tv), z3.And(self.rng + list(self.guards))

        def gfn(*ts):
            a, b = ts[:len(tv)], ts[len(tv):]
            fresh = [z3.Int(f"__b{k}") for k in range(len(b))]
            body = fn(*fresh)
            if isinstance(body, bool):
                body = z3.BoolVal(body)
            return z3.substitute(z3.Implies(hyp, body), *zip(tv, a), *zip(fresh, b))

        self.pending.append((len(tv) + nvars, gfn))


def second_backend(solver, timeout_ms):
    """Ask cvc5 when z3 gives up."""
    try:
        import cvc5
    except Exception:
        return None, None
    try:
        smt = "(set-logic ALL)\n" + solver.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        parser = cvc5.InputParser(slv)
        smt = smt.replace("(set-logic ALL)\n", "", 1)
        slv.setLogic("ALL")
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            name = cmd.getCommandName()
            if name == "check-sat":
                r = slv.checkSat()
                if r.isUnsat():
                    return z3.unsat, "cvc5"
                if r.isSat():
                    return z3.sat, "cvc5"
                return None, None
            cmd.invoke(slv, sm)
    except Exception:
        return None, None
    return None, None
