"""Identities between real expressions: rational functions over elementary functions, decided by normal forms.
An expression is a quotient of polynomials with rational coefficients; sqrt, atan, tan, sin and cos applications are
generators, with sqrt(e)^2 = e, tan = sin/cos, sin^2 + cos^2 = 1 and multiple-angle expansion.  Derivatives are taken
symbolically.  A difference that normalises to zero is identically zero wherever the denominators are not."""
import z3, math, random
from fractions import Fraction
ONE = ()
class P(dict):
    """polynomial: monomial (sorted tuple of (generator, exponent)) -> coefficient"""
def padd(a, b, k=1):
    r = P(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for g, e in n: d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))
def pconst(c): return P({ONE: Fraction(c)}) if c else P()
class TooBig(Exception): pass
class NotField(Exception): pass
class F:
    """num / product of den factors (factor key -> exponent)"""
    __slots__ = ('n', 'd')
    def __init__(s, n, d=None): s.n, s.d = n, d or {}
class Field:
    def __init__(s, resolve=None):
        s.gens, s.args, s.rel, s.facs, s.cache, s.resolve, s.trig = [], {}, {}, {}, {}, resolve, []
    # ---- generators
    def gen(s, key, kind, arg=None, term=None):
        for i, (k, kd, a, t) in enumerate(s.gens):
            if kd == kind and (k == key if arg is None else s.same(a, arg)): return i
        s.gens.append((key, kind, arg, term)); return len(s.gens) - 1
    def var(s, i): return F(P({((i, 1),): Fraction(1)}))
    def pmul(s, a, b):
        r = P()
        if len(a) * len(b) > 400000: raise TooBig()
        for m, c in a.items():
            for n, k in b.items():
                x = mmul(m, n); v = r.get(x, 0) + c * k
                if v: r[x] = v
                else: r.pop(x, None)
        return s.red(r)
    def red(s, p):
        """reduce g^2 for generators with a relation"""
        while True:
            for m in p:
                h = next(((g, e) for g, e in m if e >= 2 and g in s.rel), None)
                if h: break
            else: return p
            g, e = h; c = p[m]; q = P(p); del q[m]
            rest = tuple((a, b) for a, b in m if a != g); k, o = divmod(e, 2)
            t = P({mmul(rest, ((g, 1),) if o else ()): c})
            for _ in range(k): t = s.pmul(t, s.rel[g])
            p = padd(q, t)
            if len(p) > 200000: raise TooBig()
    def fac(s, p):
        """denominator factors of a polynomial: its monomial content, constant and primitive rest"""
        if not p: raise NotField('division by zero')
        d = {}; common = None
        for m in p: common = dict(m) if common is None else {g: min(e, dict(m).get(g, 0)) for g, e in common.items()}
        common = {g: e for g, e in (common or {}).items() if e}
        if common:
            q = P()
            for m, c in p.items():
                x = dict(m)
                for g, e in common.items(): x[g] -= e
                q[tuple(sorted((g, e) for g, e in x.items() if e))] = c
            p = q
            for g, e in common.items(): d[('g', g)] = e
        lead = p[max(p)]; p = P({m: c / lead for m, c in p.items()})
        if len(p) > 1: k = ('p', tuple(sorted(p.items()))); s.facs[k] = p; d[k] = 1
        return lead, d
    def fp(s, k): return P({((k[1], 1),): Fraction(1)}) if k[0] == 'g' else s.facs[k]
    def scale(s, n, ds):
        for k, e in ds.items():
            for _ in range(e): n = s.pmul(n, s.fp(k))
        return n
    def cancel(s, f):
        """drop monomial factors shared by numerator and denominator"""
        d = dict(f.d); n = f.n
        if not n: return F(P())
        for k in [k for k in d if k[0] == 'g']:
            e = min(dict(m).get(k[1], 0) for m in n)
            e = min(e, d[k])
            if e:
                q = P()
                for m, c in n.items():
                    x = dict(m); x[k[1]] -= e; q[tuple(sorted((g, v) for g, v in x.items() if v))] = c
                n = q; d[k] -= e
                if not d[k]: del d[k]
        return F(n, d)
    def add(s, a, b, k=1):
        l = dict(a.d)
        for x, e in b.d.items(): l[x] = max(l.get(x, 0), e)
        na = s.scale(a.n, {x: e - a.d.get(x, 0) for x, e in l.items()}); nb = s.scale(b.n, {x: e - b.d.get(x, 0) for x, e in l.items()})
        return s.cancel(F(padd(na, nb, k), l))
    def mul(s, a, b):
        d = dict(a.d)
        for x, e in b.d.items(): d[x] = d.get(x, 0) + e
        return s.cancel(F(s.pmul(a.n, b.n), d))
    def inv(s, a):
        lead, d = s.fac(a.n); n = s.scale(pconst(1 / lead), a.d); return s.cancel(F(n, d))
    def same(s, a, b):
        n = s.add(a, b, -1).n; return not n
    def const(s, c): return F(pconst(c))
    # ---- terms
    def of(s, t):
        if not z3.is_expr(t): return s.const(Fraction(t))
        k = t.get_id()
        if k in s.cache: return s.cache[k][1]
        r = s._of(t); s.cache[k] = (t, r); return r
    def _of(s, t):
        if z3.is_rational_value(t) or z3.is_int_value(t): return s.const(t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long()))
        d = t.decl().kind(); ch = t.children()
        if d == z3.Z3_OP_ADD:
            r = s.of(ch[0])
            for c in ch[1:]: r = s.add(r, s.of(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = s.of(ch[0])
            for c in ch[1:]: r = s.add(r, s.of(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS: return s.mul(s.const(-1), s.of(ch[0]))
        if d == z3.Z3_OP_MUL:
            r = s.of(ch[0])
            for c in ch[1:]: r = s.mul(r, s.of(c))
            return r
        if d == z3.Z3_OP_DIV: return s.mul(s.of(ch[0]), s.inv(s.of(ch[1])))
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            n = ch[1].numerator_as_long(); b = s.of(ch[0] ); b = b if n >= 0 else s.inv(b); r = s.const(1)
            for _ in range(abs(n)): r = s.mul(r, b)
            return r
        if d == z3.Z3_OP_ITE:
            v = s.resolve(ch[0]) if s.resolve else None
            if v is None: raise NotField('condition not decided: %s' % ch[0])
            return s.of(ch[1] if v else ch[2])
        if d == z3.Z3_OP_TO_REAL: return s.of(ch[0]) if z3.is_int_value(ch[0]) else s.var(s.gen(str(t), 'var', term=t))
        if d == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if not ch: return s.var(s.gen(n, 'var', term=t))
            if n in FUNS and len(ch) == 1: return s.app(n, s.of(ch[0]))
            return s.var(s.gen(t.sexpr(), 'var', term=t))
        raise NotField(str(t.decl()))
    def app(s, n, a):
        if n == 'sqrt':
            c = s.isconst(a)
            if c is not None and c >= 0 and math.isqrt(c.numerator) ** 2 == c.numerator and math.isqrt(c.denominator) ** 2 == c.denominator: return s.const(Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator)))
            if not a.d:
                i = s.gen(None, 'sqrt', a); s.rel[i] = a.n; return s.var(i)
            D = s.scale(pconst(1), a.d); i = s.gen(None, 'sqrt', F(s.pmul(a.n, D)))       # sqrt(n/D) = sqrt(n D)/D for D > 0
            s.rel[i] = s.gens[i][2].n; return s.mul(s.var(i), s.inv(F(D)))
        if n in ('tan', 'sin', 'cos'):
            if not a.n: return s.const(1 if n == 'cos' else 0)
            q, i = s.angle(a); S, C = s.multi(q, i)
            return S if n == 'sin' else C if n == 'cos' else s.mul(S, s.inv(C))
        i = s.gen(None, n, a); return s.var(i)
    def isconst(s, a): return (a.n.get(ONE, Fraction(0)) if (not a.n or (len(a.n) == 1 and ONE in a.n)) and not a.d else None)
    def angle(s, a):
        """a = q * base for a known base angle with an integer q"""
        for base, si, ci in s.trig:
            m = max(a.n); mb = max(base.n)
            if a.d == base.d and m == mb:
                q = a.n[m] / base.n[mb]
                if s.same(a, F(P({k: v * q for k, v in base.n.items()}), base.d)):
                    if q.denominator == 1: return int(q), (si, ci)
                    raise NotField('angles without a common unit')
        raise NotField('angle not announced')
    def announce(s, terms):
        """collect all angles first, to choose units all of them are multiples of"""
        seen = {}; levels = {}
        def walk(t):
            """nesting depth of trigonometric functions in t"""
            if not z3.is_expr(t): return 0
            k = t.get_id()
            if k in seen: return seen[k][1]
            d = max([walk(c) for c in t.children()] + [0])
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name() in ('tan', 'sin', 'cos'): levels.setdefault(d, []).append(t); d += 1
            seen[k] = (t, d); return d
        for t in terms: walk(t)
        for d in sorted(levels): s.families(levels[d])
    def families(s, ts):
        fams = []
        for t in ts:
            a = s.of(t.arg(0))
            if not a.n: continue
            m = max(a.n); c = a.n[m]; unit = F(P({k: v / c for k, v in a.n.items()}), a.d)
            for f in fams:
                if s.same(f[0], unit): f[1].append(c); break
            else: fams.append((unit, [c]))
        for unit, cs in fams:
            den = math.lcm(*[c.denominator for c in cs]); num = math.gcd(*[int(c * den) for c in cs]); g = Fraction(num, den)
            base = F(P({k: v * g for k, v in unit.n.items()}), unit.d); i = s.gen(('sin', len(s.trig)), 'sinb', base); j = s.gen(('cos', len(s.trig)), 'cosb', base)
            s.rel[i] = padd(pconst(1), P({((j, 2),): Fraction(1)}), -1); s.trig.append((base, i, j))
    def multi(s, q, ij):
        S, C = s.var(ij[0]), s.var(ij[1]); neg = q < 0; q = abs(q); s_, c_ = s.const(0), s.const(1)
        for _ in range(q): s_, c_ = s.add(s.mul(s_, C), s.mul(c_, S)), s.add(s.mul(c_, C), s.mul(s_, S), -1)
        return (s.mul(s.const(-1), s_) if neg else s_), c_
FUNS = ('sqrt', 'tan', 'atan', 'sin', 'cos', 'exp', 'log')
def zero(terms, resolve=None):
    """all differences in terms (pairs) are identically zero"""
    f = Field(resolve); f.announce([x for p in terms for x in p])
    return [not f.add(f.of(a), f.of(b), -1).n for a, b in terms]
R = z3.RealSort()
def fn(n): return z3.Function(n, R, R)
def diff(t, v, cache=None):
    """derivative of term t in the variable v"""
    cache = {} if cache is None else cache
    if not z3.is_expr(t): return z3.RealVal(0)
    k = t.get_id()
    if k in cache: return cache[k][1]
    r = _diff(t, v, cache); cache[k] = (t, r); return r
def _diff(t, v, cache):
    Z, O = z3.RealVal(0), z3.RealVal(1); ch = t.children(); d = lambda x: diff(x, v, cache); isz = lambda x: z3.is_rational_value(x) and x.numerator_as_long() == 0
    if z3.is_rational_value(t) or z3.is_int_value(t): return Z
    if t.eq(v): return O
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and not ch: return Z
    D = [d(c) for c in ch] if k != z3.Z3_OP_ITE else [None] + [d(c) for c in ch[1:]]
    if k != z3.Z3_OP_ITE and all(isz(x) for x in D): return Z
    add = lambda xs: Z if not xs else xs[0] if len(xs) == 1 else z3.Sum(*xs)
    if k == z3.Z3_OP_ADD: return add([x for x in D if not isz(x)])
    if k == z3.Z3_OP_SUB:
        r = D[0]
        for x in D[1:]: r = r - x
        return r
    if k == z3.Z3_OP_UMINUS: return -D[0]
    if k == z3.Z3_OP_MUL:
        out = []
        for i, x in enumerate(D):
            if isz(x): continue
            p = x
            for j, c in enumerate(ch):
                if j != i: p = p * c
            out.append(p)
        return add(out)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]): n = ch[1].as_fraction(); return D[0] * z3.RealVal(n) * ch[0] ** z3.RealVal(n - 1)
    if k == z3.Z3_OP_DIV: return D[0] / ch[1] - ch[0] * D[1] / (ch[1] * ch[1])
    if k == z3.Z3_OP_ITE: return z3.If(ch[0], D[1], D[2])
    if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
        n = t.decl().name(); e = ch[0]
        if n == 'sqrt': return D[0] / (2 * t)
        if n == 'atan': return D[0] / (1 + e * e)
        if n == 'tan': return D[0] * (1 + t * t)
        if n == 'sin': return D[0] * fn('cos')(e)
        if n == 'cos': return -D[0] * fn('sin')(e)
        if n == 'exp': return D[0] * t
        if n == 'log': return D[0] / e
    raise NotField('derivative of ' + str(t.decl()))
# ---- numbers
MATH = {'sqrt': math.sqrt, 'atan': math.atan, 'tan': math.tan, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log}
def num(t, env, cache=None):
    """value of a term or condition in double precision; env: variable name -> number"""
    cache = {} if cache is None else cache
    k = t.get_id()
    if k in cache: return cache[k][1]
    r = _num(t, env, cache); cache[k] = (t, r); return r
def _num(t, env, cache):
    if z3.is_rational_value(t): return float(t.as_fraction())
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    k = t.decl().kind(); ch = t.children(); g = lambda x: num(x, env, cache)
    if k == z3.Z3_OP_ITE: return g(ch[1]) if g(ch[0]) else g(ch[2])
    if k == z3.Z3_OP_AND: return all(g(c) for c in ch)
    if k == z3.Z3_OP_OR: return any(g(c) for c in ch)
    if k == z3.Z3_OP_NOT: return not g(ch[0])
    if k == z3.Z3_OP_IMPLIES: return (not g(ch[0])) or g(ch[1])
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if not ch: return env[n]
        if n in MATH: return MATH[n](g(ch[0]))
        raise NotField(n)
    v = [g(c) for c in ch]
    if k == z3.Z3_OP_ADD: return sum(v)
    if k == z3.Z3_OP_SUB: return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS: return -v[0]
    if k == z3.Z3_OP_MUL:
        r = 1
        for x in v: r *= x
        return r
    if k == z3.Z3_OP_DIV: return v[0] / v[1]
    if k == z3.Z3_OP_POWER: return v[0] ** v[1]
    if k == z3.Z3_OP_LE: return v[0] <= v[1]
    if k == z3.Z3_OP_LT: return v[0] < v[1]
    if k == z3.Z3_OP_GE: return v[0] >= v[1]
    if k == z3.Z3_OP_GT: return v[0] > v[1]
    if k == z3.Z3_OP_EQ: return v[0] == v[1] or (isinstance(v[0], float) and math.isclose(v[0], v[1], rel_tol=1e-9, abs_tol=1e-300))
    if k == z3.Z3_OP_DISTINCT: return v[0] != v[1]
    if k == z3.Z3_OP_TO_REAL: return v[0]
    raise NotField(str(t.decl()))
def oblige_eq(cx, name, pairs, sample, alts=(), tol=1e-6, info=None, pc=None):
    """obligation: on this path each pair is equal (or, as a whole, the pairs of one of alts are).
    sample(rng) -> environment for the numeric test that tells a wrong identity from one outside the theory."""
    import time
    if not cx.live or cx.mod_changed: return
    t0 = time.time(); res = cx.res; pc = list(cx.pc) if pc is None else pc
    def resolve(c):
        if cx.valid(c): return True
        if cx.valid(z3.Not(c)): return False
        return None
    tr = lambda x: x if z3.is_expr(x) else z3.RealVal(Fraction(x))
    sets = []; err = None
    for p in [pairs] + list(alts):
        try: sets.append([(tr(a), tr(b)) for a, b in (p() if callable(p) else p)])
        except NotField as e: err = str(e)
    for p in sets:
        try:
            if all(zero(p, resolve)):
                res.queries += 1; res.backends['field normal form'] = res.backends.get('field normal form', 0) + 1; res.solver_s += time.time() - t0; res.add(name, 'ok'); return
        except (NotField, TooBig, RecursionError) as e: err = str(e)
    d = dict(line=cx.cur_line, fn=cx.frames[-1].label if cx.frames else '', info=info); rng = random.Random(7); worst = None; hits = 0
    names = set(sample(rng)); pc = [f for f in pc if evaluable(f, names)]; lim = time.time() + 20
    for _ in range(60000):
        if time.time() > lim: break
        if hits >= 300: break
        env = sample(rng)
        try:
            c = {}
            if not all(num(f, env, c) for f in pc): continue
        except (ZeroDivisionError, ValueError, OverflowError, NotField, KeyError): continue
        try:
            best = None
            for p in sets:
                e = max(abs(num(a, env) - num(b, env)) / (1 + abs(num(b, env))) for a, b in p); best = e if best is None else min(best, e)
        except (ZeroDivisionError, ValueError, OverflowError): continue
        except (NotField, KeyError): hits = 0; break
        hits += 1
        if best > tol and (worst is None or best > worst[0]): worst = (best, env)
    if worst:
        d['witness'] = {k: str(v) for k, v in worst[1].items()}; d['witness']['difference'] = str(worst[0]); res.add(name, 'fail', d)
    else: d['why'] = err or 'not an identity of the theory, no numeric difference in %d samples' % hits; res.add(name, 'unknown', d)
    res.queries += 1; res.backends['field normal form'] = res.backends.get('field normal form', 0) + 1; res.solver_s += time.time() - t0
def evaluable(f, names):
    """facts the sampler can evaluate: no quantifiers, no side constants"""
    todo = [f]; seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if not z3.is_app(t): return False
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.decl().name() not in MATH if t.num_args() else t.decl().name() not in names): return False
        todo += t.children()
    return True
