"""C21 at run time: float1024 against exact rational arithmetic rounded to 1024 bits, and 1100-bit references for log and pow."""
from .common import *
from .ff import *
import pickle
RULE = 'pairs of operands: long doubles and 1024-bit results of previous operations (all exponents, ties, cancellations), zeros of both signs, infinities, not-a-number; non-trivial: both finite and non-zero'
CONTRACTS = ['+, -, *, / correctly rounded to nearest even at 1024 bits (also with a plain number on either side and in place)', 'neg, abs, pos exact', 'comparisons of the represented values, false with not-a-number (!= true)', 'isnan, isinf, signbit', 'pow within 1 ulp', 'conversion from a number exact, to text and back within the printed digits, pickling exact']
SPECIAL = ['nan', 'inf', '-inf', 0.0, -0.0, 1.0, -1.0]
nontrivial = lambda c: all(isinstance(x, list) or (isinstance(x, float) and x) for x in (c['a'], c['b']))
def operand(rng):
    r = rng.random()
    if r < .15: return rng.choice(SPECIAL)
    if r < .4: return rng.choice([rng.uniform(-2, 2), float(rng.randint(-100, 100)), math.ldexp(rng.uniform(-1, 1), rng.randint(-900, 900)), 2. ** rng.randint(-60, 60)])
    # quotient of two doubles, times a power: full 1024-bit mantissa; or 1 +- tiny
    if r < .7: return ['/', math.ldexp(rng.uniform(-1, 1) or .5, rng.randint(-300, 300)), rng.uniform(.5, 9)]
    if r < .9: return ['+', rng.choice([1., -1., 3., 1.5]), math.ldexp(rng.choice([1, -1, 3, rng.uniform(-1, 1)]), -rng.randint(900, 1030))]
    return ['*', math.ldexp(rng.uniform(-1, 1) or .5, rng.randint(-900, 900)), math.ldexp(rng.uniform(-1, 1) or .5, rng.randint(-900, 900))]
def cases(rng, tier):
    for a in SPECIAL:
        for b in SPECIAL: yield dict(a=a, b=b)
    while True:
        a, b = operand(rng), operand(rng)
        r = rng.random()
        if r < .1: b = a
        elif r < .15 and isinstance(a, float): b = -a
        yield dict(a=a, b=b)
def num(v): return float(v) if isinstance(v, str) else v
def build(T, v):
    if isinstance(v, list):
        x, y = T(v[1]), T(v[2])
        return x / y if v[0] == '/' else x + y if v[0] == '+' else x * y
    return T(num(v))
NAN, INF = 'nan', 'inf'
def sign(v): return -1 if v in ('-inf', '-0') or (isinstance(v, Fraction) and v < 0) else 1
def fr(v): return Fraction(0) if v == '-0' else v
def isf(v): return isinstance(v, Fraction) or v == '-0'
def zero(s): return '-0' if s < 0 else Fraction(0)
def ref(op, a, b):
    if a == NAN or b == NAN: return NAN
    if op == '-': return ref('+', a, neg(b))
    if op == '+':
        if isf(a) and isf(b):
            s = fr(a) + fr(b)
            if s: return rnd(s)
            return '-0' if a == '-0' and b == '-0' else Fraction(0)
        if isf(a): return b
        if isf(b): return a
        return a if a == b else NAN
    s = sign(a) * sign(b)
    if op == '*':
        if isf(a) and isf(b): p = fr(a) * fr(b); return rnd(p) if p else zero(s)
        if (isf(a) and fr(a) == 0) or (isf(b) and fr(b) == 0): return NAN
        return 'inf' if s > 0 else '-inf'
    if isf(a) and isf(b):
        if fr(b) == 0: return NAN if fr(a) == 0 else ('inf' if s > 0 else '-inf')
        q = fr(a) / fr(b); return rnd(q) if q else zero(s)
    if isf(b): return 'inf' if s > 0 else '-inf'
    if isf(a): return zero(s)
    return NAN
def neg(v):
    if v == NAN: return NAN
    return {'inf': '-inf', '-inf': 'inf', '-0': Fraction(0)}.get(v) if isinstance(v, str) else ('-0' if v == 0 else -v)
def ext(v): return float(v) if isinstance(v, str) and v != '-0' else fr(v)
def flt(v):
    try: return float(v)
    except OverflowError: return math.inf
def check(c):
    from tnco_core import float1024 as T
    import operator as o
    x, y = build(T, c['a']), build(T, c['b'])
    a, b = value(x), value(y)
    if not isinstance(c['a'], list):
        w = num(c['a'])
        want = NAN if w != w else ('inf' if w > 0 else '-inf') if math.isinf(w) else ('-0' if math.copysign(1, w) < 0 and w == 0 else Fraction(w))
        need(a == want, 'float1024(%r) is %s' % (w, a))
        need(float(x) == w or w != w, 'float(float1024(%r)) = %r' % (w, float(x)))
    def eq(got, want, what): need(value(got) == want, '%s: %s, expected %s' % (what, state(got), want if isinstance(want, str) else approx(want)))
    ops = {'+': (o.add, o.iadd), '-': (o.sub, o.isub), '*': (o.mul, o.imul), '/': (o.truediv, o.itruediv)}
    for s, (f, g) in ops.items():
        want = ref(s, a, b)
        eq(f(x, y), want, 'x %s y' % s)
        z = T(x); z2 = g(z, y); eq(z2, want, 'x %s= y' % s)
        if not isinstance(c['b'], list):
            eq(f(x, num(c['b'])), want, 'x %s number' % s); z = T(x); eq(g(z, num(c['b'])), want, 'x %s= number' % s)
        if not isinstance(c['a'], list): eq(f(num(c['a']), y), want, 'number %s y' % s)
        eq(f(x, x), ref(s, a, a), 'x %s x' % s)
    eq(x, a, 'operand x afterwards'); eq(y, b, 'operand y afterwards')
    eq(-x, neg(a), '-x'); eq(+x, a, '+x'); eq(abs(x), neg(a) if sign(a) < 0 and a != NAN else a, 'abs(x)')
    nan = NAN in (a, b)
    for nm, f in (('==', o.eq), ('!=', o.ne), ('<', o.lt), ('<=', o.le), ('>', o.gt), ('>=', o.ge)):
        want = (nm == '!=') if nan else f(ext(a), ext(b))
        need(f(x, y) is want, 'x %s y is %r for %s, %s' % (nm, f(x, y), state(x), state(y)))
        if not isinstance(c['b'], list): need(f(x, num(c['b'])) is want, 'x %s number is %r' % (nm, f(x, num(c['b']))))
        if not isinstance(c['a'], list): need(f(num(c['a']), y) is want, 'number %s y is %r' % (nm, f(num(c['a']), y)))
    need(x.isnan() is (a == NAN), 'isnan of %s' % state(x)); need(x.isinf() is (a in ('inf', '-inf')), 'isinf of %s' % state(x))
    if a != NAN: need(x.signbit() is (sign(a) < 0), 'signbit of %s' % state(x))
    eq(pickle.loads(pickle.dumps(x)), a, 'pickled')
    eq(T(x), a, 'copied')
    if isf(a):
        t = str(x); d = Fraction(t) if 'e' not in t.lower() else Fraction(t)
        need(abs(d - fr(a)) <= Fraction(1, 2) * Fraction(1, 10 ** x.digits10) * (1 + Fraction(1, 10 ** 6)), 'text %s of %s' % (t[:40], state(x)))
        back = value(T(t)); need(fr(back) == (rnd(d) if d else 0), 'float1024(text)')
    need(x.prec == 1024 and x.digits10 == 308, 'prec, digits10')
    if isf(a) and fr(a) > 0 and not isinstance(c['b'], list) and isf(b):
        p = fr(b)
        if p.denominator == 1 and abs(p) <= 60:
            want = rnd(fr(a) ** int(p)) if p else Fraction(1)
            eq(x ** float(p), want, 'x ** %r' % float(p))
        elif abs(p) < 1e3 and p:
            # x**p * x**-p = 1, and (x**p)**(1/p) = x up to rounding
            u, v = fr(value(x ** float(p))), fr(value(x ** float(-p)))
            if u and v and isf(value(x ** float(p))) and isf(value(x ** float(-p))): need(abs(u * v - 1) <= Fraction(1, 2 ** 1021), 'x**p * x**-p for p = %r' % float(p))
            fa = flt(fr(a)); lx = math.log(fa) if 1e-300 < fa < 1e300 else None
            if lx is not None and abs(lx * float(p)) < 600 and u and 1e-300 < flt(u) < 1e300: need(close_(math.log(float(u)), lx * float(p)), 'x ** %r = %r' % (float(p), float(u)))
def approx(v):
    try: return repr(float(v))
    except OverflowError: return 'about 2**%d' % (abs(v.numerator).bit_length() - v.denominator.bit_length())
def close_(p, q): return abs(p - q) <= 1e-9 * max(1, abs(p), abs(q))
