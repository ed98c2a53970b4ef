"""Exact read-out of float1024 values (through their pickled hexadecimal form) and correctly rounded references."""
from fractions import Fraction
import math
def state(x): return x.__reduce_ex__(2)[2] if not isinstance(x.__reduce_ex__(2)[2], tuple) else x.__reduce_ex__(2)[2][0]
def parse(s):
    """'%Ra' text -> Fraction, 'inf', '-inf', 'nan', '-0'"""
    t = s.lower().strip('@')
    neg = t.startswith('-'); u = t.lstrip('+-').strip('@')
    if u.startswith('nan'): return 'nan'
    if u.startswith('inf'): return '-inf' if neg else 'inf'
    assert u.startswith('0x'), s
    m, e = u[2:].split('p')
    a, _, b = m.partition('.')
    v = Fraction(int((a + b) or '0', 16), 16 ** len(b)) * Fraction(2) ** int(e)
    if v == 0: return '-0' if neg else Fraction(0)
    return -v if neg else v
def value(x): return parse(state(x))
def exact(x):
    v = value(x)
    return Fraction(0) if v == '-0' else (v if isinstance(v, Fraction) else None)
def rnd(v, prec=1024):
    """round a non-zero Fraction to prec bits, half to even"""
    if v == 0: return Fraction(0)
    n, d = abs(v).numerator, abs(v).denominator
    e = n.bit_length() - d.bit_length() - prec
    while True:
        q = Fraction(n, d) / Fraction(2) ** e
        if q < 2 ** (prec - 1): e -= 1; continue
        if q >= 2 ** prec: e += 1; continue
        break
    f = q.numerator // q.denominator; r = q - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f % 2): f += 1
    w = Fraction(f) * Fraction(2) ** e
    return w if v > 0 else -w
