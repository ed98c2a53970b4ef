"""Reference values of tensor networks: exact integer tensors summed over the assignments of all indices."""
from .nets import *
import numpy as np

def int_arrays(rng, net, ts=None, lo=-3, hi=3, cplx=False):
    """small integer entries: every value is exact in double precision"""
    res = []
    for xs in (ts if ts is not None else net['ts']):
        sh = tuple(dim(net, x) for x in xs); n = int(np.prod(sh, dtype=int))
        a = np.array([rng.randint(lo, hi) for _ in range(n)], dtype=float)
        if cplx: a = a + 1j * np.array([rng.randint(lo, hi) for _ in range(n)], dtype=float)
        res.append(a.reshape(sh))
    return res

def value(ts, arrays, out):
    """sum over every index not in out of the product of all tensors; axes in the order of out (an index may be
    absent from the tensors only if it is not in out)"""
    inds = []
    for xs in ts:
        for x in xs:
            if x not in inds: inds.append(x)
    for x in out: assert x in inds, x
    num = {x: k for k, x in enumerate(inds)}
    # multiply tensors one at a time, summing an index out as soon as no later tensor needs it
    cur_i, cur = [], np.array(1.0)
    for k, (xs, a) in enumerate(zip(ts, arrays)):
        later = set(x for ys in ts[k + 1:] for x in ys) | set(out)
        new = list(cur_i) + [x for x in xs if x not in cur_i]
        sh = lambda ix, arr: np.asarray(arr).transpose([ix.index(x) for x in new if x in ix]).reshape([np.asarray(arr).shape[ix.index(x)] if x in ix else 1 for x in new])
        z = sh(list(cur_i), cur) * sh(list(xs), a)
        drop = tuple(i for i, x in enumerate(new) if x not in later)
        cur = z.sum(axis=drop) if drop else z
        cur_i = [x for x in new if x in later]
    return cur.transpose([cur_i.index(x) for x in out])
def size_ok(net, limit=20000):
    p = 1
    for x in all_inds(net): p *= dim(net, x)
    return p <= limit
