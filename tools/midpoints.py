#!/usr/bin/env python3
"""Writes spec/EcMid.tla: x coordinates of curve points for which an intermediate of the curve equation, in
Montgomery form, has runs of all-one or all-zero words, both when the last conditional subtraction happens and when not;
and the same for intermediates of doubling the point (whose Z is one).
Families: sq x^2, ad x^2+a, mu x^3+ax, cu x^3+ax+b (= y^2: the other operand's square too), yy y;
xx x, xp x+1, xm x-1, x2 x^2-1, x4 (x^2-1)^2, yp y+1, ys (y+1)^2, yd 2y."""
import random
C = {"p256": (2**256 - 2**224 + 2**192 + 2**96 - 1, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b, 4),
     "p384": (2**384 - 2**128 - 2**96 + 2**32 - 1, 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef, 6)}
rnd = random.Random(20)
def sqrt(v, p):
    r = pow(v, (p + 1) // 4, p)
    return r if r * r % p == v % p else None
def pmul(f, g, A, B, p):
    c = [0] * 5
    for i in range(3):
        for j in range(3):
            c[i + j] += f[i] * g[j]
    c[2] -= c[4] * A; c[1] -= c[4] * B
    c[1] -= c[3] * A; c[0] -= c[3] * B
    return [x % p for x in c[:3]]
def ppow(f, e, A, B, p):
    r = [1, 0, 0]
    for b in bin(e)[2:]:
        r = pmul(r, r, A, B, p)
        if b == "1":
            r = pmul(r, f, A, B, p)
    return r
def trim(f):
    while f and f[-1] == 0:
        f = f[:-1]
    return f
def pmod(f, g, p):
    f = f[:]
    i = pow(g[-1], -1, p)
    while len(f) >= len(g):
        q = f[-1] * i % p
        for k in range(len(g)):
            f[len(f) - len(g) + k] = (f[len(f) - len(g) + k] - q * g[k]) % p
        f = trim(f[:-1])
        if not f:
            break
    return trim(f)
def gcd(f, g, p):
    f, g = trim(f), trim(g)
    while g:
        f, g = g, pmod(f, g, p)
    return f
def roots(A, B, p):  # of x^3 + Ax + B
    f = [B % p, A % p, 0, 1]
    h = ppow([0, 1, 0], p, A, B, p)
    g = gcd(f, [h[0], (h[1] - 1) % p, h[2]], p)
    while len(g) > 2:
        k = gcd(g, [(v - (i == 0)) % p for i, v in enumerate(ppow([rnd.randrange(p), 1, 0], (p - 1) // 2, A, B, p))], p)
        if 1 < len(k) < len(g):
            g = k if len(k) == 2 else (k if len(k) < len(g) else g)
    return [] if len(g) < 2 else [-g[0] * pow(g[1], -1, p) % p]
out = {}
for c, (p, b, n) in C.items():
    R = 1 << (64 * n)
    Ri = pow(R, -1, p)
    ninv = -pow(p, -1, R) % R
    def redc(t):
        return (t + (t * ninv % R) * p) // R
    M = lambda v: v * R % p
    fams = {}
    pats = [(v, j, k) for v in (0, 2**64 - 1) for j in range(n) for k in range(j, n) if (j, k) != (0, n - 1)]
    EQ = {"sq", "ad", "mu", "cu"}
    def ofy(y): return roots(p - 3, (b - y * y) % p, p)
    def sq2(v):
        r = sqrt(v % p, p)
        return [] if r is None else [r, p - r]
    DBL = {"yy": lambda u: ofy(u), "xx": lambda u: [u], "xp": lambda u: [(u - 1) % p], "xm": lambda u: [(u + 1) % p],
           "x2": lambda u: sq2(u + 1), "x4": lambda u: [x for r in sq2(u) for x in sq2(r + 1)],
           "yp": lambda u: ofy(u - 1), "ys": lambda u: [x for r in sq2(u) for x in ofy(r - 1)], "yd": lambda u: ofy(u * pow(2, -1, p))}
    for fam in ("sq", "ad", "mu", "cu", "yy", "xx", "xp", "xm", "x2", "x4", "yp", "ys", "yd"):
        got = []
        for v, j, k in pats:
            for wrap in ((0, 1) if fam in EQ else (None, None)):
                for t in range(120):
                    s = sum((v if j <= i <= k else rnd.getrandbits(64)) << (64 * i) for i in range(n))
                    if s >= p:
                        if v and k == n - 1:  # top words all ones: let the words below be such that it is less than p
                            s = s % (1 << (64 * n)) 
                            if s >= p: continue
                        else:
                            continue
                    u = s * Ri % p
                    if fam == "sq":
                        x = sqrt(u, p); xs = [] if x is None else [x, p - x]
                        w = lambda x: redc(M(x) * M(x)) >= p
                    elif fam == "ad":
                        x = sqrt((u + 3) % p, p); xs = [] if x is None else [x, p - x]
                        w = lambda x: M(x * x) + M(p - 3) >= p
                    elif fam == "mu":
                        xs = roots(p - 3, -u % p, p)
                        w = lambda x: redc(M(x * x - 3) * M(x)) >= p
                    elif fam == "cu":
                        xs = roots(p - 3, (b - u) % p, p)
                        w = lambda x: M(x**3 - 3 * x) + M(b) >= p
                    else:
                        xs = DBL[fam](u)
                    xs = [x for x in xs if sqrt((x**3 - 3 * x + b) % p, p) is not None and (wrap is None or bool(w(x)) == bool(wrap))]
                    if xs:
                        got.append("%x" % xs[0])
                        break
        fams[fam] = got
        print(c, fam, len(got), "of", len(pats))
    out[c] = fams
with open("/verif/spec/EcMid.tla", "w") as f:
    f.write("-------------------------------- MODULE EcMid --------------------------------\n(* Written by tools/midpoints.py: x coordinates of points for which an           *)\n(* intermediate of the curve equation has runs of all-one or all-zero words.      *)\nMidX ==\n  [")
    f.write(",\n   ".join("%s |-> [%s]" % (c, ",\n     ".join("%s |-> <<%s>>" % (k, ", ".join('"%s"' % x for x in v)) for k, v in fams.items())) for c, fams in out.items()))
    f.write("]\n=============================================================================\n")
