#!/usr/bin/env python3
"""Regenerates the reference Poseidon constants (Grain LFSR of the Poseidon paper) independently of the repository."""
import sys
def grain(n, t, rf, rp, field=1, sbox=0):
    b = []
    for v, w in ((field, 2), (sbox, 4), (n, 12), (t, 12), (rf, 10), (rp, 10)):
        b += [int(c) for c in format(v, "0%db" % w)]
    b += [1] * 30
    st = int("".join(map(str, b)), 2)          # first bit is the most significant
    M = (1 << 80) - 1
    def step():
        nonlocal st
        nb = ((st >> 17) ^ (st >> 28) ^ (st >> 41) ^ (st >> 56) ^ (st >> 66) ^ (st >> 79)) & 1
        st = ((st << 1) & M) | nb
        return nb
    for _ in range(160): step()
    while True:
        while step() == 0: step()
        yield step()
def table(p, n, t, rf, rp, neptune=False):
    g = grain(n, t, rf, rp, sbox=1 if neptune else 0)
    def rnd():
        v = 0
        for _ in range(n): v = v * 2 + next(g)
        return v
    C = []
    while len(C) < (rf + rp) * t:
        v = rnd()
        if v < p: C.append(v)
    if neptune:
        xs = list(range(t)); ys = list(range(t, 2 * t))
    else:
        while True:
            l = [rnd() % p for _ in range(2 * t)]
            if len(set(l)) == 2 * t: break
        xs, ys = l[:t], l[t:]
    Mx = [[pow(x + y, -1, p) for y in ys] for x in xs]
    return C, Mx
