#!/usr/bin/env python3
"""Generates accessor structs for every swizzle name of the public API."""
import itertools, sys
L='xyzw'
def names(S):
    for n in range(1,5):
        for t in itertools.product(range(S),repeat=n):
            yield ''.join(L[i] for i in t), t
out=[]
seen=set()
for S in (1,2,3,4):
    for nm,t in names(S):
        if nm in seen: continue
        seen.add(nm)
        wr = len(set(t))==len(t)
        out.append("struct A_%s { static constexpr int n=%d; static constexpr bool wr=%s; static constexpr int idx[4]={%s}; static constexpr const char*nm=\".%s\"; template<class O> static constexpr auto &&of(O &o) { return o.%s; } };"%(nm,len(t),'true' if wr else 'false',','.join(map(str,t)),nm,nm))
for S in (1,2,3,4):
    out.append("template<template<class> class Do, class Ctx> void each_swizzle_%d(Ctx &c) {"%S)
    for nm,t in names(S): out.append("  Do<A_%s>::go(c);"%nm)
    out.append("}")
print('\n'.join(out))
