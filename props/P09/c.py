# sin and cos of triSimd.h are taken at their contract: lane-wise sine and cosine
import rt as _rt
def _lane(nm):
    f = _rt.ufn(nm)
    def h(sx, st, a, I):
        sx.contracts_used['SIMD ' + nm] = 'lane-wise ' + nm
        return [(st, _rt.vmap(lambda x: x if x is S.UNDEF else f(sx, st, x), a[0]))]
    return h
for _n in ('sin', 'cos'):
    for _t in ('pdDv4_d', 'psDv8_f'): S.CONTRACTS['@_Z13_mm256_%s_%s' % (_n, _t)] = _lane(_n)
# mod_pd/mod_ps: lane-wise wrap into the period; proved on its own by h_mod
def _mod(sx, st, a, I):
    sx.contracts_used['SIMD mod'] = 'lane-wise wrap, proved by h_mod'
    out = []
    for s1, x in sx.load(st, I.ty, a[0], I):
        for s2, d in sx.load(s1, I.ty, a[1], I):
            out.append((s2, S.Vec([S.UNDEF if p is S.UNDEF else terms.fn('mod', (p, q)) for p, q in zip(x, d)])))
    return out

for _n in ('pdRDv4_dRKS_', 'psRDv8_fRKS_'): S.CONTRACTS['@_Z13_mm256_mod_' + _n] = _mod
S.CONTRACTS['@v_mod'] = lambda sx, st, a, I: [(st, terms.fn('mod', (a[0], a[1])))]
