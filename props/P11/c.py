# sin and cos of triSimd.h are taken at their contract: lane-wise sine and cosine
import rt as _rt
def _lane(nm):
    f = _rt.ufn(nm)
    def h(sx, st, a, I):
        sx.contracts_used['SIMD ' + nm] = 'lane-wise ' + nm
        return [(st, _rt.vmap(lambda x: x if x is S.UNDEF else f(sx, st, x), a[0]))]
    return h
for _n in ('sin', 'cos'):
    for _t in ('pdDv4_d', 'psDv8_f'): S.CONTRACTS['@_Z13_mm256_%s_%s' % (_n, _t)] = _lane(_n)
