"""Stand-in for the compiled module of the same name."""


def make_hermitian(g):
    r = g.copy()
    d = g.data[::-1] if type(g.mesh).__name__ == 'MeshImFreq' else g.data
    r.data[:] = .5 * (g.data + (d if g.target_rank == 0 else d.swapaxes(1, 2)).conj())
    return r


def make_real_in_tau(g):
    r = g.copy()
    r.data[:] = .5 * (g.data + g.data[::-1].conj())
    return r


def _no(*a, **k):
    raise NotImplementedError


make_gf_from_fourier = make_gf_dlr = fit_gf_dlr = make_gf_dlr_imtime = make_gf_dlr_imfreq = make_gf_imtime = make_gf_imfreq = _no
