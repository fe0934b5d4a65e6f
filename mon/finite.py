"""Shared workload bits for finite-chain properties."""
import numpy as np
from . import dense as dn, gen, watch


def make(cls, A, N, D, q, *args, **kw):
    s = cls(N, D, q, *args, **kw)
    s.set_state_from_tensors(gen.copyA(A), do_update=False)
    return s


def rand_state(rng, kinds=None, **kw):
    N, D, q = gen.rand_chain_shape(rng, **kw)
    kinds = kinds or gen.KINDS
    kind = kinds[rng.randint(len(kinds))]
    return N, D, q, kind, gen.rand_tensors(rng, N, D, q, kind)


def rand_ham(rng, N, q, sites, style='array', herm=True):
    """(evoMPS ham argument, dict n -> dense term)."""
    terms = {}
    for n in range(1, N - sites + 2):
        terms[n] = dn.rand_op(rng, [q[n + i] for i in range(sites)], herm=herm)
    if style == 'gaps' and len(terms) > 1:
        for n in list(terms):
            if rng.rand() < 0.4 and len(terms) > 1:
                del terms[n]
    if style == 'callable':
        tab = {n: t.copy() for n, t in terms.items()}

        def ham(n, *idx):
            return tab[int(n)][tuple(int(i) for i in idx)]
        return ham, terms
    ham = [None] * (N + 1 if rng.rand() < 0.5 else N - sites + 2)
    for n, t in terms.items():
        ham[n] = t.copy()
    return ham, terms


def herm_part(x):
    return 0.5 * (x + x.conj().T)
