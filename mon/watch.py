"""Online monitors hooked onto live evoMPS objects (finite chains).

`watch_finite(mon, s, rules)` replaces `s.update` (and the canonical-form and
truncation entry points) by wrappers that take the dense state before and after
every event and judge the transition.  The code under test runs unmodified.
"""
import numpy as np
from . import dense as dn

TOL = 1e-9


def envs(A, N):
    """Left/right environments recomputed from the tensors alone."""
    l = [np.eye(1, dtype=complex)]
    for n in range(1, N + 1):
        l.append(sum(a.conj().T.dot(l[-1]).dot(a) for a in A[n]))
    r = [None] * (N + 1)
    r[N] = np.eye(1, dtype=complex)
    for n in range(N, 0, -1):
        r[n - 1] = sum(a.dot(r[n]).dot(a.conj().T) for a in A[n])
    return l, r


def judge_envs(mon, s, rule, tol=TOL):
    """Stored l[n], r[n] are the environments of the stored tensors."""
    l, r = envs(s.A, s.N)
    for n in range(0, s.N + 1):
        mon.close(rule + ":l", np.asarray(s.l[n]), l[n], tol, n=n)
        mon.close(rule + ":r", np.asarray(s.r[n]), r[n], tol, n=n)


def judge_shapes(mon, s, rule="bond-dimensions-in-sync"):
    ok = s.D[0] == s.A[1].shape[1]
    for n in range(1, s.N + 1):
        ok = ok and s.D[n] == s.A[n].shape[2] and s.A[n].shape[0] == s.q[n]
        if n > 1:
            ok = ok and s.A[n].shape[1] == s.A[n - 1].shape[2]
    mon.true(rule, ok, D=list(s.D), shapes=[list(s.A[n].shape) for n in range(1, s.N + 1)])


def judge_canonical(mon, s, form, norm_sq=1.0, tol=TOL, diag=True):
    """Right (left) canonical conditions, judged on envs recomputed densely."""
    l, r = envs(s.A, s.N)
    one, oth = (r, l) if form == 'right' else (l, r)
    rng1 = range(1, s.N + 1) if form == 'right' else range(0, s.N)
    # with the norm kept it sits in A[1] (right form) / A[N] (left form)
    rng2 = range(1, s.N + 1) if form == 'right' else range(0, s.N)
    for n in rng1:
        mon.le("canonical:%s-orthonormal" % form, np.abs(one[n] - np.eye(one[n].shape[0])).max(), tol, n=n)
    if not diag:
        return
    for n in rng2:
        x = oth[n]
        sc = max(norm_sq, 1e-300)
        mon.le("canonical:%s-diagonal" % form, np.abs(x - np.diag(np.diag(x))).max() / sc, tol, n=n)
        d = np.diag(x)
        mon.le("canonical:%s-positive" % form, max(0.0, -d.real.min()) / sc + np.abs(d.imag).max() / sc, tol, n=n)
        mon.le("canonical:%s-trace" % form, abs(d.sum() - norm_sq) / sc, tol, n=n)


def watch_finite(mon, s, state=True, canon=True, tol=TOL):
    """Hook update() of a live finite MPS object."""
    orig = s.update

    def update(*a, **kw):
        restore = kw.get('restore_CF', a[0] if len(a) > 0 else True)
        normalize = kw.get('normalize', a[1] if len(a) > 1 else True)
        trunc = kw.get('auto_truncate', a[2] if len(a) > 2 else False)
        again = kw.get('restore_CF_after_trunc', a[3] if len(a) > 3 else True)
        v0 = dn.dense_state(s.A, s.N)
        D0 = list(s.D)
        n0 = np.linalg.norm(v0)
        ret = orig(*a, **kw)
        mon.event("update")
        v1 = dn.dense_state(s.A, s.N)
        n1 = np.linalg.norm(v1)
        if state:
            t = tol if not trunc else 3e-7   # zero_tol on squared values
            mon.le("update:ray-preserved", dn.ray_distance(v0, v1), t,
                   opts=dict(kw), form=s.canonical_form)
            if not trunc:
                mon.le("update:phase-kept", np.linalg.norm(v1 / n1 - v0 / n0), t, opts=dict(kw))
            if normalize:
                mon.le("update:normalised", n1 - 1, tol if not (trunc and not again) else 1e-9, opts=dict(kw))
            elif restore and not trunc:
                mon.le("update:norm-kept", (n1 - n0) / n0, tol, opts=dict(kw))
            elif not trunc:
                mon.le("update:tensors-untouched", np.linalg.norm(v1 - v0) / n0, tol)
            judge_shapes(mon, s)
            if trunc and list(s.D) != D0:
                mon.event("auto-truncation")
                mon.true("update:bonds-never-grow", all(a_ <= b_ for a_, b_ in zip(s.D, D0)), D0=D0, D1=list(s.D))
        if canon:
            judge_envs(mon, s, "environments-match", tol)
            if restore and not (trunc and not again):
                judge_canonical(mon, s, s.canonical_form, 1.0 if normalize else n1 ** 2, tol)
        if mon is not None and s.N <= 10:
            mon.state(v1 / n1 if n1 else v1)
        return ret
    s.update = update
    return s
