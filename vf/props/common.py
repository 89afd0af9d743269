"""Shared by the property runners (inside the worker)."""
import hashlib
import numpy as np
from ..build import execute, build, collect
from ..oracle import monitor, Report


def digest(r):
    h = hashlib.sha1()
    for k in sorted(r.rec):
        for v in r.rec[k][-1:]:
            if v is not None:
                h.update(np.round(np.asarray(v, float), 10).tobytes())
    h.update(str(len(r.times)).encode())
    return h.hexdigest()


def result(rep, r=None, cover=()):
    out = {"findings": rep.findings[:6], "obs": rep.obs, "max": rep.max, "sig": rep.sig, "cover": list(cover)}
    if r is not None and getattr(r, "rec", None):
        out["digest"] = digest(r)
    return out


def expect_times(rep, r):
    """basic sanity of the recorded history; without it the replay is moot"""
    n = len(r.times)
    for k, v in r.rec.items():
        if len(v) != n:
            rep.findings.append(dict(what="derived quantity %s has %d values for %d times" % (k, len(v), n),
                                     mech="history:lengths"))
            return False
    if n == 0:
        rep.findings.append(dict(what="the run recorded no step at all", mech="history:empty"))
        return False
    if r.spec["settings"].get("transient", True):
        d = np.diff([0.0] + [float(t) for t in r.times])
        if not np.all(d > 0):
            rep.findings.append(dict(what="recorded times do not increase: %s" % r.times[:10], mech="history:times"))
            return False
    return True


def rows_case(case, wd, eqs, tol=2e-5, **kw):
    spec = case["spec"]
    r = execute(spec, workdir=wd, cap=400)
    rep = Report()
    if expect_times(rep, r):
        monitor(r, eqs=eqs, tol=tol, rep=rep, **kw)
    return r, rep


def cover_of(case):
    return ["%s=%s" % (k, v) for k, v in case["st"].items()]
