"""One model run by all processes of `mpirun -n N`; rank 0 leaves the outcome."""
import sys
import json
import warnings
import traceback


def model_run(case, wd, tag):
    """build, run, report: used by the parallel and by the serial twin"""
    import copy
    import numpy as np
    from .build import build
    from .props.c12 import make_quantity
    import festim as F
    spec = copy.deepcopy(case["spec"])
    qs = [make_quantity(q) for q in case["quantities"]]
    labs = [str(t.get("id", i)) for i, t in enumerate(spec.get("traps", []), 1)]

    def exports(r):
        out = [F.DerivedQuantities(qs, filename="%s.csv" % tag)]
        for fl in ["solute", "T", "retention"] + labs:
            out.append(F.XDMFExport(fl, label="f" + fl, filename="%s_%s.xdmf" % (tag, fl), mode=1, checkpoint=True))
        if spec["mesh"]["kind"] == "1d":
            for fl in ["solute", "T"] + labs:
                out.append(F.TXTExport(fl, "%s_%s.txt" % (tag, fl)))
        return out
    r = build(spec, workdir=wd, exports=exports, probes=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r.model.initialise()
        r.model.run()
    return dict(times=[float(t) for t in r.user_exports[0].t], q=[[float(v) for v in q.data] for q in qs]), r


def main():
    src, dst = sys.argv[1:3]
    warnings.simplefilter("ignore")
    from . import jitlite
    jitlite.install()
    import fenics as f
    case = json.load(open(src))
    comm = f.MPI.comm_world
    try:
        out, _ = model_run(case, case["wd"], "par")
    except Exception as e:
        out = dict(error="%s: %s" % (type(e).__name__, str(e).strip()[-400:]), tb=traceback.format_exc()[-1500:])
    with open("%s.%d" % (dst, comm.rank), "w") as fh:
        json.dump(dict(out, size=comm.size), fh)
    if "error" in out:
        # the other processes may wait for this one
        comm.Abort(3)


if __name__ == "__main__":
    main()
