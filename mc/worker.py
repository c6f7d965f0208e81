"""One shard of an exploration: python -m mc.worker ID tier shard nshards outfile beatfile known.json [case-index]"""
import json, os, sys, traceback, warnings


def main():
    pid, tier, shard, n, out, beatf, known = sys.argv[1:8]
    only = int(sys.argv[8]) if len(sys.argv) > 8 else None
    shard, n = int(shard), int(n)
    warnings.simplefilter("ignore")
    import importlib
    from mc.core import Beat, Ctx, Violation, key_of
    res = dict(error=None, violation=None, known=[], cases=0)
    beat = Beat(beatf, shard)
    ctx = Ctx(tier, beat)
    keys = {k["key"]: k for k in json.load(open(known))}
    try:
        import numpy as np
        np.seterr(all="ignore")
        import primate
        ov = os.environ["VERIF_OVERLAY"]
        assert os.path.realpath(primate.__file__).startswith(os.path.realpath(ov)), primate.__file__
        mod = importlib.import_module(f"mc.props.{pid.lower()}")
        if hasattr(mod, "setup"):
            mod.setup(ctx)
    except Exception:
        res["error"] = "setup: " + traceback.format_exc()
        json.dump(res, open(out, "w"))
        return
    gen = enumerate(mod.cases(tier))
    while True:
        try:
            i, case = next(gen)
        except StopIteration:
            break
        except Exception:
            res["error"] = "case generator: " + traceback.format_exc()
            break
        if (only is not None and i != only) or (only is None and i % n != shard):
            continue
        beat.case(i + 1)
        try:
            mod.run(ctx, case)
            res["cases"] += 1
            if res["cases"] == 1:
                ctx.sample(case)
        except Exception as e:
            if isinstance(e, Violation):
                msg, key = e.msg, e.key or key_of(case)
            else:
                msg, key = "unexpected " + traceback.format_exc(limit=-6), key_of(case)
            if key in keys:
                res["known"].append(dict(key=key, what=keys[key]["what"], msg=msg))
                res["cases"] += 1
                continue
            res["violation"] = dict(index=i, case=case, key=key, msg=msg)
            break
    res.update(transitions=ctx.transitions, traces=ctx.traces, samples=ctx.samples, outcomes=ctx.outcomes)
    with open(out + ".states", "wb") as f:
        f.write(b"".join(sorted(ctx.states)))
    json.dump(res, open(out, "w"), default=str)


main()
