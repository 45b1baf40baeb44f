import os, sys, importlib, traceback
import vp

MODULES = ["p_ops", "p_tf", "p_fd", "p_lift", "p_util", "p_model", "p_lstsq", "p_basis", "p_rom", "p_life", "p_param", "p_timer", "p_select", "p_bayes", "p_verify", "p_config"]


def registry():
    reg = {}
    for m in MODULES:
        reg.update(importlib.import_module(m).CHECKS)
    return reg


def setup():
    """every module must import; the Java accelerators of Num.tla must agree with their TLA+ definitions"""
    reg = registry()
    scratch = vp.scratch_dir()
    try:
        r = vp.Run("NumSelf", dict(N=600), ["Same"], check_only=True).start(scratch)
        for _ in r.lines():
            pass
        print("setup ok: %d checks registered; %d accelerator comparisons states" % (len(reg), r.stats["distinct"]))
        return 0
    except vp.MachineryError as ex:
        print("machinery error: %s" % ex)
        return 2
    finally:
        vp.shutil.rmtree(scratch, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import opinf
    src = os.path.realpath(os.path.dirname(opinf.__file__))
    want = os.path.realpath(os.path.join(vp.REPO, "src", "opinf"))
    if src != want:
        print("machinery error: opinf imported from %s, not %s" % (src, want))
        return 2
    if pid == "setup":
        return setup()
    fn = registry()[pid]
    chk = vp.Check(pid, tier, seed)
    try:
        assumptions = fn(chk) or ()
        rc = chk.finish(assumptions=assumptions)
    except vp.MachineryError as ex:
        print("machinery error: %s" % ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        chk.cleanup()
    return rc


if __name__ == "__main__":
    sys.exit(main())
