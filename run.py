#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--replay FILE] [--only ORACLE]"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    env = dict(os.environ)
    if "--tier" in args:
        i = args.index("--tier")
        env["VERIF_TIER"] = args[i + 1]
        del args[i:i + 2]
    if env.get("VERIF_STAGE") != "2":
        from vlib import build
        try:
            ov = build.build(True)
        except build.BuildError as e:
            print("ERROR: the tree does not build:\n%s" % e)
            return 2
        env.update(VERIF_STAGE="2", VERIF_OVERLAY=ov, PYTHONPATH=ov + ":" + HERE, PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(HERE, "build", "hyp"))
        env.setdefault("MPLCONFIGDIR", os.path.join(HERE, "build", "mpl"))
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
        os.chdir(HERE)
        sys.stdout.flush()
        os.execve(build.PY, [build.PY, os.path.join(HERE, "run.py"), pid] + args, env)
    from vlib import runner
    return runner.main(pid, args)


if __name__ == "__main__":
    sys.exit(main())
