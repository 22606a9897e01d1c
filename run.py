#!/usr/bin/env python
"""Entry point of all checks.

  run.py C01                      run the check of property C01 (VERIF_SEED, VERIF_TIER)
  run.py C01 --replay FILE        re-run the case of a replay file (exit 1 when it still fails)
  run.py C01 --only sub1,sub2     run only some subtests (development)
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0",
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/rtav-hypothesis",
}


def bootstrap():
    """re-exec with the interpreter of the repository and a fixed environment"""
    if os.environ.get("RTAV_BOOT") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env["RTAV_BOOT"] = "1"
    env.setdefault("HOME", "/root")
    env["PYTHONPATH"] = os.pathsep.join(["/repo", HERE, os.path.join(HERE, "vendor")])
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    bootstrap()
    sys.path[:0] = ["/repo", HERE, os.path.join(HERE, "vendor")]
    from rtav import driver

    if sys.argv[1:] == ["--selftest"]:
        driver.selftest()
        return

    sys.exit(driver.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
