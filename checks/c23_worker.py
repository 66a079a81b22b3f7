"""Runs the numeric kernels on generated inputs in one execution mode and stores all results.

    python c23_worker.py MODE PART SEED N_SHARDS SIZE OUT

MODE: compiled (as users run it), bounds (compiled with array bounds checks), plain (uncompiled).
PART: cube, sphere, small (splits the compilation over processes).
"""
import multiprocessing as mp
import os
import pickle
import sys
import zlib


def main():
    mode, part, seed, n_shards, size, out = sys.argv[1:7]
    if mode == "bounds":
        os.environ["NUMBA_BOUNDSCHECK"] = "1"
    os.environ.pop("NUMBA_DISABLE_JIT", None)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vk import core

    core.setup_env(jit=mode != "plain")
    from checks import c23

    tasks = [(part, int(seed), s, int(size)) for s in range(int(n_shards))]
    c23.execute(part, int(seed), 0, 1)  # compile before forking
    ctx = mp.get_context("fork")
    with ctx.Pool(3) as pool:
        res = pool.starmap(c23.execute, tasks, chunksize=1)
    with open(out, "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main()
