"""Warm the build caches; every check also works without it."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, harness, profiles


def fn(ctx):
    ctx.build_tool()
    ctx.build_tool(race=True)
    api = profiles.model(1, ["val"], ["void"], nfunc=2, nstruct=1, ncb=1)
    o = harness.prepare(ctx, api, "warm")
    for flags in ((), ("-asan",), ("-race",)):
        harness.build(ctx, o, flags)
    return 0


vlib.main("setup", fn)
