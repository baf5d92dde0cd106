"""v2 verification: layouts and damages enumerated by TLC with the verdict of every piece, run through the real verifier."""
from props import large_common
from props.pipe_common import verify_check, layout, damages


def run(chk):
    verify_check(chk, "v2", "ver2", 1500 if chk.thorough else 150, lambda rng: damages(rng, layout(rng), "v2"))
    large_common.run(chk, "v2", verify=True)
