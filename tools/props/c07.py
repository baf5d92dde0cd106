"""Hybrid hashing: layouts enumerated by TLC with their aligned form and both kinds of hashes, hashed by the real pipeline."""
from props import large_common
from props.pipe_common import hash_check, layout


def run(chk):
    hash_check(chk, "hybrid", "hybrid", 600 if chk.thorough else 80, lambda rng: layout(rng, pads=False))
    large_common.run(chk, "hybrid")
