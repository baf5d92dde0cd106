"""v1 hashing: layouts enumerated by TLC with the slices each piece covers, hashed by the real pipeline."""
from props import large_common
from props.pipe_common import hash_check, layout


def run(chk):
    hash_check(chk, "v1", "v1", 600 if chk.thorough else 60, layout)
    large_common.run(chk, "v1")
