"""Per-file checksums: layouts enumerated by TLC for every protocol, hashed with checksums by the real pipeline."""
from props import large_common
from props.pipe_common import hash_check, layout

ALGOS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_256", "sha3_512", "blake2b_512", "blake2s_256"]


def run(chk):
    t = chk.thorough

    def sums(rng):
        return rng.sample(ALGOS, rng.choice([1, 1, 2, 3, 4]))
    hash_check(chk, "v1", "v1", 200 if t else 30, layout, sums=sums, share=1 if t else .5)
    hash_check(chk, "v2", "v2", 200 if t else 30, layout, sums=sums)
    hash_check(chk, "hybrid", "hybrid", 200 if t else 30, lambda rng: layout(rng, pads=False), sums=sums, share=1 if t else .6)
    large_common.run(chk, "v1", sums=("sha1",))
    large_common.run(chk, "v2", sums=("sha256",))
