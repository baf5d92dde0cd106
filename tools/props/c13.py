from props.storage_common import edits


def run(chk):
    edits(chk)
    chk.assumptions.append("sequences beyond the enumerated length are sampled")
