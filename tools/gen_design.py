#!/usr/bin/env python3
"""DESIGN.md from docs/DESIGN.in.md: fills the table of properties and the table of planted bugs."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {  # property -> (modules, bounds of the quick tier, about how many seconds)
"C01": ("QueueADT, QueueImpl, QueueSeq, QueueTrace", "sequences <= 4 calls (deeper in thorough); programs of 2-5 threads, DFS with 2 preemptions, random and PCT schedules", 40),
"C02": ("QueueADT, QueueImpl, QueueTrace", "same programs; spurious wake-ups", 40),
"C03": ("Pool, PoolModel, PoolTrace", "capacity 3, up to 5 requests, 2-3 threads", 15),
"C04": ("Processor, ProcessorImpl, ProcessorModel, ProcessorTrace", "2-3 workers, 3-4 items; random beyond", 30),
"C05": ("Pipeline, PipeModel(v1), Large", "<= 3 files, piece 1/2/4 blocks, 1-8 threads, > 4 GiB by simulation", 80),
"C06": ("Pipeline, PipeModel(v2), Large", "as C05", 90),
"C07": ("Pipeline, PipeModel(hybrid), Large", "as C05", 25),
"C08": ("Pipeline, PipeModel, LifecycleTrace", "every checksum algorithm, subsets; schedules", 65),
"C09": ("Pipeline, PipeModel(ver1)", "damage: one or two of change/truncate/extend/remove", 25),
"C10": ("Pipeline, PipeModel(ver2)", "as C09", 40),
"C11": ("PipelineImpl, Lifecycle, LifecycleModel, LifecycleTrace", "<= 4 chunks, 2 hashers, device errors, cancel at any step", 25),
"C12": ("Merkle, MerkleModel", "edit sequences <= 5 over trees of 1, 2, 3, 5 leaves; every leaf count to 69 and around powers of two; random edits", 15),
"C13": ("Storage, StorageModel, Large", "operation sequences <= 3, random to 20; sizes beyond 4 GiB", 25),
"C14": ("Storage, StorageModel", "<= 3 files, sizes around piece boundaries, 3 piece sizes", 25),
"C15": ("Trackers, TrackersModel", "sequences <= 4 over 3 trackers, both interfaces; random longer ones", 60),
"C16": ("MetaSets, MetaSetsModel", "sequences <= 3 over nodes, seeds, collections, similar torrents; random longer ones", 40),
"C17": ("Metafile, MetafileModel", "each field by each value, pairs by sampling, three protocol versions", 70),
"C18": ("Metafile, MetafileModel", "as C17, with cross seeding", 75),
"C19": ("Magnet, MagnetModel, MagnetTrace", "link texts over a token alphabet <= 4 tokens; all field combinations", 60),
"C20": ("Percent, PercentModel", "all 1- and 2-byte texts, alphabet to 5", 17),
"C21": ("Hex, HexModel", "all 1- and 2-byte texts, alphabet to 4", 16),
"C22": ("Hasher, HasherModel, HasherTrace", "2 hashers, <= 6 calls, every algorithm; > 4 GiB parts", 25),
"C23": ("Digests, DigestsModel", "every digest size; differences at every byte position", 26),
"C24": ("Metafile, MetafileModel(faults, doubles)", "every single fault at every field; pairs by sampling; byte damage", 95),
"C25": ("Entry, EntryModel, EntryCopy", "a fixed tree with links, pipes, strange names; all paths of <= 4 names over it", 29),
"C26": ("Flags, FlagsModel", "every underlying type, every flag pair; compile-time and run-time", 13),
"C27": ("Alloc, AllocModel, AlignModel, BufferModel, AllocTrace", "sequences of allocate/release; alignments 1..4096; sizes near SIZE_MAX", 27),
"C28": ("Units, Sizes, UnitsModel", "every suffix; values around 2^31, 2^32, 2^63", 3),
"C29": ("Saving, SavingModel", "a fault at every write/close/read, each kind of prior file", 20),
"C30": ("MultiBuffer, MultiBufferModel", "lanes 1..16, job completion in any order", 30),
"C31": ("Stages, StagesModel", "all orders of <= 3 items (thorough 4) around start, stop, cancel and waits on 34 layouts; random orders of up to 100 items", 70),
}
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
def row(p):
    m, b, s = MODS[p["id"]]
    return "| %s | %s | %s | %s | %d s |" % (p["id"], p["title"], m, b, s)
table = "| Id | Property | Modules (spec/) | Bounds, quick tier | Cost |\n|---|---|---|---|---|\n" + "\n".join(row(p) for p in props)
rows = []
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append((m["property"], n, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
seeds = "| Property | Planted bug | What it breaks | What it needs | Caught by |\n|---|---|---|---|---|\n" + \
    "\n".join("| %s | `%s` | %s | %s | %s |" % r for r in sorted(rows))
t = open(R + "/docs/DESIGN.in.md").read()
t = t.replace("@@TABLE@@", table).replace("@@SEEDS@@", seeds)
assert "@@" not in t
open(R + "/DESIGN.md", "w").write("<!-- generated by tools/gen_design.py from docs/DESIGN.in.md -->\n" + t)
