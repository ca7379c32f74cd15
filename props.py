"""What each check simulates (used by run.py)."""

NODES = ["A", "B", "C", "D", "E", "F"]
FIXNUM = "fixnum, unmodified, compiled from /repo's working tree"

PROPS = {
    "C01": {
        "sims": {"checked": (500000, 9000000)}, "nodes": NODES, "foreign": True,
        "rule": "A run is one replicated ledger: clients, 2-4 replicas on different builds, a lossy network and "
                "journals on a simulated disk; the operations, operands and faults are drawn from the seed.",
        "real": [FIXNUM + " (six differently built copies, loaded side by side)"],
        "stubs": ["network, clock, disks and replica processes: simulated", "replication protocol: written for the "
                  "simulation (journalled state machine replication)"],
    },
    "C02": {
        "sims": {"checked": (900000, 9000000)}, "nodes": NODES,
        "rule": "A run is a ledger whose transactions mix fallible and saturating operations with operands biased "
                "to the edges, with crashes between steps.",
        "real": [FIXNUM + " (six differently built copies, loaded side by side)"],
        "stubs": ["transaction log, disk and processes: simulated"],
    },
    "C03": {
        "sims": {"checked": (1000000, 16000000), "shipped": (1000000, 16000000), "bare": (400000, 8000000)},
        "whole": (25, 240),
        "rule": "A run is one stream of SCALE records written to and read from simulated devices.",
        "real": [FIXNUM, "parity-scale-codec 3 (crate cache)"],
        "stubs": ["inputs, outputs and disk: simulated"],
    },
    "C04": {
        "sims": {"checked": (400000, 8000000), "shipped": (400000, 8000000), "lite": (100000, 1000000), "bare": (100000, 1000000)},
        "whole": (0, 240),
        "rule": "A run is a sequence of amounts printed to simulated sinks.",
        "real": [FIXNUM, "core::fmt and std::io formatting machinery"],
        "stubs": ["sinks and disk: simulated"],
    },
    "C05": {
        "sims": {"checked": (400000, 6000000), "shipped": (500000, 8000000), "bare": (150000, 2000000)},
        "whole": (0, 240),
        "rule": "A run is a document store (a journal of JSON documents, or a TOML or JSON file replaced as a "
                "whole, on a simulated disk) through writes, faults, crashes and recoveries.",
        "real": [FIXNUM, "serde 1, serde_json 1, toml 1.1 (crate cache)"],
        "stubs": ["disk, writers and readers: simulated", "document store: written for the simulation"],
    },
    "C06": {
        "sims": {"checked": (500000, 16000000), "shipped": (500000, 16000000), "lite": (100000, 2000000), "bare": (200000, 6000000)},
        "whole": (0, 240),
        "rule": "A run delivers documents, written by a simulated foreign peer or by fixnum, along every route a "
                "format offers (borrowed buffer, chunked and interrupted reader, owned tree, serde's own buffers), and "
                "single amounts token by token from a simulated decoder in every form the data model has.",
        "real": [FIXNUM, "serde 1, serde_json 1, ciborium 0.2, toml 1.1 (crate cache)"],
        "stubs": ["readers: simulated", "the token-by-token decoder: a serde Deserializer written for the simulation",
                  "foreign peers: JSON, CBOR and TOML writers of the simulation"],
    },
    "C07": {
        "sims": {"checked": (600000, 16000000), "shipped": (800000, 16000000), "bare": (300000, 8000000)},
        "whole": (0, 240),
        "rule": "A run encodes and decodes documents of amounts over simulated transports that fail, end early, "
                "recover and are retried.",
        "real": [FIXNUM, "serde 1, serde_json 1, ciborium 0.2, bincode 1, quick-xml 0.24 (crate cache)"],
        "stubs": ["readers and writers: simulated"],
    },
    "C08": {
        "sims": {"checked": (400000, 10000000), "shipped": (500000, 10000000), "bare": (150000, 3000000)},
        "whole": (25, 240),
        "rule": "A run is a stream or store of bincode or CBOR records under torn, short and failing I/O.",
        "real": [FIXNUM, "serde 1, ciborium 0.2, bincode 1 (crate cache)"],
        "stubs": ["disk, writers and readers: simulated", "record store: written for the simulation"],
    },
    "C09": {
        "sims": {"checked": (700000, 16000000), "shipped": (900000, 24000000)},
        "whole": (0, 240),
        "rule": "A run writes an XML document with amounts and reads it back over a simulated, chunking, cutting "
                "and failing reader.",
        "real": [FIXNUM, "serde 1, quick-xml 0.24 (crate cache)"],
        "stubs": ["readers and disk: simulated", "XML writer of the documents: the simulation's own (quick-xml "
                  "0.24 also, where it can write the shape)"],
    },
    "C10": {
        "miri": True,
        "technique": "deterministic simulation: caller threads interpreted under Miri's seeded scheduler and "
                     "weak-memory emulation, seeded search over workloads, preemptions and stale reads",
        "assumptions": [
            "runs are sampled, not enumerated: a clean batch is evidence, not proof",
            "Miri's interpreter, race detector and weak-memory emulation; x86-64; the nightly toolchain of the sandbox",
            "operations of one run come from a handful of kinds, types and values",
        ],
        "rule": "A run is two or three threads of an interpreted program working through operations on shared and "
                "separate amounts with nothing between them; the interpreter's seed decides the operations, every "
                "preemption between memory accesses and every stale value the memory model lets a load return.",
        "real": [FIXNUM + ", interpreted", "std's threads and atomics, serde 1, serde_json 1, bincode 1, "
                 "parity-scale-codec 3 (interpreted)"],
        "stubs": ["processor, memory and operating system scheduler: Miri's interpreter", "sinks, readers, serializer and "
                  "decoder: written for the simulation"],
    },
    "C11": {
        "sims": {"checked": (3000000, 100000000)}, "nodes": NODES,
        "rule": "A run is a device on which memory is refused at the moments the run decides, working through "
                "operations, decodings and outputs that succeed and fail.",
        "real": [FIXNUM + " (six differently built copies, loaded side by side)",
                 "serde 1 (data model), parity-scale-codec 3 (decoding)"],
        "stubs": ["memory allocator of each build: counts and refuses", "serializer, deserializer, SCALE input and "
                  "sinks that need no memory: written for the simulation"],
    },
    "C12": {
        "sims": {"checked": (150000, 8000000), "shipped": (150000, 8000000), "lite": (50000, 1000000), "bare": (50000, 1000000)},
        "whole": (0, 240),
        "rule": "A run is one to three threads, one at a time, working through operations whose sinks, readers, "
                "serializers, decoders and hashers run further operations, hand over to another thread or tear the "
                "operation down, as the run decides.",
        "real": [FIXNUM, "serde 1, serde_json 1, bincode 1, parity-scale-codec 3 (crate cache)",
                 "operating system threads, released one at a time by the simulated scheduler"],
        "stubs": ["sinks, readers, writers, serializer, decoder, hasher: simulated", "thread scheduler: simulated"],
    },
    "C13": {
        "sims": {"checked": (1600000, 40000000)}, "nodes": NODES, "foreign": True,
        "rule": "A run is a set of peers on different builds that send each other amounts in every wire form over a "
                "network that loses, doubles, cuts and damages them, store what arrives, crash and reopen on another "
                "build.",
        "real": [FIXNUM + " (six differently built copies, loaded side by side)",
                 "serde 1, serde_json 1, bincode 1, parity-scale-codec 3 (crate cache)"],
        "stubs": ["network, clock, disks and processes: simulated"],
    },
    "C14": {
        "sims": {"checked": (1600000, 30000000)}, "nodes": NODES, "foreign": True,
        "rule": "A run is a text file of amounts on a simulated disk that tears and rots; every damaged line is read by "
                "every build, and through JSON documents over simulated readers.",
        "real": [FIXNUM + " (six differently built copies, loaded side by side)", "serde 1, serde_json 1 (crate cache)"],
        "stubs": ["disk and readers: simulated"],
    },
}

COMMON = [
    "runs are sampled, not enumerated: a clean batch is evidence, not proof",
    "the reference model of the simulation (/verif/model) states the decimal arithmetic and text forms correctly",
    "x86-64 Linux, rustc 1.90.0 (and, for C01, C13 and C14, a 32-bit big-endian machine interpreted by Miri); dependency versions of the crate cache",
]
for _p in PROPS.values():
    _p.setdefault("assumptions", COMMON)
