"""Per-property configuration of check.py."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED_COMMON = [
    "Kani 0.68 translation of MIR to GOTO and CBMC 6 with CaDiCaL",
    "wide: compiled on its portable lane-wise path instead of SSE/AVX intrinsics (source edited mechanically each run)",
    "generic-array: storage written as [T; N] instead of nested structs of the same layout (source edited mechanically each run)",
    "hashbrown and thingbuf replaced by sequential stand-ins (assumed contracts: finite map, bounded FIFO)",
]
ASSUME_COMMON = [
    "single-threaded execution",
    "termination is not proved by Kani (loops are unrolled with unwinding assertions)",
    "IEEE-754 arithmetic of CBMC with round-to-nearest; fundsp built with default-features = false under the verifier",
]
NETA = ["node IDs made by NodeId::new are different from all IDs in use (contract of IdGenerator)",
    "hash maps, vectors' swap / resize / clone / reverse meet their documented contracts",
    "numbers of vertices, ports and connections stay below usize::MAX",
    "boxed units keep their arity"]
PROPS = {
    "C01": dict(feature="c01", kani=["c01_"], level="proof"),
    "C02": dict(feature="c02", kani=["c02_"], level="proof",
        assumptions=["arithmetic operators on two successive samples: component outputs range over the integers -128..127; all other operators and the one-sample forms over all 32-bit patterns"]),
    "C03": dict(feature="c03", kani=["c03_"], kani_thorough=["x03_"], level="proof", assumptions=[
        "components meet the block contract at one witness sample and are arbitrary elsewhere",
        "operators with vector loops: all block sizes n > 13 at sample 13, plus (n, t) = (64, 63), (9, 8); pure routing operators: all n <= 64 and all t < n"],
        bounded=["n03_"], bounded_ms=4000, bounded_why="leaf nodes (filters, oscillators, delays, envelopes, effects) use loops and transcendental functions beyond the verifier"),
    "C04": dict(feature="c04", kani=["c04_"], level="proof", assumptions=[
        "hash propagation is checked for one seed value (hashing is a function of the running hash)"]),
    "C05": dict(feature="c05", kani=["c05_"], level="proof"),
    "C06": dict(level="proof", verus=["net_edit"], verus_native=["n06_"], bounded=["n06_"], bounded_ms=5000,
        bounded_why="crossfade, fade_in and the sound of an edited network (floating-point signals through boxed units) are beyond the extraction", assumptions=NETA),
    "C07": dict(level="proof", verus=["net_order", "net_compose"], verus_native=["n07_", "n06_"], bounded=["n07_"], bounded_ms=8000,
        bounded_why="Net::tick / process and the sound of a composed network (floating-point signals through boxed units) are beyond the extraction", assumptions=NETA),
    "C08": dict(level="proof", verus=["net_commit"], verus_native=["n08_"], bounded=["n08_"], bounded_ms=8000,
        bounded_why="fade curves in Vertex::tick / process and the sound of the backend (floating-point signals through boxed units) are beyond the extraction",
        assumptions=NETA + ["message queues are sequential FIFOs that do not overflow", "a setting sent through the network changes only the state of units", "equal sample rates are bitwise equal"]),
    "C11": dict(level="proof", verus=["seq"], verus_native=["n11_"], bounded=["n11_"], bounded_ms=8000,
        bounded_why="sample positions, fades and mixing (floating-point signals) and the backend's queue handling are beyond the extraction",
        assumptions=["times are numbers (no NaN); times and rates are opaque, only their order matters", "event IDs are different from all IDs in use (contract of IdGenerator)", "the heap of events pops the earliest start time first; hash maps and vectors meet their documented contracts"]),
    "C12": dict(level="proof", verus=["slot"], verus_native=["n12_"], bounded=["n12_"], bounded_ms=6000,
        bounded_why="fade curves in SlotBackend::tick / process (floating-point signals) are beyond the extraction",
        assumptions=["message queues are sequential FIFOs that do not overflow", "equal sample rates are bitwise equal"]),
    "C13": dict(level="proof", verus=["delay"], verus_native=["n13_"], bounded=["n13_"], bounded_ms=6000,
        bounded_why="interpolation in Tap / TapLinear, the level follower of the limiter (floating-point arithmetic, vector code) and tick are beyond the extraction",
        assumptions=["sample magnitudes are numbers (no NaN), totally ordered; max picks the larger", "ReduceBuffer is verified at its only use, f32 under Maximum", "delay and look-ahead lengths in samples stay below 2^48"]),
    "C15": dict(feature="c15", kani=["c15_"], level="proof", bounded=["n15_"], bounded_ms=3000,
        bounded_why="measured impulse responses and latencies of leaf nodes", assumptions=[
        "values, responses and latencies range over 8-bit integers where arithmetic is involved; pure routing over all 64-bit patterns"]),
    "C17": dict(level="proof", verus=["wave"], verus_native=["n17_"], bounded=["n17_"], bounded_ms=8000,
        bounded_why="rendering and filtering through boxed units, file formats, normalisation and fades (floating-point signals, iterators, I/O) are beyond the extraction",
        assumptions=["vectors meet their documented contracts (push, insert, remove, resize, drain, extend)", "samples and their products are opaque"]),
    "C21": dict(level="proof", verus=["reset"], verus_native=["n21_"], bounded=["n21_"], bounded_ms=6000,
        bounded_why="that ticks change nothing else that matters, constructors, clones and the nodes not listed (floating-point arithmetic, closures, boxed units) are beyond the extraction",
        assumptions=["numbers, coefficients, modes, tables and shapers are opaque; a shaper's reset does what its contract says", "derived Clone copies every field", "code of the library is deterministic (no global state)"]),
}
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []
