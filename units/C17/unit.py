INFO = dict(level='proof', assumptions=['BloomFilter::hashers() yields, on every call, the same list of fresh hashers, and each hasher is a deterministic function of the bytes written (its dyn Hasher bodies live in fnv/siphasher/twox-hash and are outside the verifier; the replay runs the real ones)'],
  trusted=['stub contract on Self::hashers(), Hasher::write, Hasher::finish (determinism only)'])
def plan(c):
    c.verus('proof.rs', min_verified=8)
    c.replay('replay.rs', crate='base')
