"""What one run is and which runs count as non-trivial, per property (for the evidence files)."""
_N = "A run counts as non-trivial when at least one fault or scheduling decision of the simulator fired in it; distinct: its event-log hash differs from every other's."
RULE = {
    "C01": "One run: a seeded schedule of 2..4 simulated threads making calls on one implementation, preempted between single instructions (some right at accesses to static data). " + _N,
    "C02": "One run: a call interrupted at seeded instructions by nested complete calls on the same stack, up to three deep. " + _N,
    "C03": "One run: a history of calls some of which are abandoned at a seeded instruction, memory compared at the cut, later calls compared with a fresh process. " + _N,
    "C04": "One run: decryption of a forged message with the plaintext buffer read-only or observed at every instruction. " + _N,
    "C05": "One run: 2..5 nodes with different implementations on a lossy, corrupting network with an active adversary and crashing nodes; every delivered triple judged against the set of sent ones. " + _N,
    "C06": "One run: 2..5 nodes on a network with loss, duplication, delay, partition, crash and restart; ciphertexts compared with an independent model, deliveries with what was sent. " + _N,
    "C07": "One run: 2..5 nodes exchanging images with corruption, torn writes and crashes; every digest compared with an independent model. " + _N,
    "C08": "One run: calls whose buffers lie at guard pages, in read-only memory, next to foreign bytes, misaligned, or null. " + _N,
    "C09": "One run: executions of one call with equal lengths and addresses and different secrets, the instruction and address traces compared. " + _N,
    "C10": "One run: a history of calls with reused buffers, stale stack and output contents, each compared with the same call in a fresh process. " + _N,
    "C11": "One run: a call in a failing environment on a painted small stack, or the growth of the step count over lengths. " + _N,
    "C12": "One run: a call whose output buffer is observed at every instruction, or cut by a crash and inspected. " + _N,
    "C13": "One run: a call entered with seeded contents of callee-saved registers, control words and errno, plain or interrupted by nested calls; the same state compared at its return. " + _N,
    "C15": "One run: a call whose stated length (a seeded number of 20 to 47 bits) goes beyond the memory behind the buffer, in two builds: it must run to the end of the memory; or a complete call of more than 2^32 bytes. " + _N,
    "C14": "One run: an encryption or decryption whose input and output are one buffer, completed, cut by a crash, or observed at every instruction. " + _N,
}
_PC = "program counters are those of one binary that holds all implementations, so they tell implementations apart"
STATES = {
    "C01": "distinct (program counter of a preemption, threads, call kind) points and distinct interleavings (hash of the sequence of preemption points and threads); " + _PC,
    "C02": "distinct (interrupted program counter, nesting depth) points and distinct sequences of them; " + _PC,
    "C03": "distinct (program counter at which a call was abandoned, call kind) points; " + _PC,
    "C04": "distinct (implementation, kind of forgery, length) combinations and distinct program counters at which a crash was placed",
    "C05": "distinct (receiver implementation, known or forged, damage, lengths mod 144) deliveries, crash points, and event orders of the network",
    "C06": "distinct (receiver implementation, delivery kind, lengths mod 144) deliveries, crash points, and event orders of the network",
    "C07": "distinct crash points and event orders of the network",
    "C08": "distinct (implementation, placement of all buffers, call, forgery kind, length classes) combinations",
    "C09": "distinct instruction-and-address traces and distinct calls compared with them",
    "C10": "distinct histories (hash over the outputs of the calls so far)",
    "C11": "distinct (implementation, call, stack use) combinations and step counts",
    "C12": "distinct program counters at which a crash was placed and distinct (implementation, call, length, number of output changes) observations",
    "C13": "distinct (implementation, call, verdict, length classes, last interrupted program counter) combinations",
    "C15": "distinct (implementation, call, which length, magnitude and low bits of it) combinations",
    "C14": "distinct program counters at which a crash was placed and distinct (implementation, call, forgery kind, length classes) combinations",
}
