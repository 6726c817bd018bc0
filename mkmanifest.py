import json
NOTE = {
"C01": "Seeded search over interleavings at instruction granularity (sequentially consistent) of 2..4 threads in the shipped and in an unoptimised build of every x86 implementation, and of the ARM ones under qemu; not all interleavings, no weak-memory effects.",
"C02": "Seeded search over interrupt instants (each instruction is one) and nested calls on one stack; ISR prologues of real hardware are not modelled.",
"C03": "Seeded search over the instruction at which a call is abandoned and over the histories that follow; memory compared byte for byte at the cut.",
"C04": "The output buffer is read-only memory or observed at every instruction of a rejected decryption; forgeries and lengths are sampled.",
"C05": "Oracle is the set of triples actually sent; forgeries are sampled with a bias to tag bytes, lengths and splices. Chance acceptance of a forgery has probability 2^-128.",
"C06": "Ciphertexts compared with an independent implementation of the ISAP v2.0 specification written for this check; messages, lengths and histories sampled.",
"C07": "Digests compared with an independent implementation of Ascon-Hash v1.2; lengths and histories sampled.",
"C08": "Page-granular guards, read-only views, canaries and per-instruction observation; accesses a few bytes outside a buffer are seen on the side that lies at the guard page, both sides being sampled.",
"C09": "Compares complete instruction and address traces of the compiled code; a divergence is a proof of dependence, equality on sampled secrets is evidence. Variable-latency instructions and caches are not modelled beyond addresses; the compiler and flags are those of this sandbox.",
"C10": "Histories, stale memory and address reuse are sampled; each call compared with the same call from process start.",
"C11": "Every service outside the library fails; stack measured by painting; steps counted exactly in the hooked build. Stack and step figures are those of the compiled code here.",
"C12": "The output buffer is observed at every instruction; lengths and implementations sampled.",
"C13": "Random contents of callee-saved registers and control modes at entry, compared at exit; plain and interrupted calls. Vector registers are caller-saved in both ABIs except d8-d15 on hard-float ARM, which the soft-float ABI used here does not have.",
"C14": "Input and output at the same address only (no partial overlap); the buffer compared at the end, at sampled crash points or after every instruction.",
"C15": "That a call does not return early is decided with memory that ends: lengths sampled from 20..47 bits (20..30 on ARM). Complete calls above 4 GiB (minutes each) are made for changed x86 implementations and, in the thorough tier, for all that finish in its time; the golden results come from the model. Nothing above 2^32 + 29 bytes is processed in full.",
}
checks = [{"property": p, "quick_cmd": f"python3 check.py run {p} --tier quick", "thorough_cmd": f"python3 check.py run {p} --tier thorough",
           "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection (seeded schedules, faults and histories over the real code)",
           "level": "exploration", "level_note": n} for p, n in NOTE.items()]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: seams are put in front of each instruction of the compiler's assembly output by /verif/sim/build.py", "source_commits": []},
     "checks": checks, "not_applicable": [], "notes": "One driver, check.py; the simulator is in sim/. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
