#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the text is reviewable).
import json
A="crypto_aead/isapa128av20"
ALLC=["crypto_aead/*/*/crypto_aead.c","crypto_aead/*/*/isap.c"]
def P(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    if isinstance(a.get("observe_at"),str): a["observe_at"]=[a["observe_at"]]
    a.setdefault("hook_needed",None)
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
props=[
P("C01","Concurrent calls from different threads never affect each other",
 "When several threads of one program encrypt, decrypt or hash at the same time with any implementation, each on its own output buffer (inputs may be shared), every call returns exactly the result and writes exactly the bytes it would have if it had run alone. This holds for every interleaving of the instructions of the calls.",
 ["schedules","inputs","configurations"],
 "every interleaving, at instruction granularity, of 2..4 caller threads each running a sequence of encrypt/decrypt(valid or forged)/hash calls on any one implementation",
 "The KAT programs are single-threaded: no test ever has two calls in flight, so shared mutable state in an implementation is invisible to them.",
 ALLC+["crypto_aead_hash/*/*/isap.c"],
 [("API entry points that promise no shared state","crypto_aead/*/*/crypto_aead.c: crypto_aead_encrypt, crypto_aead_decrypt"),
  ("tag comparison of the leakage-resilient variants, which needs values computed by the MAC","crypto_aead/isapa128av20/{opt_32_stp,bi_32_stp,bi_32_armv6m_stp}/isap.c: isap_mac, pvp"),
  ("hash entry point","crypto_aead_hash/isapa128av20/*/isap.c: crypto_hash")],
 state=[{"name":"static or global objects","meaning":"none intended: all working state is automatic; whatever static object a call writes is shared between threads","where":"crypto_aead/*/*/isap.c"}],
 observe_at="return value, *clen/*mlen and output bytes of each call"),
P("C02","A call interrupted at any instant by nested calls is unaffected, and so are they",
 "If a call to the library is interrupted between any two of its instructions and the interrupting code (a signal handler or interrupt service routine, on the same stack) itself makes complete library calls, possibly interrupted in turn, then every one of these calls gives the same result and output as if it had run alone.",
 ["schedules","crash_points","inputs","configurations"],
 "every instant of every call at which an interrupt may arrive, nested up to three deep, with any mix of encrypt/decrypt/hash in the handlers",
 "No test interrupts a call; on the microcontrollers this package targets, an ISR that authenticates a packet while the main loop encrypts one is normal use.",
 ALLC,
 [("working state kept in automatic storage only","crypto_aead/*/*/isap.c: isap_rk, isap_mac, isap_enc, crypto_hash"),
  ("register and stack discipline of hand-written permutations","crypto_aead/*/*/asconp.h, crypto_aead/isapk128*/opt_32_armv*m/*.s")],
 observe_at="return value, length and output bytes of the outer and the nested calls"),
P("C03","A call abandoned at any instant leaves no trace for later calls",
 "If a call is cut short at any instruction (thread cancelled, handler that long-jumps away, watchdog that aborts the job) and never resumes, then later calls in the same process - retries of the same operation, other messages, on the same or other buffers and stack - give exactly the results they would give in a fresh process. Up to the cut the abandoned call has changed nothing outside its own output buffer and output-length variable.",
 ["crash_points","histories","inputs","configurations"],
 "every instruction at which a call may be abandoned, any number of times, followed by any history of further calls",
 "All tests run every call to completion; none observes the state in which a half-finished call leaves the process.",
 ALLC,
 [("absence of begin/end protocols, locks, in-progress flags or lazily initialised tables","crypto_aead/*/*/crypto_aead.c and isap.c")],
 observe_at="results of the calls after the cut; all caller memory at the instant of the cut"),
P("C04","No plaintext is released before the tag has been verified",
 "While a ciphertext that is not authentic for the given key, nonce and associated data is being decrypted, the caller's plaintext buffer is never written, at any instant from the call to its return with -1. So a crash, reset, concurrent reader or DMA engine can never observe unverified plaintext there.",
 ["crash_points","inputs","fault_sequences","configurations"],
 "every instant of every decryption of every corrupted message (bit flips, bursts, truncation, extension, splicing, wrong nonce/AD/key), of every length, for every implementation",
 "The KAT programs only decrypt valid ciphertexts and look at the buffer only after return; a decrypt-then-wipe or decrypt-while-verifying change passes them.",
 ["crypto_aead/*/*/crypto_aead.c"],
 [("verify, then decrypt","crypto_aead/*/*/crypto_aead.c: crypto_aead_decrypt (tag comparison guards the call of isap_enc)")],
 observe_at="the plaintext buffer m at every store of the call, and after it"),
P("C05","Every message altered, spliced, replayed or cut in transit is rejected",
 "Decryption accepts a delivered (nonce, associated data, ciphertext) under a key only if exactly that triple was produced by an encryption under that key; whatever the network or storage did to it - any flipped bit anywhere, truncation to any length including below the tag size, extension by any number of bytes, moving bytes between associated data and ciphertext, mixing parts of different messages, another nonce or key - decryption returns -1 without crashing. This holds for messages and associated data of every length.",
 ["fault_sequences","inputs","histories","configurations"],
 "every sequence of corruption, truncation, extension, duplication, reordering and splicing faults on the messages of a link, for every receiver implementation",
 "The KAT programs decrypt nothing but what they have just encrypted, unaltered: no test contains a single forged, truncated or spliced message, and none is longer than 32 bytes.",
 ["crypto_aead/*/*/crypto_aead.c","crypto_aead/*/*/isap.c"],
 [("comparison of all 16 tag bytes","crypto_aead/*/*/crypto_aead.c: crypto_aead_decrypt; */*_stp/isap.c: pvp"),
  ("MAC over nonce, padded AD, domain separation, padded ciphertext","crypto_aead/*/*/isap.c: isap_mac"),
  ("message-length handling","crypto_aead/*/*/crypto_aead.c: *mlen = clen - tag size")],
 observe_at="return value of crypto_aead_decrypt for each delivered message"),
P("C06","Authentic messages are accepted and decrypt exactly, across implementations",
 "Any message of any length encrypted by any implementation of an ISAP instance and delivered intact - after any delays, losses and retransmissions, duplicates, reordering, crashes and restarts of the nodes - is accepted by every implementation of the same instance and yields exactly the plaintext sent, with the ciphertext always 16 bytes longer. All implementations of an instance produce the same ciphertext, the one the ISAP v2.0 specification defines, so that nodes and firmware versions with different implementations interoperate.",
 ["histories","inputs","fault_sequences","configurations"],
 "every heterogeneous set of nodes, every history of sends, losses, retransmissions, crashes and restarts, every message and AD length",
 "KATs fix one key, one nonce and lengths up to 32 bytes, each implementation by itself: no test has one implementation read what another wrote, and nothing longer than four blocks is ever processed.",
 ALLC+["crypto_aead/isapxv20/ref"],
 [("encryption / decryption","crypto_aead/*/*/crypto_aead.c"),
  ("rekeying, MAC and stream","crypto_aead/*/*/isap.c: isap_rk, isap_mac, isap_enc"),
  ("permutations","crypto_aead/*/*/asconp.h, Ascon-reference.c, KeccakP-400-*")],
 observe_at="ciphertext bytes, lengths, return values and plaintext bytes at each node"),
P("C07","Digests agree between all nodes and with Ascon-Hash, whatever happened",
 "For an image of any length, every implementation that offers crypto_hash computes the same 32-byte digest, the one Ascon-Hash (v1.2) defines, no matter on which node, after which crashes or earlier calls. A stored or transferred image that was corrupted, torn or truncated on the way therefore never matches the digest recorded for the original.",
 ["histories","inputs","fault_sequences","configurations"],
 "every set of nodes with different implementations, every history of image transfers with storage and transfer faults, every image length",
 "The hash KAT has one message pattern per length up to 1024 bytes, on one implementation at a time, in a fresh process.",
 ["crypto_aead_hash/isapa128av20/*/isap.c"],
 [("hash function","crypto_aead_hash/isapa128av20/*/isap.c: crypto_hash, ABSORB_LANES")],
 observe_at="the 32 output bytes of crypto_hash"),
P("C08","Only the caller's output is written and only the declared inputs are read",
 "During any call, at every instant, key, nonce, associated data and message inputs are unmodified; nothing outside the output bytes of that call (clen = mlen + 16 bytes, or mlen = clen - 16 bytes, or 32 digest bytes, and the length variable) is written in caller memory; and no byte outside the declared input and output ranges is accessed, wherever the buffers lie: at the edges of mapped memory, in read-only memory, adjacent to each other or at any alignment. Zero-length inputs may be null pointers.",
 ["inputs","configurations","crash_points"],
 "every placement of every buffer (tight against unmapped or read-only memory on either side, adjacent to foreign live data, every alignment), every length, valid and rejected messages",
 "The KAT programs use large aligned stack arrays, in which over-reads and over-writes of a few bytes and transient modification of an input are silent.",
 ALLC,
 [("word-wise loads and stores of message and AD","crypto_aead/*/*/isap.c: ABSORB_LANES / ABSORB_MAC / isap_enc tails"),
  ("output length contract","crypto_aead/*/*/crypto_aead.c")],
 observe_at="memory faults and foreign bytes around every buffer during and after the call"),
P("C09","Response time reveals nothing but lengths and the verdict",
 "On a simulated clock that ticks with every executed instruction and memory access, the time and the sequence of code and data addresses of an encryption, a hash, a successful decryption or a rejected decryption depend only on the lengths and buffer addresses involved. They do not depend on key, nonce, message or associated-data bytes, nor, for a rejected message, on which or how many tag bytes are wrong.",
 ["inputs","fault_sequences","configurations"],
 "every pair of calls with equal lengths and addresses and different secret data, every set of wrong tag bits",
 "Tests compare output files and never look at time or at the path taken; an early-exit comparison or a table lookup indexed by secret data passes every KAT.",
 ALLC,
 [("counting comparison of all tag bytes","crypto_aead/*/*/crypto_aead.c: eq_cnt loop"),
  ("bit-sliced permutations without tables or branches on state","crypto_aead/*/*/asconp.h, KeccakP-400-*")],
 observe_at="instruction and data address trace of the shipped code, hashed per call"),
P("C10","A result depends only on the arguments, not on history or stale memory",
 "The result and output bytes of a call are a function of its arguments' values alone: they are the same whatever calls came before (including failed and rejected ones, with other keys or lengths, or in another order), whatever the stack, the output buffer and the length variable held before, and when buffers at the same addresses are reused with other contents.",
 ["histories","inputs","configurations"],
 "every history of calls on one or several implementations with reuse of buffers, addresses and stack, and every stale memory content",
 "Each KAT run is one fixed history with one key and one nonce at fixed addresses; a value cached under an address or a stale accumulator is always right there.",
 ALLC,
 [("no caching across calls, full initialisation of state","crypto_aead/*/*/isap.c: isap_rk, isap_mac, isap_enc, crypto_hash")],
 observe_at="return value, lengths and output bytes of each call of a history"),
P("C11","Calls need no operating-system resources and finish in bounded stack and steps",
 "Every call completes correctly when all memory allocation fails and no file, clock, environment or random source is available, uses an amount of stack that does not grow with the message (it fits 16 KiB), and terminates within a number of steps linear in the input length. No failure of the environment can make a call fail, hang, abort or print.",
 ["fault_sequences","inputs","configurations"],
 "every combination of failing allocations and system services, every message and AD length, every stack of 16 KiB or more",
 "Tests run with a working allocator, an 8 MiB stack, and messages of at most 32 bytes.",
 ALLC,
 [("freestanding C with automatic storage of fixed size","crypto_aead/*/*/isap.c, crypto_aead.c")],
 observe_at="calls leaving the library, stack high-water mark, step count, result under injected failures"),
P("C12","Output bytes change once: from untouched to final",
 "At every instant of an encryption each byte of the caller's ciphertext buffer holds either what it held before the call or its final ciphertext or tag value, and likewise for the plaintext buffer of a decryption (its bytes become final plaintext). So a crash, a concurrent reader or a DMA transfer of a half-written buffer never exposes keystream, plaintext in place of ciphertext, or other intermediate values.",
 ["crash_points","inputs","configurations"],
 "every instant of every encryption and decryption, every length, every implementation",
 "Tests look at the buffer only after the call has returned.",
 ALLC,
 [("output bytes are computed in registers or automatic storage and stored once","crypto_aead/*/*/isap.c: isap_enc; crypto_aead.c: tag written to c + mlen")],
 observe_at="output buffer contents between any two instructions"),
P("C13","A call leaves its caller's execution state as it found it",
 "A call may find any contents in the registers and modes its caller owns (callee-saved registers, rounding, exception and flush modes of the floating-point units, errno, the stack frame around the call) and leaves every one of them as it was, with the direction flag clear and no process-wide state (signal handlers and masks, locale, environment, scheduling) altered - whether or not it is interrupted by other calls, whatever the lengths and whether the message is accepted or rejected. Nor does its result depend on any of these.",
 ["inputs","schedules","configurations"],
 "every content of the reserved registers and control words at entry, every length and verdict, every implementation including hand-written assembly, plain or interrupted at any instruction",
 "The KAT programs keep nothing of value in callee-saved registers or in floating-point modes across a call; hand-written assembly, inline assembly and vector code that spoils them passes every KAT, and the ARM code is not run at all.",
 ALLC,
 [("hand-written permutations that save and restore registers","crypto_aead/isapk128*/opt_32_armv*m/*.s"),
  ("clobber lists of inline assembly","crypto_aead/isapa128*/*armv*/*.h"),
  ("vector code","crypto_aead/*/avx*/*")],
 observe_at="callee-saved registers, control words, flags, stack frame and errno after the call; calls leaving the library"),
P("C14","Encryption and decryption in place are as good as with separate buffers",
 "A caller short of memory may pass the same address for input and output: encrypting a message in place or decrypting a ciphertext in place gives exactly the bytes, length and verdict that separate buffers give, for every length. A message that is rejected is left intact where it lies, so that it can be examined or delivered again. At every instant of the call each byte of the buffer holds either what it held before or its final value, and nothing behind the output is written.",
 ["inputs","crash_points","configurations"],
 "every message and AD length, every placement of the shared buffer, every instant at which the call may be cut off or observed, authentic and forged messages, every implementation",
 "All tests use separate buffers; a change of the order of reads and writes, a restrict qualifier or a copy of the wrong kind is silent there.",
 ["crypto_aead/*/*/crypto_aead.c","crypto_aead/*/*/isap.c"],
 [("each block is read before its ciphertext is written","crypto_aead/*/*/isap.c: isap_enc"),
  ("the MAC is computed over the ciphertext before decryption overwrites it, after encryption has produced it","crypto_aead/*/*/crypto_aead.c")],
 observe_at="the shared buffer, return value and length"),
P("C15","Lengths are honoured in full, beyond 32 bits as well",
 "The interface takes 64-bit lengths, and every byte counts: for any stated length of associated data, message, ciphertext or hash input - also where it, its number of bits or an index into it exceeds 16, 31 or 32 bits - a call does not return before it has processed all of it, touches nothing outside the stated buffers, and with 4 GiB and more still gives the result ISAP v2.0 and Ascon-Hash define. So no call reports success for, or authenticates, only the low bits' worth of its input.",
 ["inputs","fault_sequences","configurations"],
 "every length up to 2^46 bytes (2^31 on 32-bit machines) of every input, every implementation",
 "Tests have lengths of at most 32 bytes; a length or index narrowed to 32 bits or counted in bits shows only with inputs no test allocates.",
 ALLC,
 [("64-bit lengths and indices in the absorb and squeeze loops","crypto_aead/*/*/isap.c: isap_mac, isap_enc; crypto_hash"),
  ("lengths passed on without narrowing","crypto_aead/*/*/crypto_aead.c")],
 observe_at="whether and where a call on memory that ends early returns or faults; results of complete calls of 2^32 + 29 bytes"),
]
with open('properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,s)
print(len(props))
