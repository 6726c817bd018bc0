// Results of calls with 2^32 + 29 bytes of associated data (0), ciphertext (1; its tag: 3, 4) and hash input (2),
// computed once by model.c (`sim_x86 golden`), which takes longer than the calls themselves.
static const struct { int alg, what; u64 h; } GOLDEN[] = {
    {0, 0, 0x255486301450d137ull},
    {0, 3, 0xc4e67bc15e766c60ull}, {0, 4, 0x7762bea48d8dce10ull},
    {0, 1, 0xcbb392b409e3e41cull},
    {0, 2, 0x1bc5fd8b4429d77dull},
    {1, 0, 0xff50436647cb721ull},
    {1, 3, 0xa1894e309ffba706ull}, {1, 4, 0x653ecfafb6167b0dull},
    {1, 1, 0x17da43edfa08f6d1ull},
    {2, 0, 0x474b397c65ec215eull},
    {2, 3, 0xc69aff5b8278a4ceull}, {2, 4, 0x491d463dcce35beull},
    {2, 1, 0x27ee41b8675ba8b9ull},
    {3, 0, 0xbb72f360eeef6023ull},
    {3, 3, 0x5c48ae4a14bb1fa7ull}, {3, 4, 0x63ba648673c69e8dull},
    {3, 1, 0xc118d790c6e88ce7ull},
};
