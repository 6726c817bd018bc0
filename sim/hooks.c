// The part of the seam that runs between two instructions of the library.
// Built without vector registers: it is entered with all of them live.
#include "sim.h"
long sim_cnt;
unsigned char sim_watch;
uptr sim_rw_lo, sim_rw_hi;
int sim_mode;
u64 trace_hash, static_hits, sim_total;
u64 trace_budget;
u64 last_pc;
const u8 *mon_out, *mon_old, *mon_new;
u64 mon_len, mon_bad, mon_badpos, mon_checks, mon_writes;
void sim_slow(uptr pc, uptr addr, int why);

// mon_out is compared with its image at the previous instruction first
u8 mon_img[MON_MAX + 8];
static void mon_check(uptr pc)
{
    u64 i = 0;
    for (; i + 8 <= mon_len; i += 8) {
        u64 a, b;
        __builtin_memcpy(&a, mon_out + i, 8);
        __builtin_memcpy(&b, mon_img + i, 8);
        if (a != b) break;
    }
    for (; i < mon_len; i++) {
        u8 x = mon_out[i];
        if (x == mon_img[i]) continue;
        mon_img[i] = x;
        mon_writes++;
        if (x != mon_new[i] && x != mon_old[i] && !mon_bad) { mon_bad = sim_total; mon_badpos = i; last_pc = pc; }
    }
}
#if defined(__x86_64__)
__attribute__((no_caller_saved_registers))
#endif
void sim_hook_c(uptr pc, uptr addr)
{
    switch (sim_mode) {
    case SM_TRACE:
        sim_cnt = 0;
        sim_total++;
        trace_hash = (trace_hash ^ pc) * 0x9E3779B97F4A7C15ull;
        if (addr) {
            trace_hash = (trace_hash ^ addr) * 0xC2B2AE3D27D4EB4Full;
            trace_hash ^= trace_hash >> 29;
        }
        if (sim_total > trace_budget) { last_pc = pc; sim_slow(pc, addr, 3); }
        return;
    case SM_COUNT:
        if (sim_cnt <= 0) break;
        static_hits++;
        return;
    case SM_MON: {
        sim_total++;
        sim_cnt = 0;
        mon_checks++;
        mon_check(pc);
        if (sim_total > trace_budget) sim_slow(pc, addr, 3);
        return;
    }
    default:
        break;
    }
    last_pc = pc;
    sim_slow(pc, addr, sim_cnt <= 0 ? 1 : 2);
}
