/* Long histories: the kinds of operations and the positions follow a fixed pseudo-random script (one per SEED), all data is symbolic. */
#ifndef SEED
#define SEED 1
#endif
#ifndef STEPS
#define STEPS 300
#endif
#ifndef PEAK
#define PEAK 70
#endif
#ifndef NSEEDS
#define NSEEDS 4
#endif
static unsigned lcg_;
static void seed(void) { lcg_ = (SEED * NSEEDS + vp_choose(NSEEDS)) * 2654435761u + 12345; }
static unsigned rnd(unsigned n) { lcg_ = lcg_ * 1664525u + 1013904223u; return n ? (lcg_ >> 8) % n : 0; }
/* growing phases up to PEAK items and shrinking phases down to none alternate */
static int growing_ = 1;
static int grow_step(unsigned n) { if(n >= PEAK) growing_ = 0; if(n == 0) growing_ = 1; unsigned r = rnd(16); return growing_ ? r < 12 : r < 4; }
