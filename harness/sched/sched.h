// A deterministic scheduler: interposes the pthread calls (and, in files compiled with -fsanitize=thread, every memory
// access), runs one thread at a time, and chooses the next one from a seeded strategy or a given list of choices.
#ifndef TV_SCHED_H
#define TV_SCHED_H
struct SchedConf {
    unsigned long seed;
    int mode;        // 0 random walk, 1 PCT priorities, 2 replay choices then run-to-block
    double psync, pmem, pspur;   // chance to switch at a synchronisation / memory access; chance of spurious wake-ups
    int depth;       // PCT change points
    const int * choices; int nchoices;
    int horizon, limit;   // PCT change points lie among the first `horizon` steps; give up after `limit` steps
};
void sched_start(const SchedConf & c, void (*on_end)(const char * why));
void sched_stop();
int sched_self();
void sched_yield_now();                 // an explicit scheduling point
void sched_settle();                    // let every other thread run until it blocks
void sched_block_until(volatile int * flag);   // block until *flag != 0
void sched_set(volatile int * flag);
int sched_steps();
// what was choosable at each decision: number of alternatives and what was taken (for systematic search)
struct Decision { int n; int taken; int preempt; };
int sched_decisions(const Decision ** d);
#endif
