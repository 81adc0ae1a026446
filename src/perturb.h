#ifndef K52_VERIF_PERTURB_H
#define K52_VERIF_PERTURB_H
#include <atomic>
namespace hv
{
extern std::atomic<int> perturb_level;             // 0 off .. 3 strong
extern std::atomic<unsigned long> perturb_seed, perturb_events, perturb_spurious, perturb_broadcasts;
extern std::atomic<long> threads_until_shortage;   // starts that succeed before they fail, negative: never
extern std::atomic<unsigned long> threads_refused;
extern std::atomic<unsigned> hardware_threads;     // 0: the real number
void perturb_point();
}
#endif
