/* Enumerated random source: srand(k) selects the k-th script of first draws
 * (digits of k over extreme values), followed by a fixed pseudo-random tail. */
#include <stdint.h>
#include <stdlib.h>
static const int EXT[7] = {0, 1, 2, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff};
static unsigned key; static uint64_t state; static int left;
void srand(unsigned k) {
    if (k < 2401) { key = k; left = 4; } else left = 0;
    state = k * 0x9E3779B97F4A7C15ull + 1;
}
int rand(void) {
    if (left) { left--; int v = EXT[key % 7]; key /= 7; return v; }
    state += 0x9E3779B97F4A7C15ull;
    uint64_t z = state;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (int)((z ^ (z >> 31)) >> 33);
}
