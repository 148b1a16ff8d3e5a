// Interface between the node process (real HFST code) and the simulator (parent process).
#ifndef SIM_RPC_H
#define SIM_RPC_H
#include <cstddef>
#include <cstdint>
#include <string>
namespace sim {
enum Op : uint8_t {
    HELLO = 1, OPEN, READ, WRITE, SEEK, CLOSE, ISATTY, CLOCK, RAND, UNLINK, STAT,
    SYSTEM, EVENT, NEXTOP, SRAND, RENAME, TEMPNAM, FLUSHED
};
struct Reply { int64_t ret; int32_t err; uint32_t len; };
// returns ret; sets err; copies reply payload into buf (at most cap bytes), its size in *len
int64_t call(Op op, int64_t a, int64_t b, const char *p, size_t n, char *buf, size_t cap, size_t *len, int *err);
void event(const std::string &s);
bool next_op(std::string &s);
}
int client_main();
#endif
