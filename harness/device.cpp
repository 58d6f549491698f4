// A stand-in hardware random device.  Preloaded into the interpreter that runs the real code, it
// replaces the two std::random_device entry points of libstdc++ so that the 'DEVICE' random number
// generator of the code under test yields a scripted sequence of 32-bit values.  No code of the
// repository is replaced.
#include <random>
#include <vector>
static std::vector<unsigned> script;
static size_t pos = 0;
extern "C" void kmcv_push(unsigned n) { script.push_back(n); }
extern "C" unsigned kmcv_used() { return (unsigned)pos; }
extern "C" void kmcv_reset() { script.clear(); pos = 0; }
unsigned int std::random_device::_M_getval()
{
    const unsigned v = pos < script.size() ? script[pos] : 0x80000000u;
    ++pos;
    return v;
}
double std::random_device::_M_getentropy() const noexcept { return 32.0; }
