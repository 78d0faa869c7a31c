// Exhaustive bounded exploration driver shared by all harnesses.
//
// A harness enumerates its bounded space deterministically, calling Explorer::run(desc, body)
// once per point (operation sequence, input shape, environment answer, schedule ...).
// Points are numbered in enumeration order; the points are distributed over worker processes.
// A worker that dies (sanitizer report, signal, std::terminate) or hangs is attributed to the
// point it was executing, and exploration resumes behind that point.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

struct Violation : public std::runtime_error
{
    std::string key;
    explicit Violation(const std::string& msg, const std::string& k = "")
        : std::runtime_error(msg), key(k) {}
};

class Explorer
{
public:
    bool thorough() const { return thorough_; }
    /// bound helper: quick or thorough value
    int bound(int quick, int thorough_v) const { return thorough_ ? thorough_v : quick; }

    typedef std::function<std::string()> Desc;
    typedef std::function<void()> Body;

    /// one point of the explored space
    void run(const Desc& desc, const Body& body);
    /// names the part of the space that follows (reported in the evidence)
    void space(const std::string& name);

    void step(uint64_t n = 1);             ///< operations performed on the implementation
    void state(const std::string& canon);  ///< canonical form of an observed state / outcome
    void state(uint64_t hash);

    const std::string& scratch() const { return scratch_; }

    // --- driver internals
    bool thorough_ = false;
    std::string scratch_;
    void* impl_ = nullptr;
};

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

[[noreturn]] void fail(const std::string& msg);
[[noreturn]] void failKnown(const std::string& key, const std::string& msg);

/// defined by each harness
void explore(Explorer& ex);

} // namespace vf

#define VF_FAIL(msg)                                                                                                   \
    do {                                                                                                               \
        std::ostringstream vf_os_;                                                                                     \
        vf_os_.precision(17);                                                                                          \
        vf_os_ << msg;                                                                                                 \
        vf::fail(vf_os_.str());                                                                                        \
    } while (0)
#define VF_CHECK(cond, msg)                                                                                            \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            VF_FAIL(msg);                                                                                              \
    } while (0)

#endif
