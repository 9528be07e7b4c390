#ifndef V_REPORT_HPP
#define V_REPORT_HPP
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
// Collects what the monitors saw; written as JSON for the driver.
struct Report {
    std::string prop, config;
    std::map<std::string, std::uint64_t> count;
    std::map<std::string, long double> maxv;
    std::set<std::uint64_t> distinct;
    std::vector<std::string> samples, violations;
    long case_id = -1;
    std::uint64_t evals = 0;
    void add(const std::string& k, std::uint64_t n = 1) { count[k] += n; }
    void maxi(const std::string& k, long double v) { auto it = maxv.find(k); if (it == maxv.end() || v > it->second) maxv[k] = v; }
    void violation(const std::string& what);
    void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
    // out of line: containers of this class are only changed by report.cpp, which has no container annotations
    void forget();
    bool full() const { return violations.size() >= 6; }
    int finish(const char* path) const;  // returns 0 or 1
};
// One case may use this much processor time; a case that uses more (typical
// ones take milliseconds) does not terminate: reported, and the process ends.
void watch_case(const char* out, long case_id, int cpu_seconds);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string jstr(const std::string&);
#endif
