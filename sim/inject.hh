// Force-included before every library and operation source: puts the library's
// random sources behind the simulator. Everything else is untouched.
#pragma once
#include <random>
#include <algorithm>
#include <numeric>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <list>
#include <functional>
#include <iostream>
#include <sstream>
#include <cmath>
#include <cstdlib>
#include <ctime>
#include <chrono>
#include <boost/container_hash/hash.hpp>
#include "sim.hh"

namespace sim {
template <class Real, unsigned Bits>
class engine {
    Real real_; bool sim_; uint32_t id_;
    void init(typename Real::result_type s) { sim_ = token_issued(s, id_); if (!sim_) real_.seed(s); }
public:
    using result_type = typename Real::result_type;
    static constexpr size_t word_size = Real::word_size;
    static constexpr result_type default_seed = Real::default_seed;
    engine() : real_(), sim_(false), id_(0) {}
    explicit engine(result_type s) : real_(), sim_(false), id_(0) { init(s); }
    template <class Sseq, class = std::enable_if_t<!std::is_convertible<Sseq, result_type>::value && !std::is_same<std::remove_cv_t<Sseq>, engine>::value>>
    explicit engine(Sseq& q) : real_(q), sim_(false), id_(0) {}
    void seed() { sim_ = false; real_.seed(); }
    void seed(result_type s) { init(s); }
    static constexpr result_type min() { return Real::min(); }
    static constexpr result_type max() { return Real::max(); }
    result_type operator()() { return sim_ ? (result_type)draw_word(Bits) : real_(); }
    void discard(unsigned long long n) { while (n--) (*this)(); }
    friend bool operator==(const engine& a, const engine& b) { return a.sim_ == b.sim_ && (a.sim_ ? a.id_ == b.id_ : a.real_ == b.real_); }
    friend bool operator!=(const engine& a, const engine& b) { return !(a == b); }
};
class sim_rd {
public:
    using result_type = unsigned int;
    sim_rd() {}
    explicit sim_rd(const std::string&) {}
    sim_rd(const sim_rd&) = delete;
    void operator=(const sim_rd&) = delete;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { return rd_token(); }
    double entropy() const noexcept { return 32; }
};
}
namespace std {
using sim_mt19937 = ::sim::engine<std::mt19937, 32>;
using sim_mt19937_64 = ::sim::engine<std::mt19937_64, 64>;
using sim_random_device = ::sim::sim_rd;
using sim_default_random_engine = ::sim::engine<std::mt19937, 32>;
}
#define mt19937 sim_mt19937
#define mt19937_64 sim_mt19937_64
#define random_device sim_random_device
