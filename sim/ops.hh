// A table of library calls with generated arguments, used by the out-of-memory and the thread scenarios.
#pragma once
#include "gens.hh"
#include "sim.hh"
#include <memory>
namespace ops {
typedef std::vector<std::string> SV;
struct Call {                       // one prepared call: arguments built, result kept until clear()
    virtual ~Call() {}
    virtual void run() = 0;         // inside the library scope; arguments are passed by const reference
    virtual std::string result() = 0;
    virtual std::string args() = 0;
    virtual void clear() = 0;       // drop the result
};
struct Op {
    const char* name; int weight; bool rnd;                    // rnd: draws random numbers
    SV (*gen)(sim::Rng&);
    std::unique_ptr<Call> (*make)(const SV&);
};
struct Reg { Reg(const Op& o); };
std::vector<Op>& table();
const Op* find(const std::string& n);
std::string sep(const SV& v, char c);
}
