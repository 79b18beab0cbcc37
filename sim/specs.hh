#pragma once
#include "caseimpl.hh"
namespace sim {
namespace BF = Dune::Functions::BasisFactory;
}
#define SIM_SPEC(NAME, RANGE, FACTORY, ...) \
  struct NAME : sim::SpecBase<RANGE> { \
    template<class Env, class St> static auto factory([[maybe_unused]] Env& env, [[maybe_unused]] St& st, [[maybe_unused]] int view) { using namespace sim::BF; return FACTORY; } \
    __VA_ARGS__ \
  };
#define OPT(x) static constexpr auto x;
