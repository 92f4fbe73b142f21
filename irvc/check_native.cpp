// natively, mc::check is the contract file's stand-in, as in the verifier
#include "common/check.h"
extern "C" void vcs_check(bool c);
namespace mc {
void check(bool c, const std::string, const fmt::format_args&, const std::experimental::source_location&) { vcs_check(c); }
void weak_check(bool, const std::string, const fmt::format_args&, const std::experimental::source_location&) {}
}
