#include "model.hh"
namespace sim {
bool api_profile(const string &) { return false; }
void run_api(const string &) {}
void finish_api(const string &) {}
}
