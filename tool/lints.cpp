#include "rules.h"
#include <set>
#include <string>
// Structural rules: decided on the intermediate representation without the path-sensitive engine.
void runTypestate();
void runConcur();
void runCalls();
void runSerde();
void runElem();
void runSplit();
void runCombine();
void runLints(const std::set<std::string> &which) {
    auto want = [&](const char *n) { return which.empty() || which.count(n); };
    if (want("typestate")) runTypestate();
    if (want("concur")) runConcur();
    if (want("calls")) runCalls();
    if (want("serde")) runSerde();
    if (want("elem")) runElem();
    if (want("split")) runSplit();
    if (want("combine")) runCombine();
}
