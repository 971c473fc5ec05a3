#include "work.h"
bool run_other(const std::string &m) { return false; }
