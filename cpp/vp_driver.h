#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <stdexcept>
#include <vector>
static DepA vp_depA[4] = {{0}, {1}, {2}, {3}};
static DepB vp_depB[4] = {{0}, {1}, {2}, {3}};
// user exceptions of both kinds: derived from a standard exception, and not
struct VpThrow : std::runtime_error { int id; VpThrow(int i) : std::runtime_error("vp"), id(i) {} };
struct VpPlain { int id; };
