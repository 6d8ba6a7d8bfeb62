#pragma once
#include "simfil/simfil.h"
#include "simfil/function.h"
#include "simfil/model/json.h"
#include "simfil/model/nodes.h"
#include "simfil/model/model.h"
#include "simfil/model/arena.h"
#include "simfil/model/string-pool.h"
#include <atomic>
#include <barrier>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <iostream>
#include <mutex>
#include <new>
#include <set>
#include <sstream>
#include <streambuf>
#include <thread>
using namespace simfil;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("%s:%d: does not hold: %s\n", __FILE__, __LINE__, #__VA_ARGS__); std::fflush(stdout); std::_Exit(1); } } while (0)
inline std::vector<std::string> strs(std::vector<Value> const& v) { std::vector<std::string> r; for (auto& x : v) r.push_back(x.toString()); return r; }
inline std::string join(std::vector<std::string> const& v) { std::string r; for (auto& x : v) r += x + "|"; return r; }
inline std::vector<std::string> query(Environment& env, std::string_view q, ModelNode const& n) { auto e = compile(env, q, false); return strs(eval(env, *e, n)); }
