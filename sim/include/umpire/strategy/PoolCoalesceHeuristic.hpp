#pragma once
#include <cstddef>
#include <functional>
namespace umpire::strategy {
template <class T>
using PoolCoalesceHeuristic = std::function<std::size_t(const T&)>;
}
