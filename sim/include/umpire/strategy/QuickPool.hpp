#pragma once
#include <cstddef>
namespace umpire::strategy {
class QuickPool {
public:
  std::size_t getActualSize() const {
    return 0;
  }
  std::size_t getReleasableBlocks() const {
    return 0;
  }
  std::size_t getReleasableSize() const {
    return 0;
  }
};
}
