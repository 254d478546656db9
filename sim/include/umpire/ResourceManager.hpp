#pragma once
#include <string>
#include <umpire/Allocator.hpp>
namespace umpire {
class ResourceManager {
public:
  static ResourceManager& getInstance() {
    static ResourceManager r;
    return r;
  }
  Allocator getAllocator(const std::string&) {
    return {};
  }
  template <class S, class... Args>
  Allocator makeAllocator(const std::string&, Args&&...) {
    return {};
  }
};
}
