#pragma once
namespace umpire::strategy {
class ThreadSafeAllocator {};
}
