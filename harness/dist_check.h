// Everything a distribution says along one axis, against the definition of a block cyclic distribution.
#pragma once
#include "common.h"

#include <dlaf/matrix/distribution_extensions.h>

namespace hz {
// Element i of the distribution is element origin + i of a block cyclic distribution whose first block belongs
// to rank src.
template <dlaf::Coord rc>
void check_axis(const Dist& d, SizeType origin, SizeType block, SizeType tile, int grid, int src, int me, const char* kind) {
  namespace de = dlaf::matrix::internal::distribution;
  const SizeType size = d.size().get<rc>();
  auto bad = [&](const char* what, SizeType i) {
    sim::violation(kind, std::string(what) + " is wrong at " + std::to_string(i));
  };
  auto eq = [&](SizeType got, SizeType want, const char* what, SizeType i) {
    if (got != want)
      sim::violation(kind, std::string(what) + " is wrong at " + std::to_string(i) + ": " + std::to_string(got) + " instead of " + std::to_string(want));
  };
  // by definition
  auto owner = [&](SizeType i) { return static_cast<int>(((origin + i) / block + src) % grid); };
  auto starts = [&](SizeType i) { return i == 0 || (origin + i) % tile == 0; };
  std::vector<SizeType> lt(static_cast<std::size_t>(grid), -1), le(static_cast<std::size_t>(grid), 0);
  std::vector<SizeType> first;         // first element of each tile
  std::vector<SizeType> local_before;  // local elements of this rank before each tile
  std::vector<SizeType> my_first;      // first local element of each local tile
  SizeType t = -1, e = 0;
  for (SizeType i = 0; i < size; ++i) {
    const int o = owner(i);
    const auto oo = static_cast<std::size_t>(o), mm = static_cast<std::size_t>(me);
    if (starts(i)) {
      ++t;
      e = 0;
      first.push_back(i);
      local_before.push_back(le[mm]);
      eq(d.next_local_tile_from_global_tile<rc>(t), lt[mm] + 1, "next local tile", i);
      ++lt[oo];
      if (o == me)
        my_first.push_back(le[mm]);
      SizeType sz = 1;
      while (i + sz < size && !starts(i + sz))
        ++sz;
      eq(d.global_tile_size_of<rc>(t), sz, "size of a tile", i);
      if (o == me)
        eq(d.local_tile_size_of<rc>(lt[oo]), sz, "size of a local tile", i);
      eq(de::local_tile_from_global_tile_any_rank<rc>(d, t), lt[oo], "local tile on its owner", i);
      eq(de::global_tile_from_local_tile_on_rank<rc>(d, o, lt[oo]), t, "tile of another rank", i);
    }
    eq(d.global_tile_from_global_element<rc>(i), t, "tile", i);
    eq(d.tile_element_from_global_element<rc>(i), e, "position in the tile", i);
    eq(d.global_element_from_global_tile_and_tile_element<rc>(t, e), i, "global element", i);
    eq(d.rank_global_element<rc>(i), o, "owner of an element", i);
    eq(d.rank_global_tile<rc>(t), o, "owner of a tile", i);
    eq(de::distance_to_adjacent_tile<rc>(d, i), d.global_tile_size_of<rc>(t) - e, "distance to the next tile", i);
    eq(de::local_tile_from_local_element_on_rank<rc>(d, o, le[oo]), lt[oo], "local tile of another rank", i);
    eq(de::tile_element_from_local_element_on_rank<rc>(d, o, le[oo]), e, "position in a tile of another rank", i);
    eq(de::global_element_from_local_element_on_rank<rc>(d, o, le[oo]), i, "element of another rank", i);
    // next local tile at or after the one with this element
    const SizeType next = o == me ? lt[mm] : lt[mm] + 1;
    eq(d.next_local_tile_from_global_element<rc>(i), next, "next local tile of an element", i);
    if (o == me) {
      const SizeType l = lt[mm], k = le[mm];
      eq(d.local_tile_from_global_tile<rc>(t), l, "local tile", i);
      eq(d.local_tile_from_global_element<rc>(i), l, "local tile of an element", i);
      eq(d.global_tile_from_local_tile<rc>(l), t, "global tile of a local tile", i);
      eq(d.global_element_from_local_tile_and_tile_element<rc>(l, e), i, "global element of a local tile", i);
      eq(d.local_tile_from_local_element<rc>(k), l, "local tile of a local element", i);
      eq(d.tile_element_from_local_element<rc>(k), e, "position in the tile of a local element", i);
      eq(d.global_element_from_local_element<rc>(k), i, "global element of a local element", i);
      eq(d.local_element_from_global_element<rc>(i), k, "local element", i);
      eq(d.local_element_from_local_tile_and_tile_element<rc>(l, e), k, "local element of a local tile", i);
    }
    else if (d.local_tile_from_global_tile<rc>(t) != -1 || d.local_tile_from_global_element<rc>(i) != -1 ||
             d.local_element_from_global_element<rc>(i) != -1)
      bad("local index on a rank without the element", i);
    ++le[oo];
    ++e;
  }
  const auto mm = static_cast<std::size_t>(me);
  eq(d.nr_tiles().get<rc>(), t + 1, "number of tiles", size);
  eq(d.local_nr_tiles().get<rc>(), lt[mm] + 1, "local number of tiles", size);
  eq(d.local_size().get<rc>(), le[mm], "local size", size);
  eq(d.next_local_tile_from_global_tile<rc>(t + 1), lt[mm] + 1, "local tile after the end", size);
  const SizeType b0 = origin / block, b1 = size > 0 ? (origin + size - 1) / block + 1 : b0;
  eq(d.nr_blocks().get<rc>(), b1 - b0, "number of blocks", size);
  SizeType mine = 0;
  for (SizeType b = b0; b < b1; ++b)
    mine += (b + src) % grid == me;
  eq(d.local_nr_blocks().get<rc>(), mine, "local number of blocks", size);
  // distances between tiles
  first.push_back(size);
  local_before.push_back(le[mm]);
  my_first.push_back(le[mm]);
  for (SizeType a = 0; a < t + 1; ++a)
    for (SizeType b = a; b <= t + 1; b += 1 + (b - a) / 2) {
      const auto ua = static_cast<std::size_t>(a), ub = static_cast<std::size_t>(b);
      eq(de::global_tile_element_distance<rc>(d, a, b), first[ub] - first[ua], "distance between tiles", a);
      eq(de::local_element_distance_from_global_tile<rc>(d, a, b), local_before[ub] - local_before[ua], "local distance between tiles", a);
    }
  for (SizeType a = 0; a <= lt[mm]; ++a)
    for (SizeType b = a; b <= lt[mm] + 1; b += 1 + (b - a) / 2)
      eq(de::local_element_distance_from_local_tile<rc>(d, a, b), my_first[static_cast<std::size_t>(b)] - my_first[static_cast<std::size_t>(a)], "distance between local tiles", a);
}

// The same for distributions which are too large to go through: at some of the elements, in closed form.
template <dlaf::Coord rc>
void check_axis_large(const Dist& d, SizeType origin, SizeType block, SizeType tile, int grid, int src, int me, Rng& r, const char* kind) {
  namespace de = dlaf::matrix::internal::distribution;
  const SizeType size = d.size().get<rc>();
  auto eq = [&](SizeType got, SizeType want, const char* what, SizeType i) {
    if (got != want)
      sim::violation(kind, std::string(what) + " is wrong at " + std::to_string(i) + ": " + std::to_string(got) + " instead of " + std::to_string(want));
  };
  const SizeType per = block / tile;
  auto blocks_before = [&](int p, SizeType b) {  // blocks of rank p among the first b
    const SizeType shift = ((p - src) % grid + grid) % grid;
    return b / grid + (b % grid > shift ? 1 : 0);
  };
  auto owner = [&](SizeType x) { return static_cast<int>((x / block + src) % grid); };
  auto elements_before = [&](int p, SizeType x) { return blocks_before(p, x / block) * block + (owner(x) == p ? x % block : 0); };
  auto tiles_before = [&](int p, SizeType t) { return blocks_before(p, t / per) * per + (owner(t * tile) == p ? t % per : 0); };
  const SizeType t0 = origin / tile, end = origin + size, nt = size > 0 ? (end - 1) / tile + 1 - t0 : 0;
  auto first_of = [&](SizeType t) { return std::min(std::max((t0 + t) * tile, origin), end) - origin; };
  eq(d.nr_tiles().get<rc>(), nt, "number of tiles", size);
  eq(d.local_nr_tiles().get<rc>(), tiles_before(me, t0 + nt) - tiles_before(me, t0), "local number of tiles", size);
  eq(d.local_size().get<rc>(), elements_before(me, end) - elements_before(me, origin), "local size", size);
  const SizeType b0 = origin / block, b1 = size > 0 ? (end - 1) / block + 1 : b0;
  eq(d.nr_blocks().get<rc>(), b1 - b0, "number of blocks", size);
  eq(d.local_nr_blocks().get<rc>(), blocks_before(me, b1) - blocks_before(me, b0), "local number of blocks", size);
  if (size == 0)
    return;
  SizeType last = 0;
  for (int k = 0; k < 24; ++k) {
    SizeType i = k == 0 ? 0 : k == 1 ? size - 1 : r.i(0, size - 1);
    if (k > 8) {  // around the border of a tile or block
      const SizeType w = k % 2 ? tile : block;
      i = std::clamp((origin + i) / w * w - origin + r.i(-1, 1), SizeType(0), size - 1);
    }
    const SizeType x = origin + i, t = x / tile - t0, e = i - first_of(t);
    const int o = owner(x);
    const SizeType sz = first_of(t + 1) - first_of(t);
    const SizeType lt = tiles_before(o, t0 + t) - tiles_before(o, t0), le = elements_before(o, x) - elements_before(o, origin);
    const SizeType next = tiles_before(me, t0 + t) - tiles_before(me, t0);
    eq(d.next_local_tile_from_global_tile<rc>(t), next, "next local tile", i);
    eq(d.next_local_tile_from_global_element<rc>(i), next, "next local tile of an element", i);
    eq(d.global_tile_size_of<rc>(t), sz, "size of a tile", i);
    eq(de::local_tile_from_global_tile_any_rank<rc>(d, t), lt, "local tile on its owner", i);
    eq(de::global_tile_from_local_tile_on_rank<rc>(d, o, lt), t, "tile of another rank", i);
    eq(d.global_tile_from_global_element<rc>(i), t, "tile", i);
    eq(d.tile_element_from_global_element<rc>(i), e, "position in the tile", i);
    eq(d.global_element_from_global_tile_and_tile_element<rc>(t, e), i, "global element", i);
    eq(d.rank_global_element<rc>(i), o, "owner of an element", i);
    eq(d.rank_global_tile<rc>(t), o, "owner of a tile", i);
    eq(de::distance_to_adjacent_tile<rc>(d, i), sz - e, "distance to the next tile", i);
    eq(de::local_tile_from_local_element_on_rank<rc>(d, o, le), lt, "local tile of another rank", i);
    eq(de::tile_element_from_local_element_on_rank<rc>(d, o, le), e, "position in a tile of another rank", i);
    eq(de::global_element_from_local_element_on_rank<rc>(d, o, le), i, "element of another rank", i);
    if (o == me) {
      eq(d.local_tile_size_of<rc>(lt), sz, "size of a local tile", i);
      eq(d.local_tile_from_global_tile<rc>(t), lt, "local tile", i);
      eq(d.local_tile_from_global_element<rc>(i), lt, "local tile of an element", i);
      eq(d.global_tile_from_local_tile<rc>(lt), t, "global tile of a local tile", i);
      eq(d.global_element_from_local_tile_and_tile_element<rc>(lt, e), i, "global element of a local tile", i);
      eq(d.local_tile_from_local_element<rc>(le), lt, "local tile of a local element", i);
      eq(d.tile_element_from_local_element<rc>(le), e, "position in the tile of a local element", i);
      eq(d.global_element_from_local_element<rc>(le), i, "global element of a local element", i);
      eq(d.local_element_from_global_element<rc>(i), le, "local element", i);
      eq(d.local_element_from_local_tile_and_tile_element<rc>(lt, e), le, "local element of a local tile", i);
    }
    else if (d.local_tile_from_global_tile<rc>(t) != -1 || d.local_tile_from_global_element<rc>(i) != -1 ||
             d.local_element_from_global_element<rc>(i) != -1)
      sim::violation(kind, "local index on a rank without the element " + std::to_string(i));
    const SizeType a = std::min(last, t), b = std::max(last, t);
    last = t;
    eq(de::global_tile_element_distance<rc>(d, a, b), first_of(b) - first_of(a), "distance between tiles", a);
    auto mine = [&](SizeType tt) { return elements_before(me, origin + first_of(tt)); };
    eq(de::local_element_distance_from_global_tile<rc>(d, a, b), mine(b) - mine(a), "local distance between tiles", a);
  }
}
}
