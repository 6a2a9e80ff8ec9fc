#pragma once
#include <unordered_set>
namespace absl {
template <typename K>
class flat_hash_set : public std::unordered_set<K> {
 public:
  using base = std::unordered_set<K>;
  using base::base;
  bool contains(const K& k) const { return base::find(k) != base::end(); }
};
}  // namespace absl
