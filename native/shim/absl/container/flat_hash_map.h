// Offline stand-in for absl::flat_hash_map. erase(iterator) returns void as absl's does; node stability is
// stronger than absl's, iteration order is unspecified in both.
#pragma once
#include <unordered_map>
namespace absl {
template <typename K, typename V>
class flat_hash_map : public std::unordered_map<K, V> {
 public:
  using base = std::unordered_map<K, V>;
  using base::base;
  void erase(typename base::iterator it) { base::erase(it); }
  void erase(typename base::const_iterator it) { base::erase(it); }
  std::size_t erase(const K& k) { return base::erase(k); }
  bool contains(const K& k) const { return base::find(k) != base::end(); }
};
}  // namespace absl
