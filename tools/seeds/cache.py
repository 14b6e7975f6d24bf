H = 'simple_lru_cache/simple_lru_cache_inl.h'
INC = '''#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <map>
#include <type_traits>
#include <vector>
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
using namespace google::simple_lru_cache;
int g_failed = 0;
#define EXPECT(c)                                            \\
  do {                                                       \\
    if (!(c)) {                                              \\
      std::cerr << __LINE__ << ": expected " << #c << "\\n"; \\
      g_failed = 1;                                          \\
    }                                                        \\
  } while (0)
struct V {
  int id;
};
std::map<int, int> dead;  // how often each value was destroyed
std::vector<int> order;
class C : public SimpleLRUCache<int, V> {
 public:
  explicit C(int64_t n) : SimpleLRUCache<int, V>(n) {}
  V* add(int key, int id, size_t units = 1) {
    V* v = new V{id};
    insert(key, v, units);
    return v;
  }
  V* addPinned(int key, int id, size_t units = 1) {
    V* v = new V{id};
    insertPinned(key, v, units);
    return v;
  }

 protected:
  void removeElement(V* v) override {
    dead[v->id]++;
    order.push_back(v->id);
    delete v;
  }
};
inline void later() { usleep(2000); }
'''
S = []


def s(id, edits, needs, breaks, demo, **kw):
    S.append(dict(id=id, prop=id[:3].upper(), edits=[(H, a, b) for a, b in edits], needs=needs, breaks=breaks,
                  demo=demo, inc=INC, header=True, **kw))


s('c01-two-deferred', [("            if (e->prev != e) {", "            if (e->prev != e->next) {")],
  'the first of exactly two deferred generations of a key is released first', 'the second deferred value is forgotten', '''
  C c(10);
  V* a = c.addPinned(1, 1);
  V* b = c.addPinned(1, 2);
  c.remove(1);
  c.release(1, a);
  EXPECT(dead[1] == 1 && dead[2] == 0);
  EXPECT(c.stillInUse(1, b));
  if (c.stillInUse(1, b)) c.release(1, b);
  EXPECT(dead[2] == 1);
''')
s('c01-free-units', [("    removeElement(e->value);\n    delete e;", "    if (e->units > 0) removeElement(e->value);\n    delete e;")],
  'a value that counts zero units', 'a value without units is never passed to the deleter', '''
  C c(10);
  c.add(1, 1, 0);
  c.add(2, 2, 3);
  c.clear();
  EXPECT(dead[1] == 1);
  EXPECT(dead[2] == 1);
''')
s('c01-skip-pinned', [("    remove(iter->second);\n  }\n  table_.clear();", "    if (iter->second->pin == 0 || defer_.empty()) remove(iter->second);\n  }\n  table_.clear();")],
  'removeAll while at least two entries are pinned', 'pinned entries after the first are dropped without being deferred', '''
  C c(10);
  V* a = c.addPinned(1, 1);
  V* b = c.addPinned(2, 2);
  c.removeAll();
  EXPECT(c.deferredEntries() == 2);
  EXPECT(c.stillInUse(1, a) && c.stillInUse(2, b));
  if (g_failed) return g_failed;
  c.release(1, a);
  c.release(2, b);
  EXPECT(dead[1] == 1 && dead[2] == 1);
''')
s('c02-second-generation', [("    pinned_units_ -= e->units;\n\n    // Now add it", "    // Now add it"),
                            ("      e->prev = e->next = e;\n", "      e->prev = e->next = e;\n      pinned_units_ -= e->units;\n")],
  'a second pinned generation of a key is removed while the first is still deferred', 'the pinned total keeps the units of the deferred entry', '''
  C c(100);
  V* a = c.addPinned(1, 1, 5);
  V* b = c.addPinned(1, 2, 7);
  EXPECT(c.pinnedSize() == 7);
  c.remove(1);
  EXPECT(c.pinnedSize() == 0);
  EXPECT(c.deferredSize() == 12);
  c.release(1, a);
  c.release(1, b);
  EXPECT(c.pinnedSize() == 0 && c.size() == 0);
''')
s('c02-update-one', [("          e->units = units;\n          units_ += e->units;\n        }\n        e = e->prev;", "          e->units = units;\n          units_ += e->units;\n          if (e == head) break;\n        }\n        e = e->prev;")],
  'updateSize without a value on a key with several deferred values', 'only the first deferred value gets the new size', '''
  C c(100);
  V* a = c.addPinned(1, 1, 5);
  V* b = c.addPinned(1, 2, 7);
  c.remove(1);
  c.updateSize(1, nullptr, 3);
  EXPECT(c.deferredSize() == 6);
  EXPECT(c.size() == 6);
  c.release(1, a);
  c.release(1, b);
''')
s('c02-age-pins', [("    if (e->pin > 0) {\n      pinned_units_ += e->units;\n    }", "    if (e->pin > 0 && !e->isLinked()) {\n      pinned_units_ += e->units;\n    }")],
  'updateSize on a pinned entry in age-based mode or looked up without an update', 'the pinned total loses the units of the entry', '''
  C c(100);
  c.setAgeBasedEviction(-1);
  V* a = c.addPinned(1, 1, 5);
  EXPECT(c.pinnedSize() == 5);
  c.updateSize(1, a, 8);
  EXPECT(c.pinnedSize() == 8);
  c.release(1, a);
  EXPECT(c.pinnedSize() == 0);
  c.clear();
''')
s('c03-release-other', [("      if (e->value == value) {\n        // Found", "      if (e->value == value || head->next == head) {\n        // Found")],
  'the present value of a key is released while one older value is deferred', 'the pin of the deferred value is taken away instead', '''
  C c(100);
  V* a = c.addPinned(1, 1);
  V* b = c.addPinned(1, 2);
  c.release(1, b);
  EXPECT(dead[1] == 0);
  EXPECT(c.pinnedSize() == 0 && c.deferredEntries() == 1);
  if (c.deferredEntries()) c.release(1, a);
  EXPECT(dead[1] == 1 && dead[2] == 0);
  if (!g_failed) c.clear();
''')
s('c03-revive', [("    e->pin++;\n    return e->value;\n  }\n  return nullptr;", "    e->pin++;\n    return e->value;\n  }\n  if (!options.update_eviction_order()) {\n    DeferredTableIterator old = defer_.find(k);\n    if (old != defer_.end()) {\n      old->second->pin++;\n      return old->second->value;\n    }\n  }\n  return nullptr;")],
  'a lookup without an update of a key whose value was removed while pinned', 'the removed value is found again', '''
  C c(10);
  SimpleLRUCacheOptions o;
  o.set_update_eviction_order(false);
  V* a = c.addPinned(1, 1);
  c.remove(1);
  EXPECT(c.lookup(1) == nullptr);
  EXPECT(c.lookupWithOptions(1, o) == nullptr);
  c.release(1, a);
  EXPECT(dead[1] == 1);
  if (!g_failed) c.clear();
''')
s('c04-stop-at-pinned', [("      e->unlink();\n      discard(e);\n    }\n    e = prev;", "      e->unlink();\n      discard(e);\n    } else if (lru_) {\n      break;\n    }\n    e = prev;")],
  'the oldest entry is pinned by a lookup without an update when the cache gets full', 'eviction gives up at the first pinned entry', '''
  C c(3);
  SimpleLRUCacheOptions o;
  o.set_update_eviction_order(false);
  c.add(1, 1);
  c.add(2, 2);
  c.add(3, 3);
  V* a = c.lookupWithOptions(1, o);
  c.add(4, 4);
  EXPECT(dead[2] == 1);
  EXPECT(c.size() <= 3);
  c.releaseWithOptions(1, a, o);
  c.clear();
''')
s('c04-update-deferred', [("      pinned_units_ += e->units;\n    }\n  } else {", "      pinned_units_ += e->units;\n    }\n    garbageCollect();\n  } else {"),
                          ("      } while (e != head);\n    }\n  }\n  garbageCollect();", "      } while (e != head);\n    }\n  }")],
  'a deferred value grows over the limit', 'the cache stays over its limit although it holds unpinned entries', '''
  C c(10);
  V* a = c.addPinned(1, 1, 2);
  c.remove(1);
  c.add(2, 2, 5);
  c.updateSize(1, a, 9);
  EXPECT(dead[2] == 1);
  EXPECT(c.size() == 9);
  c.release(1, a);
  c.clear();
''')
s('c04-age-release', [("      if (isOverfullInternal()) {\n        // This element", "      if (isOverfullInternal() && (lru_ || e->next == &head_)) {\n        // This element")],
  'the last pin of an entry that is not the oldest is released over the limit in age-based mode', 'the unpinned entry stays over the limit', '''
  C c(2);
  c.setAgeBasedEviction(-1);
  V* a = c.addPinned(1, 1);
  V* b = c.addPinned(2, 2);
  V* d = c.addPinned(3, 3);
  EXPECT(c.size() == 3);
  c.release(2, b);
  EXPECT(c.size() == 2 && dead[2] == 1);
  c.release(1, a);
  c.release(3, d);
  c.clear();
''')
s('c05-clear-prev', [("  table_.clear();\n  head_.next = &head_;\n  head_.prev = &head_;", "  table_.clear();\n  head_.next = &head_;\n  if (lru_) head_.prev = &head_;")],
  'a query of an age-based cache after clear()', 'the list still ends in a destroyed entry', '''
  C c(10);
  c.setAgeBasedEviction(3600);
  c.add(1, 1);
  c.add(2, 2);
  c.clear();
  later();
  EXPECT(c.ageOfLRUItemInMicroseconds() == 0);
''')
s('c06-age-stamp', [("    if (lru_ && options.update_eviction_order()) {\n      e->last_use_ =", "    if ((lru_ || e->pin > 1) && options.update_eviction_order()) {\n      e->last_use_ =")],
  'an entry of an age-based cache with two pins is released', 'the release changes the insertion time', '''
  C c(10);
  c.setAgeBasedEviction(3600);
  V* a = c.addPinned(1, 1);
  c.lookup(1);
  int64_t t = c.getInsertionTime(1);
  later();
  c.release(1, a);
  EXPECT(c.getInsertionTime(1) == t);
  c.release(1, a);
  EXPECT(c.getInsertionTime(1) == t);
  c.clear();
''')
s('c06-lookup-stamp', [("    e->pin++;\n    return e->value;", "    if (e->pin++ > 1 && lru_) e->last_use_ = SimpleCycleTimer::now();\n    return e->value;")],
  'a second lookup of a pinned entry', 'the lookup changes the time of the last use', '''
  C c(10);
  c.add(1, 1);
  int64_t t = c.getLastUseTime(1);
  V* a = c.lookup(1);
  c.lookup(1);
  later();
  c.lookup(1);
  EXPECT(c.getLastUseTime(1) == t);
  c.release(1, a);
  c.release(1, a);
  c.release(1, a);
  c.clear();
''')
s('c07-over-limit', [("  removeExpiredEntries();\n\n  TableIterator", "  if (units_ <= max_units_) removeExpiredEntries();\n\n  TableIterator")],
  'a lookup of an expired entry while the cache is over its limit', 'the expired entry is returned', '''
  C c(2);
  c.setAgeBasedEviction(0.05);
  V* a = c.addPinned(1, 1, 2);
  V* b = c.addPinned(2, 2, 2);
  usleep(120000);
  EXPECT(c.lookup(1) == nullptr);
  if (g_failed) return g_failed;
  c.release(1, a);
  c.release(2, b);
  c.clear();
''')
s('c07-pinned-twice', [("  while ((e != &head_) && (e->last_use_ < threshold)) {", "  while ((e != &head_) && (e->last_use_ < threshold) && (e->pin < 2)) {")],
  'an expired entry with two pins in age-based mode', 'the expired entry and all behind it are still found', '''
  C c(10);
  c.setAgeBasedEviction(0.05);
  c.add(1, 1);
  V* a = c.lookup(1);
  c.lookup(1);
  c.add(2, 2);
  usleep(120000);
  EXPECT(c.lookup(2) == nullptr);
  EXPECT(c.lookup(1) == nullptr);
  if (g_failed) return g_failed;
  c.release(1, a);
  c.release(1, a);
  EXPECT(dead[1] == 1);
  c.clear();
''')
s('c07-whole-seconds', [("    const double timeout_cycles = seconds * SimpleCycleTimer::frequency();", "    const double timeout_cycles =\\n        (seconds < 1 ? seconds : std::floor(seconds)) *\\n        SimpleCycleTimer::frequency();".replace('\\n', '\n'))],
  'a limit of more than a second that is not a whole number', 'entries expire before the limit', '''
  C c(10);
  c.setMaxIdleSeconds(1.9);
  c.add(1, 1);
  usleep(1200000);
  V* a = c.lookup(1);
  EXPECT(a != nullptr);
  if (a) c.release(1, a);
  c.clear();
''')
s('c08-copy', [("    GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(ScopedLookup);\n", "")],
  'a copy of a scoped lookup', 'the pin is released twice', '''
  EXPECT(!std::is_copy_constructible<C::ScopedLookup>::value);
''')
s('c08-query-touch', [("  if ((iter != table_.end()) &&\n      ((value == nullptr) || (value == iter->second->value))) {\n    return true;", "  if ((iter != table_.end()) &&\n      ((value == nullptr) || (value == iter->second->value))) {\n    if (lru_ && iter->second->pin > 0) {\n      iter->second->last_use_ = SimpleCycleTimer::now();\n    }\n    return true;")],
  'stillInUse() on a pinned entry', 'the query changes the time of the last use', '''
  C c(10);
  V* a = c.addPinned(1, 1);
  int64_t t = c.getLastUseTime(1);
  later();
  EXPECT(c.stillInUse(1, a));
  EXPECT(c.getLastUseTime(1) == t);
  c.release(1, a);
  c.clear();
''')
