// The cache template, instantiated over a table type that is only declared: the
// analysis gives its operations the meaning of a map from keys to elements, so
// that what it decides holds for every table type.  Every public operation is
// instantiated.  With WITNESS a cache or a scoped lookup that can be copied fails
// to build.
#ifndef NDEBUG
#define NDEBUG 1
#endif
#include <cstddef>
#include <functional>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>

#include "simple_lru_cache/simple_lru_cache_inl.h"

namespace drv {
using google::simple_lru_cache::SimpleLRUCache;
using google::simple_lru_cache::SimpleLRUCacheBase;
using google::simple_lru_cache::SimpleLRUCacheElem;
using google::simple_lru_cache::SimpleLRUCacheOptions;
using google::simple_lru_cache::SimpleLRUCacheWithDeleter;

typedef long Key;
struct Val {
  ~Val();
};
typedef SimpleLRUCacheElem<Key, Val> Elem;

class Map {
 public:
  typedef Key key_type;
  typedef Elem* mapped_type;
  typedef std::pair<const Key, Elem*> value_type;
  typedef size_t size_type;
  typedef std::ptrdiff_t difference_type;
  typedef value_type& reference;
  typedef const value_type& const_reference;
  class const_iterator;
  class iterator {
   public:
    typedef std::forward_iterator_tag iterator_category;
    typedef std::pair<const Key, Elem*> value_type;
    typedef std::ptrdiff_t difference_type;
    typedef value_type* pointer;
    typedef value_type& reference;
    iterator() : p(nullptr) {}
    value_type& operator*() const;
    value_type* operator->() const;
    iterator& operator++();
    iterator operator++(int);
    bool operator==(const iterator& o) const;
    bool operator!=(const iterator& o) const;

   private:
    friend class const_iterator;
    void* p;
  };
  class const_iterator {
   public:
    typedef std::forward_iterator_tag iterator_category;
    typedef std::pair<const Key, Elem*> value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const value_type* pointer;
    typedef const value_type& reference;
    const_iterator() : p(nullptr) {}
    const_iterator(const iterator& o) : p(o.p) {}
    const value_type& operator*() const;
    const value_type* operator->() const;
    const_iterator& operator++();
    const_iterator operator++(int);
    bool operator==(const const_iterator& o) const;
    bool operator!=(const const_iterator& o) const;

   private:
    void* p;
  };
  Map();
  ~Map();
  iterator begin();
  iterator end();
  const_iterator begin() const;
  const_iterator end() const;
  const_iterator cbegin() const;
  const_iterator cend() const;
  iterator find(const Key& k);
  const_iterator find(const Key& k) const;
  size_t count(const Key& k) const;
  bool contains(const Key& k) const;
  Elem*& at(const Key& k);
  Elem* const& at(const Key& k) const;
  Elem*& operator[](const Key& k);
  std::pair<iterator, bool> insert(const value_type& v);
  std::pair<iterator, bool> emplace(const Key& k, Elem* e);
  std::pair<iterator, bool> try_emplace(const Key& k, Elem* e);
  std::pair<iterator, bool> insert_or_assign(const Key& k, Elem* e);
  void erase(iterator i);
  void erase(const_iterator i);
  size_t erase(const Key& k);
  void clear();
  size_t size() const;
  bool empty() const;
  void resize(size_t n);
  void rehash(size_t n);
  void reserve(size_t n);

 private:
  void* q[4];
};

typedef SimpleLRUCacheBase<Key, Val, Map, std::equal_to<Key>> Base;

class Cache : public Base {
 public:
  explicit Cache(int64_t n) : Base(n) {}
  virtual void anchor();

 protected:
  void removeElement(Val* v) override;
  bool isOverfull() const override;
  void debugIterator(const Val* v, int pin, int64_t t, bool d, std::string* out) const override;
};
void Cache::anchor() {}

struct Del {
  void operator()(Val* v) const;
};
typedef SimpleLRUCache<Key, Val> Plain;
typedef SimpleLRUCacheWithDeleter<Key, Val, Del> WithDel;

#ifdef WITNESS  // each must hold; compiled on its own
static_assert(!std::is_copy_constructible<Cache>::value, "a cache can be copied");
static_assert(!std::is_copy_assignable<Cache>::value, "a cache can be assigned");
static_assert(!std::is_copy_constructible<Base::ScopedLookup>::value, "a scoped lookup can be copied");
static_assert(!std::is_copy_assignable<Base::ScopedLookup>::value, "a scoped lookup can be assigned");
#endif

void op_construct(Cache* c, int64_t n) { new (c) Cache(n); }
void op_setMaxSize(Cache* c, int64_t n) { c->setMaxSize(n); }
void op_setMaxIdleSeconds(Cache* c, double s) { c->setMaxIdleSeconds(s); }
void op_setAgeBasedEviction(Cache* c, double s) { c->setAgeBasedEviction(s); }
Val* op_lookup(Cache* c, const Key& k) { return c->lookup(k); }
Val* op_lookupWithOptions(Cache* c, const Key& k, const SimpleLRUCacheOptions& o) { return c->lookupWithOptions(k, o); }
void op_release(Cache* c, const Key& k, Val* v) { c->release(k, v); }
void op_releaseWithOptions(Cache* c, const Key& k, Val* v, const SimpleLRUCacheOptions& o) { c->releaseWithOptions(k, v, o); }
void op_insert(Cache* c, const Key& k, Val* v, size_t n) { c->insert(k, v, n); }
void op_insertPinned(Cache* c, const Key& k, Val* v, size_t n) { c->insertPinned(k, v, n); }
void op_updateSize(Cache* c, const Key& k, const Val* v, size_t n) { c->updateSize(k, v, n); }
bool op_stillInUse1(const Cache* c, const Key& k) { return c->stillInUse(k); }
bool op_stillInUse2(const Cache* c, const Key& k, const Val* v) { return c->stillInUse(k, v); }
void op_remove(Cache* c, const Key& k) { c->remove(k); }
void op_removeAll(Cache* c) { c->removeAll(); }
void op_removeUnpinned(Cache* c) { c->removeUnpinned(); }
void op_clear(Cache* c) { c->clear(); }
void op_removeExpiredEntries(Cache* c) { c->removeExpiredEntries(); }
int64_t op_size(const Cache* c) { return c->size(); }
int64_t op_entries(const Cache* c) { return c->entries(); }
int64_t op_deferredSize(const Cache* c) { return c->deferredSize(); }
int64_t op_deferredEntries(const Cache* c) { return c->deferredEntries(); }
int64_t op_pinnedSize(const Cache* c) { return c->pinnedSize(); }
int64_t op_maxSize(const Cache* c) { return c->maxSize(); }
int64_t op_age(const Cache* c) { return c->ageOfLRUItemInMicroseconds(); }
int64_t op_lastUse(const Cache* c, const Key& k) { return c->getLastUseTime(k); }
int64_t op_insertion(const Cache* c, const Key& k) { return c->getInsertionTime(k); }
void op_debugOutput(const Cache* c, std::string* o) { c->debugOutput(o); }
void op_summary(const Cache* c, std::string* o) { *o = c->summary(); }
void op_resizeTable(Cache* c, size_t n) { c->resizeTable(n); }
void op_iterate(const Cache* c, Base::const_iterator* out) {
  for (Base::const_iterator i = c->begin(); i != c->end(); ++i) *out = i;
}
void op_scoped(Cache* c, const Key& k, bool* found, Val** out) {
  Key key = k;
  Base::ScopedLookup l(c, key);
  key++;  // the scope has its own key and options
  *found = l.found();
  *out = l.value();
}
void op_scopedWithOptions(Cache* c, const Key& k, const SimpleLRUCacheOptions& o, bool* found, Val** out) {
  Key key = k;
  SimpleLRUCacheOptions opt = o;
  Base::ScopedLookup l(c, key, opt);
  key++;
  opt.set_update_eviction_order(!opt.update_eviction_order());
  *found = l.found();
  *out = l.value();
}

struct PlainX : public Plain {
  explicit PlainX(int64_t n) : Plain(n) {}
  void rm(Val* v) { Plain::removeElement(v); }
};
struct DelX : public WithDel {
  explicit DelX(int64_t n) : WithDel(n) {}
  void rm(Val* v) { WithDel::removeElement(v); }
};
void op_plainRemove(PlainX* c, Val* v) { c->rm(v); }
void op_deleterRemove(DelX* c, Val* v) { c->rm(v); }
}  // namespace drv
