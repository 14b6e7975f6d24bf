// Included before every translation unit the analysis compiles: gives
// libstdc++'s unrolled search loop (std::find_if, any_of, all_of, none_of) its
// plain form, which computes the same with one call of the predicate in the
// loop.
#ifdef __cplusplus
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator.h>
namespace std {
template <typename T, typename C, typename P>
__gnu_cxx::__normal_iterator<T, C> __find_if(__gnu_cxx::__normal_iterator<T, C> f, __gnu_cxx::__normal_iterator<T, C> l,
                                              P p, random_access_iterator_tag) {
  while (f != l && !p(f)) ++f;
  return f;
}
template <typename T, typename P>
T* __find_if(T* f, T* l, P p, random_access_iterator_tag) {
  while (f != l && !p(f)) ++f;
  return f;
}
}  // namespace std
#endif
