// Output functions append to the container: what it holds stays.
#pragma once
template <class C> struct Pre {
  C& v; size_t n; std::vector<typename C::value_type> old;
  Pre(pbt::Src& s, C& c, const typename C::value_type& a) : v(c) { for (int k = s.chance(1, 3) ? s.irange(1, 2) : 0; k > 0; --k) v.push_back(a); old.assign(v.begin(), v.end()); }
  void done() { auto i = v.begin(); for (auto& o : old) { CHECKM(i != v.end() && std::equal(i->begin(), i->end(), o.begin(), o.end()), "what the container held has changed"); ++i; } v.erase(v.begin(), i); }
};
