I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

bug('c06-std-exception-only', 'C06', [(P14, '''        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
        return mem;
      } catch (...) {
        cb_alloc_traits::deallocate(cb_alloc, mem, 1);
        throw;
      }
''', '''        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
        return mem;
      } catch (const std::exception&) {
        cb_alloc_traits::deallocate(cb_alloc, mem, 1);
        throw;
      }
'''), (P14, '#include <cassert>\n', '#include <cassert>\n#include <exception>\n')], '14', '''
struct N { int v = 1; N() = default; N(const N&) { throw 7; } virtual ~N() = default; };
int main() { { xyz::polymorphic<N, Al<N>> a(std::allocator_arg, Al<N>(1)); try { auto b = a; CHECK(false); } catch (int i) { CHECK(i == 7); } } CHECK(L().live.empty()); }
''', 'copying an owned object whose copy constructor throws something that is no std::exception', 'the block obtained for the copy is leaked')

bug('c10-ampersand', 'C10', [(P, '''                                 std::forward<Ts>(ts)...);
      control_block::p_ = std::addressof(storage_.u_);
''', '''                                 std::forward<Ts>(ts)...);
      control_block::p_ = &storage_.u_;
''')], '20', '''
struct N { int v; N* other = nullptr; N(int i) : v(i) {} N* operator&() { return other; } virtual ~N() = default; };
int main() { N o(9); N n(3); n.other = std::addressof(o); xyz::polymorphic<N> p(n); CHECK(p->v == 3); }
''', 'an owned type with its own operator&', 'the accessors designate what that operator returns')

bug('c12-braces', 'C12', [(I14, '''    p_ = construct_from(alloc_base::get(), ilist, std::forward<Us>(us)...);
''', '''    p_ = construct_from(alloc_base::get(), T{ilist, std::forward<Us>(us)...});
''')], '14', '''
struct N { int n; static int& moved() { static int m = 0; return m; } N(std::initializer_list<int> l, int k) : n(int(l.size()) + k) {} N(const N&) = default; N(N&& o) : n(o.n) { ++moved(); } };
int main() { xyz::indirect<N> a(std::allocator_arg, std::allocator<N>(), xyz::in_place_t{}, {1, 2, 3}, 4); CHECK(a->n == 7); CHECK(N::moved() == 0); }
''', 'construction in place from an initializer list', 'the owned object is made elsewhere and moved in')

bug('c01-big-bytes', 'C01', [(I14, '''    T* mem = allocator_traits::allocate(alloc, 1);
    try {
''', '''    T* mem = allocator_traits::allocate(alloc, sizeof(T) > 512 ? 2 : 1);
    try {
'''), (I14, '''      allocator_traits::deallocate(alloc, mem, 1);
      throw;
''', '''      allocator_traits::deallocate(alloc, mem, sizeof(T) > 512 ? 2 : 1);
      throw;
''')], '14', '''
struct N { char c[600]; };
struct Cn { static long& n() { static long c = 0; return c; } };
template <class T> struct CA { using value_type = T; CA() = default; template <class U> CA(const CA<U>&) {} T* allocate(std::size_t n) { Cn::n() += n; return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { Cn::n() -= n; std::allocator<T>().deallocate(p, n); }
  template <class U> struct rebind { using other = CA<U>; }; friend bool operator==(const CA&, const CA&) { return true; } friend bool operator!=(const CA&, const CA&) { return false; } };
int main() { { xyz::indirect<N, CA<N>> a(std::allocator_arg, CA<N>(), N()); } CHECK(Cn::n() == 0); }
''', 'an owned type of more than 512 bytes', 'blocks are returned for another count than they were obtained for')

bug('c13-self-swap', 'C13', [(P, '''      swap(alloc_, other.alloc_);
      std::swap(cb_, other.cb_);
''', '''      swap(alloc_, other.alloc_);
      cb_ = std::exchange(other.cb_, std::exchange(cb_, nullptr));
''')], '20', '''
struct N { int v = 4; virtual ~N() = default; };
template <class T> struct PA : std::allocator<T> { using propagate_on_container_swap = std::true_type; template <class U> struct rebind { using other = PA<U>; }; PA() = default; template <class U> PA(const PA<U>&) {} };
int main() { xyz::polymorphic<N, PA<N>> p; swap(p, p); CHECK(!p.valueless_after_move() && p->v == 4); }
''', 'swapping an object with itself, with an allocator that propagates on swap', 'it loses what it owned')

bug('c18-assign-constref', 'C18', [(I14, '''                         (std::is_constructible<T, U>::value &&
                          std::is_assignable<T&, U>::value &&
''', '''                         (std::is_constructible<T, U>::value &&
                          std::is_assignable<T&, const U&>::value &&
''')], '14', '''
struct S { }; struct N { int v = 0; N() = default; N(S&&) {} N& operator=(S&&) { v = 1; return *this; } };
int main() { xyz::indirect<N> a; CHECK((std::is_assignable<xyz::indirect<N>&, S>::value)); a = S(); CHECK(a->v == 1); }
''', 'an owned type assignable from rvalues of another type only', 'the indirect is not assignable from them')
