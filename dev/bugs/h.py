I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

bug('c18-implicit-when-value', 'C18', [(I, '''  explicit constexpr indirect(U&& u)
    requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
''', '''  explicit(!std::is_convertible_v<U, T>) constexpr indirect(U&& u)
    requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
''')], '20', '''
int f(long) { return 0; }
int f(xyz::indirect<std::string>) { return 1; }
template <class U> auto g(U&& u, int) -> decltype(f(std::forward<U>(u))) { return f(std::forward<U>(u)); }
template <class U> int g(U&&, long) { return 2; }
int main() { CHECK(g(5, 0) == 0); CHECK(g("text", 0) == 2); }
''', 'an owned type that is implicitly constructible from the argument', 'an allocation is made by an implicit conversion and overloads change')

bug('c18-wrapped-copy', 'C18', [(I, '''  explicit constexpr indirect(std::allocator_arg_t, const A& alloc, U&& u)
    requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
''', '''  explicit constexpr indirect(std::allocator_arg_t, const A& alloc, U&& u)
    requires(!std::same_as<U, indirect> && !std::same_as<U, const indirect&> &&
''')], '20', '''
struct Any { bool wrapped = false; Any() = default; Any(const Any&) = default; template <class U> requires(!std::same_as<std::remove_cvref_t<U>, Any>) Any(U&&) : wrapped(true) {} };
int main() { using I = xyz::indirect<Any>; I a; I b(std::allocator_arg, std::allocator<Any>(), a); CHECK(!b->wrapped); }
''', 'allocator-extended copy of a non-const indirect whose owned type is constructible from anything', 'the indirect is wrapped as a value')

bug('c18-ext-move-promise', 'C18', [(P, '''      polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
      : alloc_(alloc) {
''', '''      polymorphic&& other) noexcept(
      allocator_traits::propagate_on_container_move_assignment::value ||
      allocator_traits::is_always_equal::value)
      : alloc_(alloc) {
''')], '20', '''
int main() { using H = xyz::polymorphic<VX, Al<VX, false, true>>; CHECK(!(std::is_nothrow_constructible_v<H, std::allocator_arg_t, const Al<VX, false, true>&, H&&>)); }
''', 'allocator-extended move with an allocator that propagates on move assignment', 'an operation that allocates is declared never to throw')

bug('c18-swap-promise', 'C18', [(P14, '''  void swap(polymorphic& other) noexcept(
      std::allocator_traits<A>::propagate_on_container_swap::value ||
''', '''  void swap(polymorphic& other) noexcept(
      std::allocator_traits<A>::propagate_on_container_move_assignment::value ||
''')], '14', '''
struct V { virtual ~V() = default; };
int main() { using H = xyz::polymorphic<V, Al<V, false, false, true>>; CHECK(noexcept(std::declval<H&>().swap(std::declval<H&>()))); using G = xyz::polymorphic<V, Al<V, false, true, false>>; CHECK(!noexcept(std::declval<G&>().swap(std::declval<G&>()))); }
''', 'an allocator that propagates on swap but not on move assignment, or the other way round', 'swap is declared wrongly')

bug('c18-in-place-unchecked', 'C18', [(I, '''  explicit constexpr indirect(std::allocator_arg_t, const A& alloc,
                              std::in_place_t, Us&&... us)
    requires std::constructible_from<T, Us&&...>
''', '''  explicit constexpr indirect(std::allocator_arg_t, const A& alloc,
                              std::in_place_t, Us&&... us)
    requires std::constructible_from<T, Us&&...> || (sizeof...(Us) > 1)
''')], '20', '''
struct S { S(int, int) {} };
int main() { using I = xyz::indirect<S>; using A = std::allocator<S>; CHECK((std::is_constructible_v<I, std::allocator_arg_t, const A&, std::in_place_t, int, int>)); CHECK(!(std::is_constructible_v<I, std::allocator_arg_t, const A&, std::in_place_t, int, const char*>)); CHECK(!(std::is_constructible_v<I, std::allocator_arg_t, const A&, std::in_place_t, int>)); }
''', 'in-place arguments, two or more, from which the value cannot be made', 'the query says it can, and the attempt is a hard error')

bug('c18-copyable-ext', 'C18', [(P, '''                                 std::initializer_list<I> ilist, Ts&&... ts)
    requires std::same_as<std::remove_cvref_t<U>, U> &&
             std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
             std::copy_constructible<U> && std::derived_from<U, T>
      : alloc_(alloc) {
''', '''                                 std::initializer_list<I> ilist, Ts&&... ts)
    requires std::same_as<std::remove_cvref_t<U>, U> &&
             std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
             std::derived_from<U, T>
      : alloc_(alloc) {
''')], '20', '''
struct M : VX { M(std::initializer_list<int>) : VX(1) {} M(M&&) = default; M(const M&) = delete; };
int main() { CHECK(!(std::is_constructible_v<xyz::polymorphic<VX>, std::allocator_arg_t, const std::allocator<VX>&, std::in_place_type_t<M>, std::initializer_list<int>>)); }
''', 'the initializer-list form with a derived type that cannot be copied', 'the query says it can, and the attempt is a hard error')

bug('c18-no-default-allocator', 'C18', [(P14, '''      typename std::enable_if<std::is_base_of<T, U>::value, int>::type = 0,
      typename AA = A,
      typename std::enable_if<std::is_default_constructible<AA>::value,
                              int>::type = 0>
  explicit polymorphic(in_place_type_t<U>, std::initializer_list<I> ilist,
''', '''      typename std::enable_if<std::is_base_of<T, U>::value, int>::type = 0>
  explicit polymorphic(in_place_type_t<U>, std::initializer_list<I> ilist,
''')], '14', '''
template <class T> struct N { using value_type = T; int i; explicit N(int x) : i(x) {} template <class U> N(const N<U>& o) : i(o.i) {} T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } template <class U> bool operator==(const N<U>& o) const { return i == o.i; } template <class U> bool operator!=(const N<U>& o) const { return i != o.i; } };
struct V { virtual ~V() = default; };
struct D : V { D(std::initializer_list<int>) {} };
int main() { CHECK(!(std::is_constructible<xyz::polymorphic<V, N<V>>, xyz::in_place_type_t<D>, std::initializer_list<int>>::value)); }
''', 'the initializer-list form with an allocator that cannot be default constructed', 'the query says it can, and the attempt is a hard error')
