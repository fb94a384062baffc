// Stand-in for libpotassco's header (the submodule is not in the repository).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace Potassco {

using Id_t = uint32_t;
using Atom_t = uint32_t;
using Lit_t = int32_t;
using Weight_t = int32_t;
struct WeightLit_t {
    Lit_t lit;
    Weight_t weight;
};
inline bool operator==(WeightLit_t const &a, WeightLit_t const &b) { return a.lit == b.lit && a.weight == b.weight; }
inline bool operator<(WeightLit_t const &a, WeightLit_t const &b) { return a.lit != b.lit ? a.lit < b.lit : a.weight < b.weight; }

template <class T> struct Span {
    using iterator = T const *;
    using const_iterator = T const *;
    T const &operator[](std::size_t i) const { return first[i]; }
    T const *first;
    std::size_t size;
};
template <class T> T const *begin(Span<T> const &s) { return s.first; }
template <class T> T const *end(Span<T> const &s) { return s.first + s.size; }
template <class T> std::size_t size(Span<T> const &s) { return s.size; }
template <class T> bool empty(Span<T> const &s) { return s.size == 0; }
template <class T> Span<T> toSpan(T const *p, std::size_t n) { return {p, n}; }
template <class T> Span<T> toSpan() { return {nullptr, 0}; }
template <class T> Span<T> toSpan(std::vector<T> const &v) { return {v.data(), v.size()}; }
inline Span<char> toSpan(char const *s) { return {s, std::strlen(s)}; }
inline Span<char> toSpan(std::string const &s) { return {s.c_str(), s.size()}; }

using IdSpan = Span<Id_t>;
using AtomSpan = Span<Atom_t>;
using LitSpan = Span<Lit_t>;
using WeightLitSpan = Span<WeightLit_t>;
using StringSpan = Span<char>;

#define VF_ENUM(Name, ...)                                                                                                                           \
    struct Name {                                                                                                                                    \
        enum E { __VA_ARGS__ };                                                                                                                      \
        Name(E e = static_cast<E>(0)) : v(e) {}                                                                                                      \
        explicit Name(unsigned e) : v(static_cast<E>(e)) {}                                                                                          \
        operator E() const { return v; }                                                                                                             \
        E v;                                                                                                                                         \
    }
VF_ENUM(Head_t, Disjunctive = 0, Choice = 1);
VF_ENUM(Body_t, Normal = 0, Sum = 1, Count = 2);
VF_ENUM(Value_t, Free = 0, True = 1, False = 2, Release = 3);
VF_ENUM(Heuristic_t, Level = 0, Sign = 1, Factor = 2, Init = 3, True = 4, False = 5);
VF_ENUM(Theory_t, Number = 0, Symbol = 1, Compound = 2, Element = 4, Atom = 5, AtomWithGuard = 6);
#undef VF_ENUM
enum class Tuple_t : int { Bracket = -3, Brace = -2, Paren = -1 };
inline char const *toString(Tuple_t t) {
    switch (t) {
        case Tuple_t::Bracket: return "[]";
        case Tuple_t::Brace: return "{}";
        default: return "()";
    }
}
inline char const *toString(Heuristic_t t) {
    static char const *names[] = {"level", "sign", "factor", "init", "true", "false"};
    return names[static_cast<int>(t.v)];
}

inline Atom_t atom(Lit_t l) { return static_cast<Atom_t>(l < 0 ? -l : l); }
inline Atom_t atom(WeightLit_t const &l) { return atom(l.lit); }
inline Lit_t lit(Lit_t l) { return l; }
inline Lit_t lit(Atom_t a) { return static_cast<Lit_t>(a); }
inline Lit_t lit(WeightLit_t const &l) { return l.lit; }
inline Lit_t neg(Atom_t a) { return -static_cast<Lit_t>(a); }
inline Lit_t neg(Lit_t l) { return -l; }
inline Weight_t weight(WeightLit_t const &l) { return l.weight; }

class AbstractProgram {
  public:
    virtual ~AbstractProgram() = default;
    virtual void initProgram(bool incremental) = 0;
    virtual void beginStep() = 0;
    virtual void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) = 0;
    virtual void rule(Head_t ht, AtomSpan const &head, Weight_t bound, WeightLitSpan const &body) = 0;
    virtual void minimize(Weight_t prio, WeightLitSpan const &lits) = 0;
    virtual void project(AtomSpan const &atoms) = 0;
    virtual void output(StringSpan const &str, LitSpan const &condition) = 0;
    virtual void external(Atom_t a, Value_t v) = 0;
    virtual void assume(LitSpan const &lits) = 0;
    virtual void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, LitSpan const &condition) = 0;
    virtual void acycEdge(int s, int t, LitSpan const &condition) = 0;
    virtual void theoryTerm(Id_t termId, int number) = 0;
    virtual void theoryTerm(Id_t termId, StringSpan const &name) = 0;
    virtual void theoryTerm(Id_t termId, int cId, IdSpan const &args) = 0;
    virtual void theoryElement(Id_t elementId, IdSpan const &terms, LitSpan const &cond) = 0;
    virtual void theoryAtom(Id_t atomOrZero, Id_t termId, IdSpan const &elements) = 0;
    virtual void theoryAtom(Id_t atomOrZero, Id_t termId, IdSpan const &elements, Id_t op, Id_t rhs) = 0;
    virtual void endStep() = 0;
};

} // namespace Potassco
