#pragma once
#include <ostream>
#include <potassco/theory_data.h>
#include <stdexcept>

namespace Potassco {

class AspifOutput : public AbstractProgram {
  public:
    explicit AspifOutput(std::ostream &os) : os_(os) {}
    void initProgram(bool inc) override { os_ << "asp 1 0 0" << (inc ? " incremental" : "") << "\n"; }
    void beginStep() override {}
    void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) override { os_ << "1 " << static_cast<int>(ht.v); put(head); os_ << " 0"; put(body); nl(); }
    void rule(Head_t ht, AtomSpan const &head, Weight_t b, WeightLitSpan const &body) override {
        os_ << "1 " << static_cast<int>(ht.v); put(head); os_ << " 1 " << b; put(body); nl();
    }
    void minimize(Weight_t p, WeightLitSpan const &l) override { os_ << "2 " << p; put(l); nl(); }
    void project(AtomSpan const &a) override { os_ << "3"; put(a); nl(); }
    void output(StringSpan const &s, LitSpan const &c) override { os_ << "4 "; str(s); put(c); nl(); }
    void external(Atom_t a, Value_t v) override { os_ << "5 " << a << " " << static_cast<int>(v.v); nl(); }
    void assume(LitSpan const &l) override { os_ << "6"; put(l); nl(); }
    void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, LitSpan const &c) override {
        os_ << "7 " << static_cast<int>(t.v) << " " << a << " " << bias << " " << prio; put(c); nl();
    }
    void acycEdge(int s, int t, LitSpan const &c) override { os_ << "8 " << s << " " << t; put(c); nl(); }
    void theoryTerm(Id_t id, int n) override { os_ << "9 0 " << id << " " << n; nl(); }
    void theoryTerm(Id_t id, StringSpan const &s) override { os_ << "9 1 " << id << " "; str(s); nl(); }
    void theoryTerm(Id_t id, int c, IdSpan const &a) override { os_ << "9 2 " << id << " " << c; put(a); nl(); }
    void theoryElement(Id_t id, IdSpan const &t, LitSpan const &c) override { os_ << "9 4 " << id; put(t); put(c); nl(); }
    void theoryAtom(Id_t a, Id_t t, IdSpan const &e) override { os_ << "9 5 " << a << " " << t; put(e); nl(); }
    void theoryAtom(Id_t a, Id_t t, IdSpan const &e, Id_t op, Id_t rhs) override { os_ << "9 6 " << a << " " << t; put(e); os_ << " " << op << " " << rhs; nl(); }
    void endStep() override { os_ << "0\n"; }

  private:
    void nl() { os_ << "\n"; }
    void str(StringSpan const &s) { os_ << s.size << " "; os_.write(s.first, static_cast<std::streamsize>(s.size)); }
    template <class T> void put(Span<T> const &s) {
        os_ << " " << s.size;
        for (auto const &x : s) { one(x); }
    }
    void one(Id_t x) { os_ << " " << x; }
    void one(Lit_t x) { os_ << " " << x; }
    void one(WeightLit_t const &x) { os_ << " " << x.lit << " " << x.weight; }
    std::ostream &os_;
};

inline int readAspif(std::istream &, AbstractProgram &) { throw std::runtime_error("not available"); }

} // namespace Potassco
