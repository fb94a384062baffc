#pragma once
#include <memory>
#include <potassco/basic_types.h>
#include <vector>

namespace Potassco {

class TheoryTerm {
  public:
    using iterator = Id_t const *;
    Theory_t type() const { return type_; }
    int number() const { return num_; }
    char const *symbol() const { return sym_.c_str(); }
    int compound() const { return num_; }
    bool isFunction() const { return type_ == Theory_t::Compound && num_ >= 0; }
    bool isTuple() const { return type_ == Theory_t::Compound && num_ < 0; }
    Id_t function() const { return static_cast<Id_t>(num_); }
    Tuple_t tuple() const { return static_cast<Tuple_t>(num_); }
    uint32_t size() const { return static_cast<uint32_t>(args_.size()); }
    iterator begin() const { return args_.data(); }
    iterator end() const { return args_.data() + args_.size(); }
    IdSpan terms() const { return toSpan(args_); }

  private:
    friend class TheoryData;
    Theory_t type_ = Theory_t::Number;
    int num_ = 0;
    std::string sym_;
    std::vector<Id_t> args_;
};

class TheoryElement {
  public:
    using iterator = Id_t const *;
    uint32_t size() const { return static_cast<uint32_t>(args_.size()); }
    iterator begin() const { return args_.data(); }
    iterator end() const { return args_.data() + args_.size(); }
    IdSpan terms() const { return toSpan(args_); }
    Id_t condition() const { return cond_; }

  private:
    friend class TheoryData;
    std::vector<Id_t> args_;
    Id_t cond_ = 0;
};

class TheoryAtom {
  public:
    using iterator = Id_t const *;
    Id_t atom() const { return atom_; }
    Id_t term() const { return term_; }
    uint32_t size() const { return static_cast<uint32_t>(elems_.size()); }
    iterator begin() const { return elems_.data(); }
    iterator end() const { return elems_.data() + elems_.size(); }
    IdSpan elements() const { return toSpan(elems_); }
    Id_t const *guard() const { return guarded_ ? &op_ : nullptr; }
    Id_t const *rhs() const { return guarded_ ? &rhs_ : nullptr; }

  private:
    friend class TheoryData;
    Id_t atom_ = 0, term_ = 0, op_ = 0, rhs_ = 0;
    bool guarded_ = false;
    std::vector<Id_t> elems_;
};

class TheoryData {
  public:
    using atom_iterator = TheoryAtom const *const *;
    using Term = TheoryTerm;
    using Element = TheoryElement;
    static constexpr Id_t COND_DEFERRED = static_cast<Id_t>(-1);
    enum VisitMode { visit_all, visit_current };
    class Visitor {
      public:
        virtual ~Visitor() = default;
        virtual void visit(TheoryData const &data, Id_t termId, TheoryTerm const &t) = 0;
        virtual void visit(TheoryData const &data, Id_t elemId, TheoryElement const &e) = 0;
        virtual void visit(TheoryData const &data, TheoryAtom const &a) = 0;
    };
    void addTerm(Id_t id, int number) { fresh(terms_, id).num_ = number; }
    void addTerm(Id_t id, StringSpan const &name) {
        auto &t = fresh(terms_, id);
        t.type_ = Theory_t::Symbol;
        t.sym_.assign(name.first, name.size);
    }
    void addTerm(Id_t id, char const *name) { addTerm(id, toSpan(name)); }
    void addTerm(Id_t id, Id_t fun, IdSpan const &args) { compound(id, static_cast<int>(fun), args); }
    void addTerm(Id_t id, Tuple_t tup, IdSpan const &args) { compound(id, static_cast<int>(tup), args); }
    void addElement(Id_t id, IdSpan const &args, Id_t cond = 0) {
        auto &e = fresh(elems_, id);
        e.args_.assign(Potassco::begin(args), Potassco::end(args));
        e.cond_ = cond;
    }
    void setCondition(Id_t id, Id_t cond) { elems_[id]->cond_ = cond; }
    TheoryAtom const &addAtom(Id_t atomOrZero, Id_t term, IdSpan const &elems) { return addAtom(atomOrZero, term, elems, 0, 0, false); }
    TheoryAtom const &addAtom(Id_t atomOrZero, Id_t term, IdSpan const &elems, Id_t op, Id_t rhs) { return addAtom(atomOrZero, term, elems, op, rhs, true); }
    void removeTerm(Id_t id) { if (hasTerm(id)) { terms_[id].reset(); } }
    void update() { seenAtoms_ = static_cast<uint32_t>(atoms_.size()); }
    void reset() {
        terms_.clear();
        elems_.clear();
        atoms_.clear();
        owned_.clear();
        seenAtoms_ = 0;
    }
    bool empty() const { return atoms_.empty(); }
    uint32_t numAtoms() const { return static_cast<uint32_t>(atoms_.size()); }
    bool hasTerm(Id_t id) const { return id < terms_.size() && terms_[id]; }
    bool hasElement(Id_t id) const { return id < elems_.size() && elems_[id]; }
    atom_iterator begin() const { return atoms_.data(); }
    atom_iterator currBegin() const { return atoms_.data() + seenAtoms_; }
    atom_iterator end() const { return atoms_.data() + atoms_.size(); }
    TheoryTerm const &getTerm(Id_t id) const { return *terms_.at(id); }
    TheoryElement const &getElement(Id_t id) const { return *elems_.at(id); }
    void accept(Visitor &out, VisitMode m = visit_current) const {
        for (auto it = m == visit_all ? begin() : currBegin(); it != end(); ++it) { out.visit(*this, **it); }
    }
    void accept(TheoryTerm const &t, Visitor &out, VisitMode = visit_all) const {
        if (t.type() == Theory_t::Compound) {
            for (auto id : t) { out.visit(*this, id, getTerm(id)); }
            if (t.isFunction()) { out.visit(*this, t.function(), getTerm(t.function())); }
        }
    }
    void accept(TheoryElement const &e, Visitor &out, VisitMode = visit_all) const {
        for (auto id : e) { out.visit(*this, id, getTerm(id)); }
    }
    void accept(TheoryAtom const &a, Visitor &out, VisitMode = visit_all) const {
        out.visit(*this, a.term(), getTerm(a.term()));
        for (auto id : a) { out.visit(*this, id, getElement(id)); }
        if (a.guard() != nullptr) { out.visit(*this, *a.guard(), getTerm(*a.guard())); }
        if (a.rhs() != nullptr) { out.visit(*this, *a.rhs(), getTerm(*a.rhs())); }
    }

  private:
    template <class T> T &fresh(std::vector<std::unique_ptr<T>> &v, Id_t id) {
        if (id >= v.size()) { v.resize(id + 1); }
        v[id] = std::make_unique<T>();
        return *v[id];
    }
    void compound(Id_t id, int c, IdSpan const &args) {
        std::vector<Id_t> copy(Potassco::begin(args), Potassco::end(args));
        auto &t = fresh(terms_, id);
        t.type_ = Theory_t::Compound;
        t.num_ = c;
        t.args_ = std::move(copy);
    }
    TheoryAtom const &addAtom(Id_t a, Id_t term, IdSpan const &elems, Id_t op, Id_t rhs, bool g) {
        auto x = std::make_unique<TheoryAtom>();
        x->atom_ = a;
        x->term_ = term;
        x->elems_.assign(Potassco::begin(elems), Potassco::end(elems));
        x->op_ = op;
        x->rhs_ = rhs;
        x->guarded_ = g;
        atoms_.push_back(x.get());
        owned_.push_back(std::move(x));
        return *atoms_.back();
    }
    std::vector<std::unique_ptr<TheoryTerm>> terms_;
    std::vector<std::unique_ptr<TheoryElement>> elems_;
    std::vector<TheoryAtom const *> atoms_;
    std::vector<std::unique_ptr<TheoryAtom>> owned_;
    uint32_t seenAtoms_ = 0;
};

} // namespace Potassco
