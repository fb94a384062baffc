// The smodels format is not covered: statements are dropped.
#pragma once
#include <ostream>
#include <potassco/aspif.h>
namespace Potassco {
struct SmodelsOutput {
    SmodelsOutput(std::ostream &, bool, Atom_t) {}
};
class SmodelsConvert : public AspifOutput {
  public:
    SmodelsConvert(SmodelsOutput &, bool) : AspifOutput(null()) {}
  private:
    static std::ostream &null() { static std::ostream n(nullptr); return n; }
};
} // namespace Potassco
