// Replays behaviours through parts of libgringo: driver IN OUT
#include <fstream>
#include <functional>
#include <gringo/graph.hh>
#include <gringo/intervals.hh>
#include <iostream>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <sys/resource.h>

using json = nlohmann::json;
struct Driver {
    std::map<std::string, std::shared_ptr<void>> st;
    template <class T> T &get(char const *n) {
        auto &p = st[n];
        if (!p) { p = std::make_shared<T>(); }
        return *static_cast<T *>(p.get());
    }
};
using Op = std::function<json(Driver &, json const &)>;
static std::map<std::string, Op> &ops() { static std::map<std::string, Op> o; return o; }
struct Reg { Reg(char const *n, Op f) { ops()[n] = f; } };
#define OP(name) static json op_##name(Driver &d, json const &s); static Reg reg_##name(#name, op_##name); static json op_##name(Driver &d, json const &s)

#include "g_core.hh"
#ifdef VF_GRINGO
#include "gringo.hh"
#include "reify.hh"
#endif

int main(int argc, char **argv) {
    // (whatever does not end must not take the machine with it)
    rlimit mem{RLIM_INFINITY, RLIM_INFINITY};
    mem.rlim_cur = 2000ul << 20;
    setrlimit(RLIMIT_AS, &mem);
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        json beh = json::parse(line);
        json obs = json::array();
        {
            Driver d;
            for (auto &st : beh["steps"]) {
                auto it = ops().find(st["op"].get<std::string>());
                if (it == ops().end()) { std::cerr << "unknown operation " << st["op"] << std::endl; return 1; }
                json o;
                try { o = it->second(d, st); }
                catch (std::exception const &e) { o = json{{"exc", "error"}, {"msg", e.what()}}; }
                obs.push_back(o);
            }
        }
        out << json{{"id", beh["id"]}, {"obs", obs}}.dump() << "\n";
        out.flush();
    }
    return 0;
}
