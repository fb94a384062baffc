// Applications (C18): every run in a child process inside a scratch directory
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace ap {
struct App : Application {
    json const &s;
    FILE *f;
    std::map<std::string, bool> flags;
    App(json const &s, FILE *f) : s(s), f(f) {}
    void ev(json const &x) {
        std::string t = x.dump(-1, ' ', false, json::error_handler_t::replace);
        fprintf(f, "%s\n", t.c_str());
        fflush(f);
    }
    json flagvals() {
        json r = json::array();
        for (auto &x : flags) { json y = json::array(); y.push_back(x.first); y.push_back(x.second); y.push_back(x.second); r.push_back(y); }
        return r;
    }
    unsigned message_limit() const noexcept override { int l = s["limit"]; return l >= 0 ? l : Application::message_limit(); }
    char const *program_name() const noexcept override {
        auto const &n = s["name"].get_ref<std::string const &>();
        return n.empty() ? Application::program_name() : n.c_str();
    }
    char const *version() const noexcept override {
        auto const &n = s["version"].get_ref<std::string const &>();
        return n.empty() ? Application::version() : n.c_str();
    }
    void main(Control &ctl, StringSpan files) override {
        json fs = json::array();
        for (auto const *x : files) { fs.push_back(x); }
        ev(json::array({"main", fs, flagvals(), true}));
        std::string m = s["main"];
        if (m == "raise") { throw std::runtime_error("main boo"); }
        for (auto const *x : files) { ctl.load(x); }
        ctl.add("base", {}, s["text"].get<std::string>().c_str());
        ctl.ground({{"base", {}}});
        if (m == "nosolve") { return; }
        for (int i = 0, e = m == "twice" ? 2 : 1; i < e; ++i) {
            auto r = ctl.solve(LiteralSpan{}, nullptr, false, false).get();
            ev(json::array({"result", r.is_satisfiable() ? "SAT" : r.is_unsatisfiable() ? "UNSAT" : "UNKNOWN"}));
        }
        if (m == "solve_raise") { throw std::runtime_error("main boo"); }
    }
    void log(WarningCode code, char const *msg) noexcept override {
        if (s["log"].get<bool>()) { ev(json::array({"log", code == WarningCode::AtomUndefined ? "AtomUndefined" : code == WarningCode::RuntimeError ? "RuntimeError" : "Other", msg})); }
        else { Application::log(code, msg); }
    }
    void print_model(Model const &m, std::function<void()> printer) noexcept override {
        std::string p = s["printer"];
        if (p == "none") { Application::print_model(m, printer); return; }
        std::vector<std::string> t;
        for (auto &x : m.symbols(ShowType::Shown)) { t.push_back(x.to_string()); }
        std::sort(t.begin(), t.end());
        std::string a;
        for (auto &x : t) { a += (a.empty() ? "" : " ") + x; }
        ev(json::array({"model", m.number(), a}));
        printf("PM %d\n", static_cast<int>(m.number()));
        fflush(stdout);
        for (int i = 0, e = p == "call" ? 1 : p == "twice" ? 2 : 0; i < e; ++i) { printer(); }
        if (p == "call") { printf("PE %d\n", static_cast<int>(m.number())); }
    }
    void register_options(ClingoOptions &o) override {
        if (s["register"] == "none") { return; }
        ev(json::array({"register"}));
        if (s["register"] == "raise") { throw std::runtime_error("register boo"); }
        for (auto &x : s["opts"]) {
            std::string g = x["group"], n = x["names"], d = x["desc"], a = x["arg"], l = x["long"];
            if (x["kind"] == "flag") {
                bool &t = flags[l];
                t = x["init"];
                o.add_flag(g.c_str(), n.c_str(), d.c_str(), t);
                continue;
            }
            auto p = [this, l](char const *v) {
                ev(json::array({"parse", l, v}));
                if (std::string(v) == "boom") { throw std::runtime_error("parser boo"); }
                return std::string(v) != "bad";
            };
            if (!a.empty()) { o.add(g.c_str(), n.c_str(), d.c_str(), p, x["multi"], a.c_str()); }
            else if (x["multi"].get<bool>()) { o.add(g.c_str(), n.c_str(), d.c_str(), p, true); }
            else { o.add(g.c_str(), n.c_str(), d.c_str(), p); }
        }
    }
    void validate_options() override {
        std::string v = s["validate"];
        if (v == "none") { return; }
        ev(json::array({"validate", flagvals()}));
        if (v != "true") { throw std::runtime_error("validate boo"); }
    }
};
inline std::string slurp(std::string const &p) {
    std::ifstream i(p);
    std::stringstream o;
    o << i.rdbuf();
    return o.str();
}
} // namespace ap

OP(ap_run) {
    char d1[] = "/tmp/vf-app-XXXXXX", d2[] = "/tmp/vf-app-XXXXXX";
    std::string dir = mkdtemp(d1), side = mkdtemp(d2);
    for (auto &x : s["files"]) { std::ofstream(dir + "/" + x[0].get<std::string>()) << x[1].get<std::string>(); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int code = 99;
        if (chdir(dir.c_str()) != 0) { _exit(98); }
        dup2(open((side + "/out").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600), 1);
        dup2(open((side + "/err").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600), 2);
        dup2(open("/dev/null", O_RDONLY), 0);
        FILE *f = fopen((side + "/ev").c_str(), "a");
        try {
            ap::App app(s, f);
            std::vector<std::string> a;
            for (auto &x : s["cmd"]) { a.push_back(x); }
            std::vector<char const *> args;
            for (auto &x : a) { args.push_back(x.c_str()); }
            code = clingo_main(app, args);
        } catch (std::exception const &e) { fprintf(stderr, "EXCEPTION %s\n", e.what()); }
        std::cout.flush();
        fflush(nullptr);
        _exit(code & 255);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    json r = {{"code", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)}, {"ev", json::array()}, {"out", ap::slurp(side + "/out")}, {"err", ap::slurp(side + "/err")}};
    std::ifstream i(side + "/ev");
    std::string l;
    while (std::getline(i, l)) { r["ev"].push_back(json::parse(l)); }
    for (auto &x : s["files"]) { unlink((dir + "/" + x[0].get<std::string>()).c_str()); }
    for (auto n : {"/out", "/err", "/ev"}) { unlink((side + n).c_str()); }
    rmdir(dir.c_str());
    rmdir(side.c_str());
    return r;
}
