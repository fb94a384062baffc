"""Generates the interposer: a library exporting the whole C API that records
every call, injects scripted failures and answers, and otherwise forwards to
the installed engine.  Works on a frozen copy of the header (frozen.h)."""
import re
import sys

HANDLES = ("control backend program_builder solve_handle solve_control model symbolic_atoms theory_atoms assignment propagate_init "
           "propagate_control configuration statistics ast options").split()
H = {"clingo_%s_t" % h for h in HANDLES}
STRUCT = {"clingo_location_t", "clingo_propagator_t", "clingo_ground_program_observer_t", "clingo_script_t", "clingo_application_t"}
CB = {"clingo_logger_t", "clingo_ground_callback_t", "clingo_solve_event_callback_t", "clingo_ast_callback_t"}
SKIP = {"clingo_ast_build", "clingo_error_string", "clingo_warning_string", "clingo_version"}


def decls(path):
    t = re.sub(r"//[^\n]*", "", open(path).read())
    t = t[t.index("typedef int32_t clingo_literal_t"):]
    for m in re.finditer(r"CLINGO_VISIBILITY_DEFAULT\s+([^;]*?)\s*;", t, re.S):
        d = re.sub(r"\s+", " ", m.group(1))
        m2 = re.match(r"(.*?)\b(clingo_\w+)\s*\((.*)\)$", d)
        if not m2 or "extern" in m2.group(1):
            continue
        yield m2.group(1).strip(), m2.group(2), m2.group(3).strip()


def params(s):
    out = []
    depth, cur = 0, ""
    for c in s:
        if c == "(":
            depth += 1
        if c == ")":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    r = []
    for p in out:
        p = p.strip()
        m = re.match(r"(.*)\(\*(\w+)\)(\(.*\))$", p)
        if m:
            r.append(("FN", m.group(2), p))
            continue
        m = re.match(r"(.*?)(\w+)$", p)
        r.append((m.group(1).strip(), m.group(2), p))
    return r


def gen(ret, name, ps):
    short = name[len("clingo_"):]
    sig = ", ".join(p[2] for p in ps)
    args = ", ".join(p[1] for p in ps)
    pre, post, ans = [], [], []
    i = 0
    typ = [p[0] for p in ps]
    while i < len(ps):
        t, n, _ = ps[i]
        nxt = ps[i + 1] if i + 1 < len(ps) else None
        issz = nxt and nxt[0] == "size_t" and "size" in nxt[1]
        isszp = nxt and nxt[0] == "size_t *"
        base = t.replace("const", "").replace("*", "").strip()
        stars = t.count("*")
        if t == "FN" or base in CB:
            pre.append('c.in("%s", %s != nullptr);' % (n, n))
        elif t == "void *":
            pass
        elif base in H and stars == 1:
            pre.append('c.in("%s", c.handle("%s", %s));' % (n, base[7:-2], n))
        elif base in H and stars == 2:
            post.append('if (%s) c.out("%s", c.handle("%s", *%s));' % (n, n, base[7:-2], n))
            ans.append('if (vf_a.count("%s")) *%s = (%s)vf_ptr(vf_a["%s"]);' % (n, n, re.sub(r"\*\*$", "*", t), n))
        elif base in STRUCT:
            if base == "clingo_location_t" and "const" not in t:
                post.append('c.out("%s", vf_json(*%s));' % (n, n))
                ans.append('(void)%s;' % n)
            else:
                pre.append('c.in("%s", vf_json(*%s));' % (n, n))
        elif t == "char *" and issz:
            post.append('c.out("%s", std::string(%s));' % (n, n))
            ans.append('if (vf_a.count("%s")) vf_copy(vf_a["%s"].get<std::string>(), %s, %s);' % (n, n, n, nxt[1]))
            pre.append('c.in("%s", %s);' % (nxt[1], nxt[1]))
            i += 1
        elif t == "char const *":
            pre.append('c.in("%s", vf_json(%s));' % (n, n))
        elif (t in ("char const *const *", "char const **") and issz) or ("const *" in t and stars == 1 and issz):
            pre.append('c.in("%s", vf_span(%s, %s));' % (n, n, nxt[1]))
            i += 1
        elif "const **" in t and isszp:
            post.append('c.out("%s", vf_span(*%s, *%s));' % (n, n, nxt[1]))
            ans.append('if (vf_a.count("%s")) vf_out_span(vf_a["%s"], %s, %s);' % (n, n, n, nxt[1]))
            i += 1
        elif stars == 1 and issz and "const" not in t:
            pre.append('c.in("%s", %s);' % (nxt[1], nxt[1]))
            if base != "clingo_signature_t":
                post.append('c.out("%s", vf_span(%s, %s));' % (n, n, nxt[1]))
            ans.append('if (vf_a.count("%s")) vf_out_arr(vf_a["%s"], %s, %s);' % (n, n, n, nxt[1]))
            i += 1
        elif t == "char const **":
            post.append('if (%s) c.out("%s", vf_json(*%s));' % (n, n, n))
            ans.append('if (vf_a.count("%s")) *%s = vf_str(vf_a["%s"]);' % (n, n, n))
        elif stars == 1 and "const" in t:  # optional input value
            pre.append('c.in("%s", %s ? vf_val<%s>(*%s) : json(nullptr));' % (n, n, base, n))
        elif stars == 1 and name == "clingo_backend_add_atom" and n == "symbol":
            pre.append('c.in("symbol", symbol ? vf_sym(*symbol) : json(nullptr));')
        elif stars == 1 and name == "clingo_options_add_flag":
            pre.append('c.in("target", target != nullptr);')
        elif stars == 1:
            conv = {"clingo_symbol_t": "vf_sym(*%s)" % n}.get(base, "json(*%s)" % n)
            post.append('if (%s) c.out("%s", %s);' % (n, n, conv))
            ans.append('if (vf_a.count("%s") && %s) vf_set%s(vf_a["%s"], *%s);' % (n, n, "_sym" if base == "clingo_symbol_t" else "", n, n))
        elif t == "void **":
            pass
        else:
            conv = {"clingo_symbol_t": "vf_sym(%s)" % n}.get(base, "json(%s)" % n)
            pre.append('c.in("%s", %s);' % (n, conv))
        i += 1
    fnp = "%s (*)(%s)" % (ret, sig)
    b = []
    b.append('extern "C" __attribute__((visibility("default"))) %s %s(%s) {' % (ret, name, sig))
    b.append('    using F = %s;' % fnp)
    b.append('    static F const real = (F)vf_real("%s");' % name)
    b.append('    if (vf_quiet()) return real(%s);' % args)
    b.append('    Call c("%s"); %s' % (short, " ".join(pre)))
    if short == "error_code" or short == "error_message":
        b = b[:-1]
        b.append('    return real(%s);' % args)
        b.append("}")
        return "\n".join(b)
    hook = "vf_hook_%s" % short
    if ret == "bool":
        b.append('    json vf_a; int act = c.script(vf_a);')
        b.append('    if (act == VF_FAULT) { if (!vf_before_fault("%s")) { c.ret(false); return false; } }' % short)
        b.append('    if (act == VF_ANSWER) { %s c.ret(vf_a.value("return", true)); return vf_a.value("return", true); }' % " ".join(ans))
        if short == "control_solve":
            b.append('    if (act == VF_EVENTS) vf_events(vf_a, notify, data);')
        b.append('    if (!real) vf_missing("%s");' % short)
        b.append('    bool r = c.real([&] { return real(%s); });' % args)
        b.append('    if (r) { %s }' % " ".join(post))
        b.append('    if (act == VF_FAULT) { vf_after_fault(vf_a); r = false; }')
        b.append('    c.ret(r); return r;')
    elif ret == "void":
        b.append('    json vf_a; if (c.script(vf_a) == VF_ANSWER) { %s c.ret(nullptr); return; }' % " ".join(ans))
        b.append('    if (!real) vf_missing("%s");' % short)
        b.append('    c.real([&] { real(%s); return true; });' % args)
        b.append('    %s c.ret(nullptr);' % " ".join(post))
    elif "*" in ret:
        base = ret.replace("const", "").replace("*", "").strip()
        b.append('    auto r = real(%s);' % args)
        b.append('    c.ret(c.handle("%s", r)); return r;' % base[7:-2] if base in H else '    c.ret(vf_json(r)); return r;')
    else:
        b.append('    json vf_a; if (c.script(vf_a) == VF_ANSWER) { %s v{}; vf_set(vf_a["return"], v); c.ret(v); return v; }' % ret)
        b.append('    if (!real) vf_missing("%s");' % short)
        b.append('    auto r = real(%s); c.ret(r); return r;' % args)
    b.append("}")
    return "\n".join(b)


def main(header, out):
    r = ['#include "shim.hh"', ""]
    for ret, name, p in decls(header):
        if name in SKIP:
            if name != "clingo_ast_build":
                ps = params(p)
                a = ", ".join(x[1] for x in ps)
                r.append('extern "C" __attribute__((visibility("default"))) %s %s(%s) { using F = %s (*)(%s); static F const real = (F)vf_real("%s"); return real(%s); }'
                         % (ret, name, p, ret, p, name, a))
            continue
        r.append(gen(ret, name, params(p)))
    open(out, "w").write("\n".join(r) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
