-- Backends and observers (C10).
local arr = json.arr
local extn = {True = "t", False = "f", Free = "u", Release = "r"}
local heun = {Level = "level", Sign = "sign", Factor = "factor", Init = "init", True = "true", False = "false"}
local extt = {t = "True", f = "False", u = "Free", r = "Release"}
local ALL = {"init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term", "external",
    "assume", "heuristic", "acyc_edge", "theory_term_number", "theory_term_string", "theory_term_compound", "theory_element",
    "theory_atom", "theory_atom_with_guard"}
local function raw(n, i, x)
    if type(x) == "table" then
        local r = arr()
        for j, y in ipairs(x) do r[j] = raw(nil, nil, y) end
        return r
    elseif type(x) == "userdata" then
        local t = tostring(x)
        if n == "external" then return extn[t] end
        if n == "heuristic" then return heun[t] end
        return t
    end
    return x
end
function ops.observe(s)
    local has, log, o = {}, {}, {}
    for _, x in ipairs(s.has) do has[x] = true end
    for _, n in ipairs(ALL) do
        if has[n] or (has.theory and n:sub(1, 6) == "theory") then
            o[n] = function(self, ...)
                if self ~= o then error("self") end
                local e, a = arr(), table.pack(...)
                e[1] = n
                for i = 1, a.n do e[i + 1] = raw(n, i, a[i]) end
                log[#log + 1] = e
            end
        end
    end
    D.recs = D.recs or {}
    if s.replace then D.ctl:register_observer(o, true) else D.ctl:register_observer(o) end
    D.recs[#D.recs + 1] = {s.id, log}
end
function ops.state(s)
    local b = D.ctl:backend()
    local function at(a)
        if not D.aux[a] then
            if a:sub(1, 1) == "_" then D.aux[a] = b:add_atom() else D.aux[a] = b:add_atom(sym(a)) end
        end
        return D.aux[a]
    end
    local function lit(l) if l:sub(1, 1) == "~" then return -at(l:sub(2)) end return at(l) end
    local function map(f, x) local r = {} for i, y in ipairs(x) do r[i] = f(y) end return r end
    local function wl(x) return {lit(x[1]), x[2]} end
    for _, st in ipairs(s.stmts) do
        local k = st.k
        if k == "rule" then
            local h, bd = map(at, st.head), map(lit, st.body)
            if st.ch then b:add_rule{h, bd, true}
            elseif #bd > 0 then b:add_rule{head = h, body = bd}
            else b:add_rule{h} end
        elseif k == "weight_rule" then
            local h = map(at, st.head)
            if st.ch then b:add_weight_rule{h, st.lo, map(wl, st.body), true}
            else b:add_weight_rule{head = h, lower = st.lo, body = map(wl, st.body)} end
        elseif k == "minimize" then b:add_minimize{st.p, map(wl, st.body)}
        elseif k == "external" then
            if st.v == "f" and st.dflt then b:add_external(at(st.a)) else b:add_external(at(st.a), clingo.ExternalType[extt[st.v]]) end
        elseif k == "atom" then
            local l = at(st.a)
            if st.a:sub(1, 1) ~= "_" and b:add_atom(sym(st.a)) ~= l then error("atom") end
        else error("unknown statement " .. k) end
    end
    b:close()
end
function ops.text(s)
    local p = "t" .. s.n
    if s.n == 1 then
        D.ctl:add("base", {}, "#theory t { x {}; &ta/1 : x, {<=}, x, head }.")
        D.ctl:ground{{"base", {}}}
    end
    D.ctl:add(p, {}, s.text)
    D.ctl:ground{{p, {}}}
end
function ops.stepend(s)
    local names, logs = arr(), arr()
    for k, v in pairs(D.aux) do local e = arr(); e[1] = v; e[2] = k; names[#names + 1] = e end
    for x in D.ctl.symbolic_atoms:iter() do local e = arr(); e[1] = x.literal; e[2] = tostring(x.symbol); names[#names + 1] = e end
    local r = D.ctl:solve()
    for i, rec in ipairs(D.recs) do
        local l = arr()
        for j, x in ipairs(rec[2]) do l[j] = x end
        logs[i] = {id = rec[1], log = l}
        for j = #rec[2], 1, -1 do rec[2][j] = nil end
    end
    return {names = names, logs = logs, cut = r.unknown}
end
