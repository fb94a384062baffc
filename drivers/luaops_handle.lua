-- Solve handles and events (C05).
local arr, null = json.arr, json.null
local shim
local function S()
    if not shim then shim = package.loadlib(os.getenv("VF_SHIM"), "luaopen_vfshim")() end
    return shim
end
local function nothing() end
local function fl(r)
    local s = r.satisfiable and "S" or r.unsatisfiable and "U" or "?"
    assert(r.unknown == (s == "?"), "unknown")
    if s == "?" then assert(r.satisfiable == nil and r.unsatisfiable == nil) else assert(r.satisfiable ~= r.unsatisfiable) end
    return s .. (r.exhausted and "e" or "") .. (r.interrupted and "i" or "")
end
function ops.h_new(s)
    S().reset()
    local c = clingo.Control({tostring(s.lim)}, nothing)
    c:add("base", {}, s.k > 0 and ("1{a(1.." .. s.k .. ")}1. #external e. :- e.") or "a :- not a. #external e.")
    c:ground{{"base", {}}}
    D.c = c
end
function ops.h_limit(s) D.c.configuration.solve.models = tostring(s.i); return "ok" end
local function new_seen() return {ok = true, d = {}} end
local function add(seen, m)
    local t = {}
    for i, x in ipairs(m:symbols{atoms = true}) do t[i] = tostring(x) end
    table.sort(t)
    t = table.concat(t, " ")
    if seen.d[m.number] == nil then seen.d[m.number] = t end
    local n = 0
    for _, x in pairs(seen.d) do if x == t then n = n + 1 end end
    if seen.d[m.number] ~= t or n ~= 1 then seen.ok = false end
    return m.number
end
local function closes()
    local n = 0
    for _, x in ipairs(json.decode(S().log())) do if x.f == "solve_handle_close" then n = n + 1 end end
    S().record(false)
    S().clear()
    return n
end
local function core(c)
    if c == nil then return "none" end
    local names = {}
    local e, a = D.c.symbolic_atoms:lookup(clingo.Function("e")), D.c.symbolic_atoms:lookup(clingo.Function("a", {clingo.Number(1)}))
    if e then names[e.literal] = "e" end
    if a then names[-a.literal] = "-a1" end
    local r = arr()
    for i, l in ipairs(c) do r[i] = names[l] or tostring(l) end
    return {bag = r}
end
function ops.h_solve(s)
    local log, seen = arr(), new_seen()
    D.log, D.seen = log, seen
    local t = {}
    for _, o in ipairs(s.on) do
        if o == "model" then
            t.on_model = function(m)
                log[#log + 1] = "M" .. add(seen, m)
                if m.number == s.stop then return false end
                if s.goon == "true" then return true end
            end
        else
            t.on_finish = function(r) log[#log + 1] = "F" .. fl(r) end
        end
    end
    if #s.ass > 0 then
        t.assumptions = {}
        for i, x in ipairs(s.ass) do
            t.assumptions[i] = x == "e" and {clingo.Function("e"), true} or {clingo.Function("a", {clingo.Number(1)}), false}
        end
    end
    if s.mode == "y" then t.yield = true end
    S().record(true)
    if s.mode == "sync" then
        local r = D.c:solve(t)
        return {result = fl(r), log = log, closes = closes(), same = seen.ok, core = "none"}
    end
    D.h = D.c:solve(t)
    return "ok"
end
local function model(m) return m and add(D.seen, m) or 0 end
function ops.h_get(s) return fl(D.h:get()) end
function ops.h_next(s)
    D.it = D.it or D.h:iter()
    return model(D.it())
end
function ops.h_resume(s) D.h:resume(); return "ok" end
function ops.h_cancel(s) D.h:cancel(); return "ok" end
function ops.h_core(s) return core(D.h:core()) end
function ops.h_rest(s)
    local r = arr()
    for m in D.h:iter() do
        r[#r + 1] = model(m)
        if #r == s.brk then break end
    end
    return r
end
function ops.h_leave(s)
    local h = D.h
    D.h, D.it = nil, nil
    if s.how == "normal" then h:close() end
    h = nil
    collectgarbage()
    collectgarbage()
    return {log = D.log, closes = closes(), same = D.seen.ok, how = s.how}
end
