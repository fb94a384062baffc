-- Ownership of engine objects (C21).
local shim
local function S()
    if not shim then shim = package.loadlib(os.getenv("VF_SHIM"), "luaopen_vfshim")() end
    return shim
end
local function nothing() end
local function fault(f) S().script(json.encode{f = f, fault = {code = 1, msg = "injected"}}) end
local O = {}
function O.ow_ctl(s)
    local c = clingo.Control({"0"}, nothing)
    c:add("base", {}, "a(1). {b(1..2)}. #external e.")
    c:ground{{"base", {}}}
    D.sl[s.s] = {k = "ctl", o = c}
end
function O.ow_bad(s) clingo.Control({"--no-such-option"}, nothing) end
local function make(c, k)
    if k == "handle" then return c:solve{yield = true} end
    if k == "backend" then return c:backend() end
    if k == "conf" then return c.configuration end
    if k == "sub" then return c.configuration.solve end
    if k == "atoms" then return c.symbolic_atoms end
    if k == "arr" then return c.configuration.solver[1] end
    if k == "iter" then return c.symbolic_atoms:iter() end
    if k == "atom" then return c.symbolic_atoms:lookup(clingo.parse_term("a(1)")) end
    error("bug: " .. k)
end
function O.ow_open(s) D.sl[s.to] = {k = s.k, o = make(D.sl[s.s].o, s.k)} end
function O.ow_use(s)
    local x = D.sl[s.s]
    local o, k = x.o, x.k
    if k == "ctl" then local _ = #o.symbolic_atoms
    elseif k == "handle" then o:resume(); o:get()
    elseif k == "backend" then o:add_atom(clingo.Function("z")); o:add_rule{{o:add_atom()}}
    elseif k == "conf" then tostring(o.solve.models); local _ = o.keys
    elseif k == "arr" then tostring(o.heuristic); local _ = o.keys
    elseif k == "iter" then local a = o(); local _ = a and a.symbol
    elseif k == "sub" then tostring(o.models); local _ = o.keys
    elseif k == "atoms" then for a in o:iter() do local _ = a.symbol end
    elseif k == "atom" then local _ = {o.symbol, o.is_fact, o.literal}
    else error("bug: " .. k) end
end
function O.ow_close(s)
    local x = D.sl[s.s]
    if s.fault then fault(x.k == "handle" and "solve_handle_close" or "backend_end") end
    x.o:close()
end
function O.ow_scope(s)
    local h = make(D.sl[s.s].o, s.k)
    if s.how == "raise" then error("scope") end
    for m in h:iter() do local _ = m.number end
    h:close()
end
function O.ow_solve(s)
    local c, how = D.sl[s.s].o, s.how
    if how == "plain" then c:solve()
    elseif how == "raise" then c:solve{on_model = function(m) error("model") end}
    elseif how == "get" then fault("solve_handle_get"); c:solve()
    elseif how == "resume" then local h = c:solve{yield = true}; h:resume()
    elseif how == "break" then
        local h = c:solve{yield = true}
        for m in h:iter() do break end
    elseif how == "yraise" then
        local h = c:solve{yield = true}
        for m in h:iter() do error("loop") end
    end
end
function O.ow_fault(s)
    fault(s.f)
    if s.f == "control_new" then clingo.Control({}, nothing) end
    local c = D.sl[s.s].o
    if s.f == "control_solve" then c:solve{yield = true} else c:backend() end
end
function O.ow_alias(s) D.sl[s.to] = D.sl[s.s] end
function O.ow_move(s) D.sl[s.to] = D.sl[s.s]; D.sl[s.s] = nil end
function O.ow_swap(s) D.sl[s.to], D.sl[s.s] = D.sl[s.s], D.sl[s.to] end
function O.ow_drop(s) D.sl[s.s] = nil end
function O.ow_end(s)
    for _, i in ipairs(s.close) do D.sl[i].o:close() end
    for _, i in ipairs(s.order) do D.sl[i] = nil end
end
function ops.ow_new(s)
    D.sl = {}
    collectgarbage() collectgarbage()
    S().reset()
    S().own_reset(true)
    S().record(true)
end
for k, f in pairs(O) do
    ops[k] = function(s)
        local ok, e = pcall(f, s)
        local r = ok and "ok" or "exc"
        if not ok and tostring(e):find("bug:", 1, true) then r = tostring(e) end
        e = nil
        collectgarbage() collectgarbage()
        local o = {r = r, own = json.decode(S().own())}
        if k == "ow_end" then S().record(false); S().own_reset(false) end
        return o
    end
end
