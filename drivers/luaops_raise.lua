-- Callbacks that raise (C06).
local R
local function nothing() end
local function raise(s)
    if s.kind == "nested" then
        if s.swallow then pcall(clingo.parse_term, "f(", nothing); return end
        clingo.parse_term("f(", nothing)
    end
    error(s.msg)
end
local function hit(name)
    if R.arm ~= name then return end
    R.arm = ""
    raise(R.s)
end
function ops.r_new(s)
    R = {arm = ""}
    local obs = {}
    for _, n in ipairs{"rule", "output_atom", "begin_step", "end_step", "external", "minimize", "weight_rule"} do
        obs[n] = function() hit(n) end
    end
    local prop = {
        init = function(self, init)
            for x in init.symbolic_atoms:iter() do
                init:add_watch(init:solver_literal(x.literal))
                init:add_watch(-init:solver_literal(x.literal))
            end
            hit("init")
        end,
        propagate = function() hit("propagate") end,
        check = function() hit("check") end,
        decide = function(self, tid, ass, fallback) hit("decide"); return fallback end,
    }
    local c = clingo.Control({"0"}, nothing)
    R.ctl, R.ctx = c, {f = function(self, x) hit("f"); return x end}
    c:register_observer(obs)
    c:register_propagator(prop)
    c:add("base", {}, "{a;b}. c:-a. #external e. d(@f(1)).")
    c:add("q", {"t"}, "{x(@f(t));y(t)}.")
end
local function armed(f)
    return function(s)
        R.arm, R.s = s.arm or "", s
        local ok, e = pcall(f, s)
        R.arm = ""
        if not ok then error(e, 0) end
        return "ok"
    end
end
ops.r_ground = armed(function(s)
    R.ctl:ground({{s.part, s.part == "base" and {} or {clingo.Number(s.i)}}}, R.ctx)
end)
ops.r_backend = armed(function(s)
    local b = R.ctl:backend()
    local u, v = b:add_atom(), b:add_atom()
    b:add_rule{{u}, {v}}
    b:add_external(v)
    b:add_minimize{0, {{u, 0}}}
    b:close()
end)
function ops.r_bseq(s)
    local r = {}
    local b = R.ctl:backend()
    local u, v = b:add_atom(), b:add_atom()
    local run = {
        rule = function() b:add_rule{{u}, {v}} end,
        external = function() b:add_external(v) end,
        minimize = function() b:add_minimize{0, {{u, 0}}} end,
        weight_rule = function() b:add_weight_rule{{u}, 1, {{v, 1}}} end,
    }
    for i, x in ipairs(s.items) do
        R.arm, R.s = x.on and x.f or "", x
        local ok, e = pcall(run[x.f])
        R.arm = ""
        r[i] = ok and {exc = "ok", msg = ""} or {exc = "error", msg = tostring(e)}
    end
    b:close()
    return r
end
ops.r_external = armed(function(s) R.ctl:assign_external(clingo.Function("e"), s.v) end)
ops.r_solve = armed(function(s)
    if s.mode == "sync" then
        assert(R.ctl:solve{on_model = function() hit("on_model") end}.satisfiable, "result")
        return
    end
    local h = R.ctl:solve{yield = true}
    local function use()
        for _ in h:iter() do end
        assert(h:get().satisfiable, "result")
    end
    if s.catch == "in" then
        local ok, e = pcall(use)
        h:close()
        if not ok then error(e, 0) end
    else
        use()
        h:close()
    end
end)
function ops.r_bad(s)
    local w = s.what
    if w == "add" then clingo.Control({}, nothing):add("base", {}, "a :- ")
    elseif w == "parse" then clingo.parse_term("f(,", nothing)
    elseif w == "load" then clingo.Control({}, nothing):load("/does/not/exist.lp")
    else clingo.Control({"--no-such-option"}, nothing) end
end
