-- Operations of the interface, through the interposer (C24, C06).
local arr, null = json.arr, json.null
local shim
local function S()
    if not shim then shim = package.loadlib(os.getenv("VF_SHIM"), "luaopen_vfshim")() end
    return shim
end
local N = "null"
local function opt(x) if x == N or x == null then return nil end return x end
local sym0 = sym
local function sym(x) if type(x) == "string" then return sym0(x) end return x end
-- arguments of types the JSON of the behaviours cannot express or the operation does not expect (C26)
local function raw(x)
    if type(x) ~= "table" then return x end
    if x.raw == "num" then return math.tointeger(x.v) or tonumber(x.v) end
    if x.raw == "str" then return x.v end
    if x.raw then return setmetatable({}, {__index = function() return nil end}) end
    local r = arr()
    for i, y in ipairs(x) do r[i] = raw(y) end
    return r
end
local function list(x) if type(x) ~= "table" then return x end local r = {} for i, y in ipairs(x) do r[i] = y end return r end
local function pairs_(x)
    if type(x) ~= "table" then return x end
    local r = {}
    for i, y in ipairs(x) do r[i] = list(y) end
    return r
end
local function syms(x) if type(x) ~= "table" then return x end local r = {} for i, y in ipairs(x) do r[i] = sym(y) end return r end
local function strs(x) local r = arr() for i, y in ipairs(x) do r[i] = tostring(y) end return r end
local extt = {t = "True", f = "False", u = "Free", r = "Release"}
local function tv(x) if x == "t" then return true elseif x == "f" then return false end return nil end
local function ref(x) if type(x) == "string" then return sym(x) end return x end
local function nn(x) if x == nil then return N end return x end
local function res(r)
    return {sat = nn(r.satisfiable), unsat = nn(r.unsatisfiable), unknown = r.unknown, exh = r.exhausted, int = r.interrupted}
end
local cms = {none = "Off", total = "Total", fixpoint = "Fixpoint", both = "Both"}
local wct = {equivalence = 0, right = 1, left = -1}
local T = {}
T.backend = {
    add_rule = function(b, a)
        local t = {list(a[2])}
        if opt(a[3]) then t[2] = list(a[3]) end
        if opt(a[1]) ~= nil then
            if t[2] then t[3] = a[1] else t.choice = a[1] end
        end
        b:add_rule(t)
    end,
    add_weight_rule = function(b, a)
        local t = {list(a[2]), a[3], pairs_(a[4])}
        if opt(a[1]) ~= nil then t[4] = a[1] end
        b:add_weight_rule(t)
    end,
    add_minimize = function(b, a) b:add_minimize{priority = a[1], body = pairs_(a[2])} end,
    add_external = function(b, a) if opt(a[2]) then b:add_external(a[1], clingo.ExternalType[extt[a[2]]]) else b:add_external(a[1]) end end,
    add_atom = function(b, a) if opt(a[1]) then return b:add_atom(sym(a[1])) end return b:add_atom() end,
}
local function solve(c, a, t)
    if opt(a[1]) then t.assumptions = list(a[1]) end
    return c:solve(t)
end
T.control = {
    add = function(c, a) c:add(a[1], list(a[2]), a[3]) end,
    load = function(c, a) c:load(a[1]) end,
    ground = function(c, a)
        local ps = {}
        for i, p in ipairs(a[1]) do ps[i] = {p[1], syms(p[2])} end
        c:ground(ps)
    end,
    cleanup = function(c) c:cleanup() end,
    assign_external = function(c, a) c:assign_external(ref(a[1]), tv(a[2])) end,
    release_external = function(c, a) c:release_external(ref(a[1])) end,
    is_conflicting = function(c) return c.is_conflicting end,
    get_enumeration_assumption = function(c) return c.enable_enumeration_assumption end,
    get_cleanup = function(c) return c.enable_cleanup end,
    set_enumeration_assumption = function(c, a) c.enable_enumeration_assumption = a[1] end,
    set_cleanup = function(c, a) c.enable_cleanup = a[1] end,
    interrupt = function(c) c:interrupt() end,
    get_const = function(c, a) return tostring(c:get_const(a[1])) end,
    solve = function(c, a) return res(solve(c, a, {})) end,
    solve_cb = function(c, a) return res(solve(c, a, {on_model = function() end})) end,
    solve_yield = function(c, a)
        local h = solve(c, a, {yield = true})
        for _ in h:iter() do end
        local r = res(h:get())
        h:close()
        return r
    end,
}
local mtypes = {StableModel = "stable", BraveConsequences = "brave", CautiousConsequences = "cautious"}
T.model = {
    number = function(m) return m.number end,
    thread_id = function(m) return m.thread_id end,
    optimality_proven = function(m) return m.optimality_proven end,
    type = function(m) return mtypes[tostring(m.type)] end,
    contains = function(m, a) return m:contains(sym(a[1])) end,
    is_true = function(m, a) return m:is_true(a[1]) end,
    extend = function(m, a) m:extend(syms(a[1])) end,
    cost = function(m) return arr(m.cost) end,
    symbols = function(m, a) return strs(m:symbols{atoms = a[1], terms = a[2], shown = a[3], theory = a[4], complement = a[5]}) end,
}
T.mctl = {
    add_clause = function(c, a) c:add_clause(list(a[1])) end,
    add_nogood = function(c, a) c:add_nogood(list(a[1])) end,
}
T.handle = {
    get = function(h) return res(h:get()) end,
    resume = function(h) h:resume() end,
    cancel = function(h) h:cancel() end,
    core = function(h) local c = h:core() if c == nil then return N end return arr(c) end,
}
T.init = {
    solver_literal = function(i, a) return i:solver_literal(a[1]) end,
    add_watch = function(i, a) if opt(a[2]) then i:add_watch(a[1], a[2]) else i:add_watch(a[1]) end end,
    number_of_threads = function(i) return i.number_of_threads end,
    set_check_mode = function(i, a) i.check_mode = clingo.PropagatorCheckMode[cms[a[1]]] end,
    get_check_mode = function(i) for k, v in pairs(cms) do if i.check_mode == clingo.PropagatorCheckMode[v] then return k end end end,
    add_literal = function(i, a) if opt(a[1]) ~= nil then return i:add_literal(a[1]) end return i:add_literal() end,
    add_clause = function(i, a) return i:add_clause(list(a[1])) end,
    add_weight_constraint = function(i, a)
        if opt(a[4]) then return i:add_weight_constraint(a[1], pairs_(a[2]), a[3], wct[a[4]], a[5]) end
        return i:add_weight_constraint(a[1], pairs_(a[2]), a[3])
    end,
    add_minimize = function(i, a) if opt(a[3]) then i:add_minimize(a[1], a[2], a[3]) else i:add_minimize(a[1], a[2]) end end,
    propagate = function(i) return i:propagate() end,
}
local function cl(a)
    local t = {list(a[1])}
    if opt(a[2]) ~= nil then t.tag = a[2] end
    if opt(a[3]) ~= nil then t.lock = a[3] end
    return t
end
T.pctl = {
    thread_id = function(c) return c.thread_id end,
    add_literal = function(c) return c:add_literal() end,
    add_watch = function(c, a) c:add_watch(a[1]) end,
    has_watch = function(c, a) return c:has_watch(a[1]) end,
    remove_watch = function(c, a) c:remove_watch(a[1]) end,
    add_clause = function(c, a) return c:add_clause(cl(a)) end,
    add_nogood = function(c, a) return c:add_nogood(cl(a)) end,
    propagate = function(c) return c:propagate() end,
}
local function tvn(x) if x == nil then return "u" elseif x then return "t" end return "f" end
T.ass = {
    level = function(s, a) return s:level(a[1]) end,
    decision = function(s, a) return s:decision(a[1]) end,
    is_fixed = function(s, a) return s:is_fixed(a[1]) end,
    is_true = function(s, a) return s:is_true(a[1]) end,
    is_false = function(s, a) return s:is_false(a[1]) end,
    value = function(s, a) return tvn(s:value(a[1])) end,
    has_literal = function(s, a) return s:has_lit(a[1]) end,
    has_conflict = function(s) return s.has_conflict end,
    decision_level = function(s) return s.decision_level end,
    root_level = function(s) return s.root_level end,
    is_total = function(s) return s.is_total end,
    size = function(s) return #s end,
    trail_size = function(s) return #s.trail end,
    trail_begin = function(s, a) return s.trail:first(a[1]) end,
    trail_end = function(s, a) return s.trail:last(a[1]) end,
    at = function(s, a) return s[a[1]] end,
    trail_at = function(s, a) return s.trail[a[1]] end,
    iter = function(s) local r = arr() for l in s:iter() do r[#r + 1] = l end return r end,
    trail_iter = function(s) local r = arr() for l in s.trail:iter() do r[#r + 1] = l end return r end,
    pairs = function(s) local r = arr() for i, l in pairs(s) do r[i] = l end return r end,
    trail_pairs = function(s) local r = arr() for i, l in pairs(s.trail) do r[i] = l end return r end,
}

local function returned(v)
    local c = clingo.Control{"0"}
    c:add("base", {}, "p(@f()).")
    c:ground({{"base", {}}}, {f = function() return v end})
    for x in c.symbolic_atoms:iter() do return tostring(x.symbol) end
end
T.make = {
    decided = function(_, a)
        local c = clingo.Control{"0"}
        c:add("base", {}, "{a;b}.")
        c:ground{{"base", {}}}
        c:register_propagator{decide = function() return a[1] end}
        c:solve()
    end,
    signature = function(_, a)
        local c, n = clingo.Control{"0"}, 0
        c:add("base", {}, "a(1..3). a.")
        c:ground{{"base", {}}}
        for _ in c.symbolic_atoms:by_signature(a[1], a[2]) do n = n + 1 end
        return n
    end,
    number = function(_, a) return tostring(clingo.Number(a[1])) end,
    string = function(_, a) return tostring(clingo.String(a[1])) end,
    ["function"] = function(_, a) return tostring(clingo.Function(a[1], syms(a[2]), a[3])) end,
    tuple = function(_, a) return tostring(clingo.Tuple(syms(a[1]))) end,
    control = function(_, a) clingo.Control(list(a[1])) end,
    limit = function(_, a) clingo.Control({}, nil, a[1]) end,
    parse_term = function(_, a) return tostring(clingo.parse_term(a[1])) end,
    returned = function(_, a) return returned(sym(a[1])) end,
    returned_list = function(_, a) return returned(syms(a[1])) end,
}

local function items(tab, obj, its, names)
    local out = arr()
    for i, it in ipairs(its) do
        S().clear(); S().drop()
        for _, s in ipairs(it.script) do S().script(json.encode(s)) end
        local a = raw(it.a or {})
        S().record(true)
        local ok, r = pcall(tab[it.m], obj, a)
        S().record(false)
        if not ok then r = {exc = "error", msg = tostring(r)} end
        if r == nil then r = N end
        local w, calls = {}, arr()
        for _, f in ipairs(it.watch) do w[f] = true end
        for _, c in ipairs(json.decode(S().log())) do
            if w[c.f] then
                for k, v in pairs(c.a) do if v == null then c.a[k] = N end end
                if (c.f == "control_assign_external" or c.f == "control_release_external") and type(a[1]) == "string" then
                    c.a.literal = {atom = names[c.a.literal] or "?"}
                end
                calls[#calls + 1] = {f = c.f, a = c.a}
            end
        end
        S().clear(); S().drop()
        out[i] = {calls = calls, res = r}
    end
    return out
end

function ops.scene(s)
    S().reset()
    local sc, out, done = s.scene, arr(), false
    local ctl = clingo.Control{"1"}
    ctl:add("base", {}, "{a(1..3)}. b. #external e.")
    ctl:ground{{"base", {}}}
    local names = {}
    for x in ctl.symbolic_atoms:iter() do names[x.literal] = tostring(x.symbol) end
    local function go(tab, obj)
        if not done then done = true; out = items(tab, obj, s.items, names) end
    end
    if sc == "backend" then
        local b = ctl:backend()
        go(T.backend, b)
        b:close()
    elseif sc == "make" then go(T.make, nil)
    elseif sc == "control" then go(T.control, ctl)
    elseif sc == "model" then ctl:solve{on_model = function(m) go(T.model, m) end}
    elseif sc == "mctl" then ctl:solve{on_model = function(m) go(T.mctl, m.context) end}
    elseif sc == "handle" then
        local h = ctl:solve{yield = true}
        go(T.handle, h)
        h:close()
    else
        local p = {}
        function p:init(i) if sc == "init" then go(T.init, i) end end
        function p:check(c)
            if sc == "pctl" then go(T.pctl, c) elseif sc == "ass" then go(T.ass, c.assignment) end
        end
        ctl:register_propagator(p)
        ctl:solve()
    end
    return {items = out}
end
