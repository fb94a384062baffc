-- Interrupting searches (C25)
local function fl(r)
    local s = r.satisfiable and "S" or r.unsatisfiable and "U" or "?"
    return s .. (r.exhausted and "e" or "") .. (r.interrupted and "i" or "")
end
local Pr = {}
Pr.__index = Pr
function Pr:begin(pt, k, f) self.pt, self.k, self.f, self.n = pt, k, f, {} end
function Pr:at(ev)
    self.n[ev] = (self.n[ev] or 0) + 1
    if self.pt == ev and self.n[ev] == self.k then self.f() end
end
function Pr:init(init)
    init.check_mode = clingo.PropagatorCheckMode.Total
    for a in init.symbolic_atoms:iter() do
        local l = init:solver_literal(a.literal)
        init:add_watch(l)
        init:add_watch(-l)
    end
    self:at("init")
end
function Pr:propagate(c, ch) self:at("prop") end
function Pr:check(c) self:at("check") end
function Pr:undo(t, a, ch) self:at("undo") end

function ops.in_new(s)
    local args = {"0"}
    if s.t > 1 then args[2] = "-t" .. s.t end
    D.ctl = clingo.Control(args, function() end, 0)
    D.ctl:add("base", {}, "{a(1.." .. s.n .. ")}. {hard}. 1{p(X,Y):Y=1..12}1 :- X=1..13, hard. :- p(X,Y),p(X2,Y),X<X2.")
    D.ctl:add("g", {"s"}, "#external g(@intr(s)).")
    D.ctl:ground({{"base", {}}})
    D.pr = setmetatable({}, Pr)
    D.ctl:register_propagator(D.pr)
    D.gi = 0
    return "ok"
end
function ops.in_int(s)
    if s.via == "main" then D.ctl:interrupt()
    else
        D.gi = D.gi + 1
        D.ctl:ground({{"g", {clingo.Number(D.gi)}}}, {intr = function(self, x) D.ctl:interrupt() return x or self end})
    end
    return "ok"
end
function ops.in_solve(s)
    local ctl, pt, k = D.ctl, s.pt, s.k
    ctl.configuration.solve.models = s.lim
    local log, seen, fin, y, n, dup = "", {}, {}, 0, 0, false
    D.pr:begin(pt, k, function() ctl:interrupt() end)
    local args = {assumptions = {{clingo.Function("hard"), false}}}
    local function on_model(m)
        log = log .. "M"
        n = n + 1
        local t = {}
        for _, x in ipairs(m:symbols{atoms = true}) do t[#t + 1] = tostring(x) end
        table.sort(t)
        local key = table.concat(t, " ")
        dup = dup or seen[key]
        seen[key] = true
        if pt == "model" and n == k then ctl:interrupt() end
        if pt == "stop" and n == k then return false end
    end
    local function on_finish(r) log = log .. "F" fin[#fin + 1] = fl(r) if pt == "finish" then ctl:interrupt() end end
    local r
    if s.how == "sync" then
        args.on_model = on_model
        args.on_finish = on_finish
        r = ctl:solve(args)
    else
        args.yield = true
        local h = ctl:solve(args)
        for m in h:iter() do
            y = y + 1
            on_model(m)
            if pt == "cancel" and y == k then h:cancel() break end
            if pt == "iy" and y == k then ctl:interrupt() end
        end
        r = h:get()
        if pt == "after" then ctl:interrupt() end
        h:close()
        log = ("M"):rep(n)
        fin[1] = fl(r)
    end
    local rest = log:sub(n + 1)
    return {m = n, log = s.how == "y" and "" or rest:find("M") and log or ((n > 0 and "M" or "") .. rest), res = fl(r), y = y, over = #fin == 1 and fin[1] == fl(r) and not dup}
end
function ops.in_hard(s)
    local ctl = D.ctl
    local log, fin = "", {}
    D.pr:begin("prop", 1, function() ctl:interrupt() end)
    local r = ctl:solve{assumptions = {{clingo.Function("hard"), true}}, on_model = function() log = log .. "M" end, on_finish = function(x) log = log .. "F" fin[#fin + 1] = fl(x) end}
    return {log = log, res = fl(r), over = #fin == 1 and fin[1] == fl(r), early = false}
end
