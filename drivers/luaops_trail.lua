-- Recording what propagators see (C07). Thread ids and positions are recorded from zero.
local arr, null = json.arr, json.null
local int = math.tointeger
local function list(it)
    local r = arr()
    for x in it do r[#r + 1] = int(x) end
    return r
end
local function snap(a)
    local t = a.trail
    local dl = a.decision_level
    local s = {dl = dl, root = a.root_level, conf = a.has_conflict, total = a.is_total, size = int(#a)}
    s.trail = list(t:iter())
    s.index, s.rev, s.begin, s["end"], s.dec, s.seg = arr(), arr(), arr(), arr(), arr(), arr()
    for i = 1, #t do
        s.index[i] = int(t[i])
        s.rev[i] = int(t[#t + 1 - i])
    end
    assert(t[#t + 1] == nil and a[#a + 1] == nil and a[0] == nil)
    for l = 0, dl do
        local f, e = int(t:first(l)), int(t:last(l))
        s.begin[l + 1], s["end"][l + 1] = f - 1, e
        s.dec[l + 1] = a:decision(l)
        local g = arr()
        for i = f, e do g[#g + 1] = int(t[i]) end
        s.seg[l + 1] = g
    end
    s.lits = list(a:iter())
    s.alits, s.vals = arr(), arr()
    for i, x in pairs(a) do s.alits[int(i)] = int(x) end
    for i = 1, #a do assert(a[i] == s.alits[i]) end
    local k = 0
    for i, x in pairs(t) do k = k + 1 assert(i == k and x == s.trail[k]) end
    assert(k == #t)
    for sign = 1, -1, -2 do
        for _, y in ipairs(s.lits) do
            local x = sign * y
            local v = a:value(x)
            local tr, fa = a:is_true(x), a:is_false(x)
            s.vals[#s.vals + 1] = arr{x, v == true and "t" or v == false and "f" or "u", tr, fa, not tr and not fa, a:is_fixed(x), v == nil and 0 or a:level(x), a:has_lit(x)}
        end
    end
    s.beyond = arr{a:has_lit(int(#a) + 1), a:has_lit(-int(#a) - 1)}
    return s
end
local function new_rec(conf, heur)
    local P = {conf = conf, log = arr(), full = false, k = 0}
    function P:rec(e, a, d)
        if #self.log >= conf.events then self.full = true return end
        d.ev = e
        if a then d.s = snap(a) end
        self.log[#self.log + 1] = d
    end
    function P:lit(l) return l[2] == 1 and self.map[l[1]] or -self.map[l[1]] end
    local function watchable(self)
        local seen, t = {}, {}
        for _, x in pairs(self.map) do if not seen[x] then seen[x] = true t[#t + 1] = x end end
        table.sort(t)
        return t
    end
    function P:init(init)
        local s = self.todo
        self.map = {}
        local names = {"b1", "b2", "c", "d"}
        for i = 1, conf.n do names[#names + 1] = "a" .. i end
        for _, n in ipairs(names) do
            local a = init.symbolic_atoms:lookup(clingo.Function(n))
            self.map[n] = a and init:solver_literal(a.literal) or -1
        end
        local m = {total = "Total", fixpoint = "Fixpoint", both = "Both", off = "Off"}
        init.check_mode = clingo.PropagatorCheckMode[m[conf.mode]]
        local n = init.number_of_threads
        local watch, unwatch = arr(), arr()
        for t = 1, n do watch[t] = arr() unwatch[t] = arr() init:set_state(t, {id = t}) end
        local w = s.watch
        for j, x in ipairs(watchable(self)) do
            for k = 0, 1 do
                local y = k == 0 and x or -x
                if w == "all" or (w == "pos" and k == 0) or (w == "neg" and k == 1) or (w == "some" and (j - 1 + k) % 2 == 0) then
                    init:add_watch(y)
                    for t = 1, n do watch[t][#watch[t] + 1] = y end
                elseif w == "thread" then
                    local t = (j - 1 + k) % n + 1
                    init:add_watch(y, t)
                    watch[t][#watch[t] + 1] = y
                end
            end
        end
        local upset = false
        for _, l in ipairs(s.lazy) do if l.when == "check" then upset = true end end
        self:rec("init", init.assignment, {watch = watch, unwatch = unwatch, mode = conf.mode, thr = n, upset = upset, threads = conf.threads})
    end
    local function all(ls, f)
        for _, x in ipairs(ls) do if not f(x) then return false end end
        return true
    end
    local function interfere(self, ctl, when)
        local a = ctl.assignment
        for _, l in ipairs(self.todo.lazy) do
            if l.when == when then
                local ls = {}
                for i, x in ipairs(l.lits) do ls[i] = self:lit(x) end
                local t = {ls, tag = l.tag, lock = l.lock}
                if l.k == "clause" then
                    if all(ls, function(x) return a:is_false(x) end) and (not ctl:add_clause(t) or not ctl:propagate()) then return end
                elseif all(ls, function(x) return a:is_true(x) end) and (not ctl:add_nogood(t) or not ctl:propagate()) then return end
            end
        end
    end
    local function rewatch(self, ctl, x, add)
        x = self.k % 2 == 1 and x or -x
        local on = not ctl:has_watch(x)
        if add and not on then return end
        if on then ctl:add_watch(x) else ctl:remove_watch(x) end
        self:rec("watch", nil, {tid = ctl.thread_id - 1, lit = x, has = ctl:has_watch(x), on = on, val = ctl.assignment:is_true(x)})
    end
    function P:propagate(ctl, changes, state)
        local t = ctl.thread_id
        local idx, half = arr(), arr()
        for i = 1, #changes do idx[i] = changes[i] end
        for i = 1, #changes // 2 do half[i] = changes[i] end
        self:rec("propagate", ctl.assignment, {tid = state.id == t and t - 1 or -5, ch = arr(changes), idx = idx, half = half})
        if self.todo.dyn == 1 then rewatch(self, ctl, self.map.a1, true) end
        interfere(self, ctl, "prop")
    end
    function P:undo(tid, a, changes, state)
        self:rec("undo", a, {tid = state.id == tid and tid - 1 or -5, ch = arr(changes)})
    end
    function P:check(ctl, state)
        local t = ctl.thread_id
        self:rec("check", ctl.assignment, {tid = state.id == t and t - 1 or -5})
        self.k = self.k + 1
        if self.todo.dyn == 2 then rewatch(self, ctl, self.map.a2, false) end
        interfere(self, ctl, "check")
    end
    if heur then
        function P:decide(tid, a, fallback, state)
            local r = 0
            self.k = self.k + 1
            if conf.decide == 2 then r = fallback
            elseif conf.decide == 3 then
                for i, x in ipairs(watchable(self)) do
                    if a:value(x) == nil and (i - 1 + self.k) % 2 == 0 then
                        r = self.k % 3 ~= 0 and x or -x
                        break
                    end
                end
            end
            self:rec("decide", a, {tid = state.id == tid and tid - 1 or -5, fb = int(fallback), res = int(r)})
            return r
        end
    end
    return P
end
function ops.tr_new(s)
    local args = arr{"0"}
    if s.conf ~= "" then args[#args + 1] = s.conf end
    if s.threads > 1 then args[#args + 1] = "-t" .. s.threads end
    D.tctl = clingo.Control(args)
    D.tctl:add("base", {}, s.text)
    D.tctl:ground{{"base", {}}}
    D.tthr = s.threads
    D.recs = {new_rec(s, s.decide ~= 0)}
    if s.other then D.recs[2] = new_rec(s, false) end
    for _, r in ipairs(D.recs) do D.tctl:register_propagator(r) end
end
function ops.tr_solve(s)
    for i, r in ipairs(D.recs) do
        if i == 1 then r.todo = s else r.todo = {lazy = arr(), dyn = 0, watch = "all"} end
    end
    D.tctl.configuration.solve.models = s.models
    local ass = {}
    for i, a in ipairs(s.assume) do ass[i] = {clingo.Function(a[1]), a[2] == 1} end
    local n = 0
    if s.how == "yield" and D.tthr == 1 then
        local h = D.tctl:solve{assumptions = ass, yield = true}
        for m in h:iter() do n = n + 1 end
        h:get()
        h:close()
    else
        D.tctl:solve{assumptions = ass, on_model = function(m) n = n + 1 end}
    end
    return {n = n}
end
function ops.tr_get(s)
    local r = arr()
    for i, x in ipairs(D.recs) do r[i] = {full = x.full, ev = x.log} end
    return r
end

function ops.sub_run(s)
    local c, all, models = clingo.Control{"0"}, {}, arr()
    c:add("base", {}, "{a;b}.")
    c:ground{{"base", {}}}
    for i, p in ipairs(s.props) do
        local seen, o = {}, {}
        for _, m in ipairs(p.has) do
            o[m] = function(self, x)
                seen[m] = true
                if m == "init" and p.watch then
                    for y in x.symbolic_atoms:iter() do
                        x:add_watch(x:solver_literal(y.literal))
                        x:add_watch(-x:solver_literal(y.literal))
                    end
                end
                return 0
            end
        end
        c:register_propagator(o)
        all[i] = seen
    end
    for i = 1, s.runs do
        local n = 0
        c:solve{on_model = function() n = n + 1 end}
        models[i] = n
    end
    local called = arr()
    for i, seen in ipairs(all) do
        called[i] = arr()
        for m in pairs(seen) do table.insert(called[i], m) end
    end
    return {models = models, called = called}
end
