-- Propagators: stated constraints (C08).
local arr = json.arr
local function new_prop(conf)
    local P = {conf = conf, fresh = {}, k = 0}
    function P:lit(l)
        local x = self.fresh[l[1]] or self.map[l[1]]
        return l[2] == 1 and x or -x
    end
    function P:lits(ls)
        local t = {}
        for i, l in ipairs(ls) do t[i] = self:lit(l) end
        return t
    end
    local function act(self, init, a)
        local k = a.k
        if k == "clause" then return init:add_clause(self:lits(a.lits))
        elseif k == "wc" then
            local wl = {}
            for i, x in ipairs(a.wl) do wl[i] = {self:lit(x), x[3]} end
            if not a.eq and a.type == 0 then return init:add_weight_constraint(self:lit(a.lit), wl, a.bound) end
            if not a.eq then return init:add_weight_constraint(self:lit(a.lit), wl, a.bound, a.type) end
            return init:add_weight_constraint(self:lit(a.lit), wl, a.bound, a.type, true)
        elseif k == "prop" then return init:propagate()
        elseif k == "freeze" then return true
        elseif k == "min" then
            if a.p == 0 then init:add_minimize(self:lit(a.lit), a.w) else init:add_minimize(self:lit(a.lit), a.w, a.p) end
            return true
        end
        local x = init:add_literal(a.freeze)
        self.fresh[a.name] = x
        local ls, c = self:lits(a.lits), {x}
        for _, y in ipairs(ls) do
            if not init:add_clause{-x, y} then return false end
            c[#c + 1] = -y
        end
        return init:add_clause(c)
    end
    function P:init(init)
        local s = self.todo
        self.map = {}
        for _, n in ipairs(s.atoms) do
            local a = init.symbolic_atoms:lookup(clingo.Function(n))
            self.map[n] = a and init:solver_literal(a.literal) or -1
        end
        local m = {total = "Total", fixpoint = "Fixpoint", both = "Both", off = "Off"}
        local v = clingo.PropagatorCheckMode[m[self.conf.mode]]
        init.check_mode = v
        assert(init.check_mode == v)
        for t = 1, init.number_of_threads do init:set_state(t, {id = t, k = 0}) end
        self.conflict = false
        for _, a in ipairs(s.acts) do
            if not act(self, init, a) then self.conflict = true return end
        end
        for i, l in ipairs(s.lazy) do
            if l.when == "prop" then
                for _, x in ipairs(self:lits(l.lits)) do
                    if l.k == "clause" then x = -x end
                    if i % 2 == 1 then init:add_watch(x)
                    else for t = 1, init.number_of_threads do init:add_watch(x, t) end end
                end
            end
        end
    end
    local function all(ls, f)
        for _, x in ipairs(ls) do if not f(x) then return false end end
        return true
    end
    local function enforce(self, ctl, when)
        local a = ctl.assignment
        for i, l in ipairs(self.todo.lazy) do
            local ls = self:lits(l.lits)
            if l.when == when or (when == "check" and all(ls, function(x) return a:is_fixed(x) end)) then
                local t = {ls, tag = l.tag, lock = l.lock}
                if l.k == "clause" then
                    if all(ls, function(x) return a:is_false(x) end) and (not ctl:add_clause(t) or (i % 2 == 1 and not ctl:propagate())) then return end
                elseif all(ls, function(x) return a:is_true(x) end) and (not ctl:add_nogood(t) or (i % 2 == 1 and not ctl:propagate())) then return end
            end
        end
    end
    function P:propagate(ctl, changes, state)
        assert(state.id == ctl.thread_id)
        enforce(self, ctl, "prop")
    end
    function P:check(ctl, state)
        assert(state.id == ctl.thread_id)
        enforce(self, ctl, "check")
    end
    function P:undo(tid, assignment, changes, state)
        assert(state.id == tid)
    end
    function P:decide(tid, assignment, fallback, state)
        assert(state.id == tid)
        state.k = state.k + 1
        local k = state.k
        if self.conf.decide then
            local t = {}
            for _, x in pairs(self.map) do t[#t + 1] = x end
            table.sort(t)
            for i, x in ipairs(t) do
                if assignment:value(x) == nil and (i + k) % 3 == 0 then return k % 2 == 0 and x or -x end
            end
        end
        return k % 2 == 0 and fallback or 0
    end
    return P
end
function ops.p_new(s)
    local args = arr{"0"}
    if s.opt == "optN" then args[2] = "--opt-mode=optN" end
    if s.threads > 1 then args[#args + 1] = "-t" .. s.threads end
    D.pctl = clingo.Control(args)
    D.prop = new_prop(s)
    if s.other then
        D.pctl:register_propagator{init = function(self, init)
            for x in init.symbolic_atoms:iter() do init:add_watch(init:solver_literal(x.literal)) end
        end}
    end
    D.pctl:register_propagator(D.prop)
    D.poptn = s.opt == "optN"
end
function ops.p_solve(s)
    if s.text ~= "" then
        local part = "s" .. s.n
        D.pctl:add(part, {}, s.text)
        D.pctl:ground{{part, {}}}
    end
    D.prop.todo = s
    local models, cost = arr(), arr()
    local function see(m)
        if not D.poptn or m.optimality_proven then
            local t = arr()
            for i, x in ipairs(m:symbols{atoms = true}) do t[i] = tostring(x) end
            table.sort(t)
            models[#models + 1] = t
            cost = arr()
            if D.poptn then for _, c in ipairs(m.cost) do if c ~= 0 then cost[#cost + 1] = c end end end
        end
    end
    local r
    -- with several threads, propagators may only run while the main script waits
    if D.prop.conf.threads > 1 then r = D.pctl:solve{on_model = see}
    else
        local h = D.pctl:solve{yield = true}
        for m in h:iter() do see(m) end
        r = h:get()
        h:close()
    end
    return {models = models, cost = cost, sat = r.satisfiable, ok = not (D.prop.conflict and r.satisfiable)}
end
