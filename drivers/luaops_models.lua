-- Model objects, optimisation, clauses during enumeration (C02, C03, C04).
local arr = json.arr
function run_solve(mode, see)
    if mode == "yield" or mode == "yieldloop" or mode == "ayield" or mode == "yieldcb" then
        local h = D.ctl:solve{yield = true}
        for m in h:iter() do see(m) end
        local r = h:get()
        h:close()
        return r
    elseif mode == "ontrue" then
        return D.ctl:solve{on_model = function(m) see(m); return true end}
    else
        return D.ctl:solve{on_model = see}
    end
end
function ops.models(s)
    local models, numbers, done = arr(), arr(), false
    if #s.extend > 0 then D.extended = true end
    local want = {}
    for _, w in ipairs(s.want) do want[w] = true end
    local function see(m)
        if #s.extend > 0 then
            local v = {}
            for i, t in ipairs(s.extend) do v[i] = sym(t) end
            m:extend(v)
        end
        local r = model_obs(m, s.want)
        if want.contains then
            local c, t, f = arr(), arr(), true
            for _, a in ipairs(s.univ) do if m:contains(sym(a)) then c[#c + 1] = a end end
            for a in D.ctl.symbolic_atoms:iter() do
                if a.literal ~= 0 then
                if m:is_true(a.literal) then t[#t + 1] = tostring(a.symbol) end
                if m:is_true(a.literal) == m:is_true(-a.literal) then f = false end
                end
            end
            r.contains, r.istrue, r.isfalse = {bag = c}, {bag = t}, f
        end
        if want.threadok then r.threadok = m.thread_id >= 1 and m.thread_id <= D.threads end
        models[#models + 1] = r
        numbers[#numbers + 1] = m.number
        if s.policy then
            local con = m.context
            local function lit(a, v)
                if s.by == "lit" then
                    local at = D.ctl.symbolic_atoms:lookup(sym(a))
                    if at then return v and at.literal or -at.literal end
                end
                return {sym(a), v}
            end
            local c = {}
            if s.policy == "block" then
                for i, a in ipairs(s.over) do c[i] = lit(a, not m:contains(sym(a))) end
                con:add_clause(c)
            elseif not done then
                done = true
                for i, l in ipairs(s.clause) do c[i] = lit(l.a, l.s) end
                if s.policy == "fixed" then con:add_clause(c) else con:add_nogood(c) end
            end
        end
    end
    -- a model can only be extended in on_model here
    local o = result(run_solve(D.extended and "cb" or s.mode, see))
    o.models, o.numbers = models, numbers
    return o
end
