-- Theory data (C12).
local arr, null = json.arr, json.null
local T = clingo.TheoryTermType
local kinds = {Function = T.Function, Number = T.Number, Symbol = T.Symbol, Tuple = T.Tuple, List = T.List, Set = T.Set}
local function term(t)
    local r = {str = tostring(t)}
    for n, k in pairs(kinds) do if t.type == k then if r.type then error("type") end; r.type = n end end
    if tostring(t.type) ~= r.type then error("type name " .. tostring(t.type)) end
    if r.type == "Number" then r.number = t.number
    elseif r.type == "Symbol" then r.name = t.name
    else
        if r.type == "Function" then r.name = t.name end
        r.args = arr()
        for i, a in ipairs(t.arguments) do r.args[i] = term(a) end
    end
    return r
end
local function atom(a, names)
    local els, ss = arr(), {}
    local function nm(l) return names[math.abs(l)] or ("?" .. l) end
    for _, e in ipairs(a.elements) do
        local terms, cond, ts, cs = arr(), arr(), {}, {}
        for i, t in ipairs(e.terms) do terms[i] = term(t); ts[i] = tostring(t) end
        for i, l in ipairs(e.condition) do
            cond[i] = (l < 0 and "~" or "") .. nm(l)
            cs[i] = (l < 0 and "not " or "") .. nm(l)
        end
        local s = tostring(e)
        ss[#ss + 1] = s
        local pre = table.concat(ts, ",") .. ((#cs > 0 or #ts == 0) and ": " or "")
        local c1, c2 = {}, {}
        for x in s:sub(#pre + 1):gmatch(".") do c1[#c1 + 1] = x end
        for x in table.concat(cs, ","):gmatch(".") do c2[#c2 + 1] = x end
        table.sort(c1); table.sort(c2)
        local ok = s:sub(1, #pre) == pre and table.concat(c1) == table.concat(c2)
        if #cs == 0 and e.condition_id ~= 0 or #cs == 1 and e.condition_id ~= e.condition[1] then error("condition id") end
        els[#els + 1] = {terms = terms, cond = {bag = cond}, strok = ok}
    end
    local s, g = "&" .. tostring(a.term) .. "{" .. table.concat(ss, ";") .. "}", arr()
    if a.guard ~= nil then
        g = arr{a.guard[1], term(a.guard[2])}
        s = s .. a.guard[1] .. tostring(a.guard[2])
    end
    return {term = term(a.term), el = {bag = els}, guard = g, dir = a.literal == 0, strok = s == tostring(a)}
end
function ops.theory(st)
    local ctl = D.ctl
    if st.grammar ~= "" then
        ctl:add("base", {}, st.grammar)
        ctl:ground{{"base", {}}}
        D.fix = {}
        local P = {}
        function P:init(init)
            D.patoms, D.conds = {}, {}
            for a in init.theory_atoms do
                D.patoms[#D.patoms + 1] = tostring(a)
                for _, e in ipairs(a.elements) do
                    local ls = {}
                    for i, l in ipairs(e.condition) do ls[i] = init:solver_literal(l) end
                    D.conds[#D.conds + 1] = {e.condition_id ~= 0 and init:solver_literal(e.condition_id) or 1, ls}
                end
            end
            init.check_mode = clingo.PropagatorCheckMode.Total
        end
        function P:check(c)
            local a = c.assignment
            for _, x in ipairs(D.conds) do
                local all = true
                for _, l in ipairs(x[2]) do all = all and a:is_true(l) end
                if a:is_true(x[1]) ~= all then D.bad[#D.bad + 1] = "condition" end
            end
        end
        ctl:register_propagator(P)
    end
    local k = st.k
    ctl:add("s" .. k, {}, st.text)
    ctl:ground{{"s" .. k, {}}}
    local names = {}
    for x in ctl.symbolic_atoms:iter() do names[x.literal] = names[x.literal] or tostring(x.symbol) end
    local read, ats, strs, idx, lits = arr(), {}, {}, {}, {}
    local same = true
    for a in ctl.theory_atoms do
        ats[#ats + 1] = a
        read[#read + 1] = atom(a, names)
        strs[#strs + 1], idx[#idx + 1], lits[#lits + 1] = tostring(a), a.term.arguments[1].number, a.literal
    end
    local i = 0
    for a in ctl.theory_atoms do i = i + 1; same = same and a == ats[i] and tostring(a) == strs[i] and (i == 1 or a ~= ats[1]) end
    D.bad = arr()
    local models = arr()
    local pre = {"p(" .. k .. ",", "q(" .. k .. ")", "i(" .. k .. ","}
    local function starts(x, n) for i = 1, n do if x:sub(1, #pre[i]) == pre[i] then return true end end return false end
    ctl:solve{assumptions = D.fix, on_model = function(m)
        local at, ho = arr(), arr()
        for _, x in ipairs(m:symbols{atoms = true}) do if starts(tostring(x), 3) then at[#at + 1] = tostring(x) end end
        for i, l in ipairs(lits) do if l ~= 0 and m:is_true(l) then ho[#ho + 1] = idx[i] end end
        models[#models + 1] = {atoms = {bag = at}, holds = {bag = ho}}
    end}
    table.sort(D.patoms)
    local y = {table.unpack(strs)}
    table.sort(y)
    if table.concat(D.patoms, "\n") ~= table.concat(y, "\n") then D.bad[#D.bad + 1] = "propagator reads different atoms" end
    for x in ctl.symbolic_atoms:iter() do if starts(tostring(x.symbol), 2) then D.fix[#D.fix + 1] = -x.literal end end
    for i, l in ipairs(lits) do if l ~= 0 and strs[i]:sub(2, 2):match("[ab]") then D.fix[#D.fix + 1] = -l end end
    return {read = {bag = read}, same = same, models = {bag = models}, bad = D.bad}
end
