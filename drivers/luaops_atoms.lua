-- Symbolic-atom views (C11).
local arr = json.arr
local function row(a) return {a = tostring(a.symbol), fact = a.is_fact, ext = a.is_external} end
function ops.satoms(st)
    local sa = D.ctl.symbolic_atoms
    local all, sigs, by, find, lits, ok = arr(), arr(), arr(), arr(), {}, true
    for a in sa:iter() do
        all[#all + 1] = row(a)
        if not a.is_fact then
            if lits[a.literal] or a.literal == 0 then ok = false end
            lits[a.literal] = true
        end
        if sa:lookup(a.symbol).literal ~= a.literal then ok = false end
    end
    local have, seen = {}, {}
    for a in sa:iter() do have[a.symbol.name .. "/" .. #a.symbol.arguments .. tostring(a.symbol.positive)] = true end
    for _, x in ipairs(sa.signatures) do
        local k = x[1] .. "/" .. x[2] .. tostring(x[3])
        if seen[k] then error("duplicate signature") end
        seen[k] = true
        if have[k] then sigs[#sigs + 1] = arr{x[1], x[2], x[3]} end
    end
    for _, x in ipairs(st.by) do
        local rows = arr()
        local it
        if x[3] then it = sa:by_signature(x[1], x[2]) else it = sa:by_signature(x[1], x[2], false) end
        for a in it do rows[#rows + 1] = row(a) end
        by[#by + 1] = {s = x, rows = {bag = rows}}
    end
    for _, x in ipairs(st.find) do
        local a = sa:lookup(sym(x))
        if a == nil then find[#find + 1] = {a = x, ["in"] = false}
        else find[#find + 1] = {a = x, ["in"] = true, row = row(a)} end
    end
    return {all = {bag = all}, len = #sa, sigs = {bag = sigs}, by = by, find = find, litsok = ok}
end
function ops.agree(st)
    local bad = arr()
    local r = D.ctl:solve{on_model = function(m)
        local atoms, n = {}, 0
        for _, x in ipairs(m:symbols{atoms = true}) do atoms[tostring(x)] = true; n = n + 1 end
        for a in m.context.symbolic_atoms:iter() do
            local i = atoms[tostring(a.symbol)] or false
            if i then n = n - 1 end
            if i ~= m:is_true(a.literal) or m:contains(a.symbol) ~= i or (a.is_fact and not i) then bad[#bad + 1] = tostring(a.symbol) end
        end
        if n ~= 0 then bad[#bad + 1] = "missing" end
    end}
    return {sat = r.satisfiable, bad = bad}
end
function ops.autoclean(st)
    local w = D.ctl.enable_cleanup
    D.ctl.enable_cleanup = st.v
    return {was = w, now = D.ctl.enable_cleanup}
end
