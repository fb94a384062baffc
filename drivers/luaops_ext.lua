-- Functions called from programs (C19).
local arr = json.arr
local CALLS, EXEC = {}, {}
local k = 0
local function called(kind, name, args)
    local n = #args
    local t = {}
    for i = 1, n do t[i] = tostring(args[i]) end
    CALLS[name .. "(" .. table.concat(t, ",") .. ")"] = true
    k = k + 1
    if kind == "first" then if n == 0 then return {} end return args[1]
    elseif kind == "last" then if n == 0 then return {} end return args[n]
    elseif kind == "all" then return args
    elseif kind == "rev" then local r = {} for i = n, 1, -1 do r["k" .. i] = args[i] end return r
    elseif kind == "none" then return {}
    elseif kind == "tup" then return clingo.Tuple(args)
    elseif kind == "wrap" then return clingo.Function("r", args)
    elseif kind == "cnt" then if k % 2 == 0 then return n elseif k % 3 == 0 then return {n} end return clingo.Number(n)
    elseif kind == "cst" then if k % 2 == 0 then return "a b" end return clingo.String("a b")
    else return n == 0 and {7} or {args[1], args[1], 7} end
end
function vf_exec(x) EXEC[#EXEC + 1] = x end
function vf_called(kind, name, ...) return called(kind, name, {...}) end
function ops.x_new(s)
    D.c = nil
    for _, f in ipairs{"f", "g", "hh", "f_1"} do _G[f] = nil end
    local t = ""
    for _, x in ipairs(s.dom) do t = t .. "d(" .. x .. ")." end
    local c = clingo.Control({}, function() end)
    c:add("base", {}, t)
    c:ground{{"base", {}}}
    D.c = c
end
local function arg(x)
    if x.k == "c" then return x.s elseif x.k == "X" or x.k == "t" then return x.k
    elseif x.k == "p" then return "(" .. x.e[1] .. ";" .. x.e[2] .. ")" end
    return "@" .. x.f .. "(" .. x.s .. ")"
end
local function rule(r)
    local t, body = {}, ""
    for i, x in ipairs(r.args) do t[i] = arg(x); if x.k == "X" then body = "d(X)" end end
    local call = "@" .. r.f .. "(" .. table.concat(t, ",") .. ")"
    if r.body == "head" then return r.h .. "(" .. call .. ")" .. (body == "" and "" or " :- " .. body) .. ".\n" end
    return r.h .. "(Y) :- " .. (body == "" and "" or body .. ", ") .. "Y = " .. call .. ".\n"
end
function ops.x_add(s)
    EXEC = {}
    local t = ""
    for i = 0, #s.rules do
        for _, x in ipairs(s.scripts) do
            if x.at == i then
                local id = math.tointeger(x.id)
                t = t .. "#script (lua) vf_exec(" .. id .. ") function " .. x.f .. "(...) return vf_called('" .. x.kind .. "','" .. x.f .. "',...) end #end.\n"
            end
        end
        if i < #s.rules then t = t .. rule(s.rules[i + 1]) end
    end
    D.c:add(s.part, s.par and {"t"} or {}, t)
    return arr(EXEC)
end
function ops.x_ground(s)
    CALLS = {}
    local parts = {}
    for i, p in ipairs(s.parts) do
        local a = {}
        for j, x in ipairs(p.args) do a[j] = clingo.parse_term(x) end
        parts[i] = {p.name, a}
    end
    if s.ctx.use then
        local ctx = {}
        if s.ctx.style == "falsy" then
            setmetatable(ctx, {__index = function(self, name) return function(me, ...) assert(me == self); return called(s.ctx.map[name], name, {...}) end end})
        else
            for f, kind in pairs(s.ctx.map) do ctx[f] = function(me, ...) assert(me == ctx); return called(kind, f, {...}) end end
        end
        D.c:ground(parts, ctx)
    else D.c:ground(parts) end
    local r = arr()
    for x in pairs(CALLS) do r[#r + 1] = x end
    return r
end
function ops.x_solve(s)
    local r = arr()
    D.c:solve{on_model = function(m)
        for _, x in ipairs(m:symbols{atoms = true}) do if x.name:sub(1, 1) == "p" then r[#r + 1] = tostring(x) end end
    end}
    return {bag = r}
end
