-- The configuration tree (C16).
local arr, null = json.arr, json.null
local function guard(f)
    return function(s)
        local ok, r = pcall(f, s)
        if ok then return r end
        return {error = "error"}
    end
end
local function conf()
    D.flip = not D.flip
    return D.flip and D.held or D.c.configuration
end
local function nav(c, path, n)
    for i = 1, n do
        local x = path[i]
        if x:match("^%d+$") then
            local all, k = {}, tonumber(x)
            for y in c:iter() do all[#all + 1] = y end
            assert(#all == #c, "size")
            c = all[k + 1]
        else c = c[x] end
    end
    return c
end
local function value(c, p)
    local r = nav(c, p, #p)
    if r == nil then return "unset" end
    if type(r) ~= "string" then return "not a value" end
    return r
end
function ops.c_new(s)
    D.c = nil
    local args = {}
    if s.n > 1 then args[1] = "-t" .. math.tointeger(s.n) end
    local c = clingo.Control(args, function() end)
    c:add("base", {}, "{a;b}.")
    c:ground{{"base", {}}}
    D.c, D.held = c, c.configuration
end
ops.c_set = guard(function(s)
    local v = s.val
    if v:match("^[1-9]%d?$") then v = math.tointeger(v) or v elseif v == "0.5" then v = 0.5 end
    nav(conf(), s.path, #s.path - 1)[s.path[#s.path]] = v
    return "ok"
end)
ops.c_get = guard(function(s) return value(conf(), s.path) end)
function ops.c_dump(s)
    local r = arr()
    for i, p in ipairs(s.paths) do r[i] = value(conf(), p) end
    return r
end
function ops.c_keys(s) return arr(nav(conf(), s.path, #s.path).keys) end
ops.c_desc = guard(function(s)
    local c, k = nav(conf(), s.path, #s.path - 1), s.path[#s.path]
    local a = c["__desc_" .. k]
    local b = c:description(k)
    assert(a == b, "description")
    return a
end)
function ops.c_size(s)
    local c = nav(conf(), s.path, #s.path)
    local n = 0
    if #c > 0 then for x in c:iter() do n = n + 1 end end
    assert(n == #c, "size")
    return {size = n, array = "none"}
end
function ops.c_solve(s)
    local n = 0
    D.c:solve{on_model = function(m) n = n + 1 end}
    return n
end
