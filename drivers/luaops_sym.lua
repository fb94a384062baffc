-- Symbols (C09).
local arr = json.arr
local U = "\xc3\xa4\xe2\x82\xac"
local function fix(s) return (s:gsub("~", U)) end
local function unfix(s) return (s:gsub(U, "~")) end
local function mk(r, alt)
    if r.t == "inf" then return clingo.Infimum end
    if r.t == "sup" then return clingo.Supremum end
    if r.t == "num" then return clingo.Number(r.v) end
    if r.t == "str" then return clingo.String(fix(r.v)) end
    local a = {}
    for i, x in ipairs(r.a) do a[i] = mk(x, alt) end
    if alt and r.n == "" then return clingo.Tuple(a) end
    if alt and r.p then return clingo.Function(r.n, a) end
    return clingo.Function(r.n, a, r.p)
end
local function acc(s)
    local t = tostring(s.type)
    if t == "Infimum" then return {t = "inf"} end
    if t == "Supremum" then return {t = "sup"} end
    if t == "Number" then return {t = "num", v = s.number} end
    if t == "String" then return {t = "str", v = unfix(s.string)} end
    if s.positive == s.negative then error("sign") end
    local a = arr()
    for i, x in ipairs(s.arguments) do a[i] = acc(x) end
    return {t = "fun", n = s.name, a = a, p = s.positive}
end
function ops.syms(st)
    local a, b, bad, text, ac = {}, {}, arr(), arr(), arr()
    for i, r in ipairs(st.syms) do a[i] = mk(r, false); b[i] = mk(r, true) end
    for i, x in ipairs(a) do
        for j, y in ipairs(b) do
            if (x < y) ~= (i < j) or (x <= y) ~= (i <= j) or (x == y) ~= (i == j) or (x ~= y) ~= (i ~= j) or (x > y) ~= (i > j) or (x >= y) ~= (i >= j) then
                bad[#bad + 1] = "cmp " .. tostring(x) .. " " .. tostring(y)
            end
        end
        if clingo.parse_term(tostring(x)) ~= x then bad[#bad + 1] = "parse " .. tostring(x) end
        local k = tostring(x.type)
        for n, w in pairs{number = "Number", string = "String", name = "Function", arguments = "Function", positive = "Function", negative = "Function"} do
            local ok, v = pcall(function() return x[n] end)
            if (ok and v ~= nil) ~= (k == w) then bad[#bad + 1] = "accessor " .. tostring(x) .. " " .. n end
        end
        text[i] = unfix(tostring(x))
        ac[i] = acc(x)
    end
    while #bad > 5 do bad[#bad] = nil end
    return {bad = bad, text = text, acc = ac}
end
