-- minimal JSON for the drivers
local M = {}
M.null = setmetatable({}, {__tostring = function() return "null" end})
local A = {}
function M.arr(t) return setmetatable(t or {}, A) end
local esc = {['"'] = '\\"', ['\\'] = '\\\\', ['\n'] = '\\n', ['\t'] = '\\t', ['\r'] = '\\r'}
local function str(s)
    return '"' .. s:gsub('[%c"\\\127]', function(c) return esc[c] or string.format('\\u%04x', c:byte()) end) .. '"'
end
function M.encode(v)
    local t = type(v)
    if v == nil or v == M.null then return "null" end
    if t == "boolean" then return tostring(v) end
    if t == "number" then
        if math.type(v) == "integer" then return tostring(v) end
        if v == math.floor(v) and math.abs(v) < 1e15 then return string.format("%d", v) end
        return string.format("%.17g", v)
    end
    if t == "string" then return str(v) end
    if t == "table" then
        local o = {}
        if getmetatable(v) == A or #v > 0 then
            for i = 1, #v do o[i] = M.encode(v[i]) end
            return "[" .. table.concat(o, ",") .. "]"
        end
        local ks = {}
        for k in pairs(v) do ks[#ks + 1] = k end
        table.sort(ks)
        for i, k in ipairs(ks) do o[i] = str(tostring(k)) .. ":" .. M.encode(v[k]) end
        return "{" .. table.concat(o, ",") .. "}"
    end
    return str("<" .. t .. ">")
end
function M.decode(s)
    local p = 1
    local function ws() p = s:find("[^ \t\r\n]", p) or #s + 1 end
    local val
    local function string_()
        local b = {}
        p = p + 1
        while true do
            local q = s:find('["\\]', p)
            b[#b + 1] = s:sub(p, q - 1)
            if s:sub(q, q) == '"' then p = q + 1; return table.concat(b) end
            local e = s:sub(q + 1, q + 1)
            if e == "u" then
                local c = tonumber(s:sub(q + 2, q + 5), 16)
                p = q + 6
                if c >= 0xD800 and c < 0xDC00 then
                    local d = tonumber(s:sub(p + 2, p + 5), 16)
                    c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00)
                    p = p + 6
                end
                b[#b + 1] = utf8.char(c)
            else
                b[#b + 1] = ({n = "\n", t = "\t", r = "\r", b = "\b", f = "\f"})[e] or e
                p = q + 2
            end
        end
    end
    function val()
        ws()
        local c = s:sub(p, p)
        if c == "{" then
            local r = {}
            p = p + 1; ws()
            if s:sub(p, p) == "}" then p = p + 1; return r end
            while true do
                ws()
                local k = string_()
                ws(); p = p + 1
                r[k] = val()
                ws()
                local d = s:sub(p, p); p = p + 1
                if d == "}" then return r end
            end
        elseif c == "[" then
            local r = M.arr()
            p = p + 1; ws()
            if s:sub(p, p) == "]" then p = p + 1; return r end
            while true do
                r[#r + 1] = val()
                ws()
                local d = s:sub(p, p); p = p + 1
                if d == "]" then return r end
            end
        elseif c == '"' then return string_()
        elseif s:sub(p, p + 3) == "true" then p = p + 4; return true
        elseif s:sub(p, p + 4) == "false" then p = p + 5; return false
        elseif s:sub(p, p + 3) == "null" then p = p + 4; return M.null
        else
            local q = s:match("^-?[%d.eE+-]+", p)
            p = p + #q
            return math.tointeger(tonumber(q)) or tonumber(q)
        end
    end
    return val()
end
return M
