-- Messages (C22).
local arr = json.arr
local SEEN = {}
local cap = require("vfcap")
local CODE = {}
for _, k in ipairs{"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"} do
    if clingo.MessageCode and clingo.MessageCode[k] then CODE[tostring(clingo.MessageCode[k])] = k end
end
local function logger(tag) return function(code, text) SEEN[#SEEN + 1] = {tag, CODE[tostring(code)] or tostring(code), text} end end
local function capture(f)
    SEEN = {}
    io.stderr:flush()
    local ok, err = pcall(function() cap.begin(); f() end)
    local raw = cap.finish()
    local who, msgs = {}, arr()
    local function add(x) for _, y in ipairs(who) do if y == x then return end end who[#who + 1] = x end
    for _, x in ipairs(SEEN) do add(x[1]); msgs[#msgs + 1] = arr{x[2], x[3]} end
    if raw ~= "" then add("stderr"); msgs[#msgs + 1] = arr{"?", raw} end
    table.sort(who)
    return {ok = ok, to = #who == 0 and "nobody" or table.concat(who, ","), msgs = msgs}
end
function ops.l_start()
    D.c = {}
    local f = io.open("inc.lp", "w"); f:write("inc.\n"); f:close()
end
function ops.l_new(s)
    local k = #D.c + 1
    D.c[k] = clingo.Control(s.args, s.log and logger("c" .. k) or nil, s.lim)
end
local function stored(t, name) local f = io.open(name .. ".lp", "w"); f:write(t); f:close(); return name .. ".lp" end
function ops.l_add(s)
    local t = table.concat(s.lines, "\n") .. "\n"
    return capture(function()
        if s.how == "add" then D.c[s.c]:add(s.part, {}, t) else D.c[s.c]:load(stored("#program " .. s.part .. ". " .. t, s.part)) end
    end)
end
function ops.l_ground(s) return capture(function() D.c[s.c]:ground{{s.part, {}}} end) end
function ops.l_term(s)
    local r = capture(function() clingo.parse_term(s.text, s.log and logger("term") or nil, s.lim) end)
    r.msgs = nil
    return r
end
