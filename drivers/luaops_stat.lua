-- Statistics (C17).
local arr = json.arr
local progs = {"{a;b}.", "1{a;b}. #minimize{1,a:a;2,b:b}.", "1{a;b}. #minimize{1@2,a:a;2@2,b:b;5@1,a:a}."}
local function empty() return {t = "m", e = arr()} end
function ops.s_new(s)
    D.c, D.opt = nil, s.opt
    local args = {"0"}
    if s.opt > 0 then args[2] = "--opt-mode=optN" end
    local c = clingo.Control(args, function() end)
    c:add("base", {}, progs[math.tointeger(s.opt) + 1])
    c:ground{{"base", {}}}
    D.c = c
end
function ops.s_run(s)
    if s.mode == "yield" then
        local h = D.c:solve{yield = true}
        for m in h:iter() do end
        h:get()
        h:close()
    elseif s.mode == "async" then
        local h = D.c:solve{async = true}
        h:get()
        h:close()
    else D.c:solve() end
    return {ops = arr(), calls = 1}
end
function ops.s_read(s)
    local st = D.c.statistics
    assert(rawequal(st.summary, D.c.statistics.summary), "same statistics")
    local sm = st.summary
    local n = sm.models.enumerated
    return {step = empty(), accu = empty(), call = sm.call, costs = arr(sm.costs), optimal = sm.models.optimal, models = n > 0 and D.opt > 0 and -1 or n}
end
