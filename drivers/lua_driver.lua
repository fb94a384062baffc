-- Replays behaviours of the specifications through the Lua API: lua_driver.lua IN OUT
clingo = require("clingo")
json = require("vjson")
local arr, null = json.arr, json.null

ops = {}
D = {}            -- state of the current behaviour

function sym(t) return clingo.parse_term(t) end
function bag(syms)
    local r = arr()
    for i, s in ipairs(syms) do r[i] = tostring(s) end
    return {bag = r}
end
function lit_of(a)
    if D.aux[a] then return D.aux[a] end
    local at = D.ctl.symbolic_atoms:lookup(sym(a))
    return at and at.literal
end
function ref(a, by)
    if a:sub(1, 1) == "_" and D.aux[a] then return D.aux[a] end
    if by == "lit" then
        local l = lit_of(a)
        if l then return l end
    end
    return sym(a)
end
local show = {
    atoms = {atoms = true}, shown = {shown = true}, terms = {terms = true}, theory = {theory = true},
    catoms = {atoms = true, complement = true}, cterms = {terms = true, complement = true}, cshown = {shown = true, complement = true},
    atomsterms = {atoms = true, terms = true}, shownterms = {shown = true, terms = true},
    every = {atoms = true, terms = true, theory = true}, none = {}}
local mtypes = {StableModel = "stable", BraveConsequences = "brave", CautiousConsequences = "cautious"}
function model_obs(m, want)
    local r = {}
    for _, w in ipairs(want) do
        if show[w] then r[w] = bag(m:symbols(show[w]))
        elseif w == "str" then
            local b = arr()
            for x in tostring(m):gmatch("%S+") do b[#b + 1] = x end
            r[w] = {bag = b}
        elseif w == "cost" then r[w] = arr(m.cost)
        elseif w == "proven" then r[w] = m.optimality_proven
        elseif w == "type" then r[w] = mtypes[tostring(m.type)] or tostring(m.type)
        elseif w == "number" then r[w] = m.number
        elseif w == "thread" then r[w] = m.thread_id - 1
        end
    end
    return r
end
function result(r)
    local o = {unknown = r.unknown, exh = r.exhausted, int = r.interrupted, str = tostring(r)}
    o.sat = r.satisfiable
    o.unsat = r.unsatisfiable
    if o.sat == nil then o.sat = null end
    if o.unsat == nil then o.unsat = null end
    return o
end
local function opt(o, d) if o == nil or o == null then return d end return o end

function ops.new(s)
    D.ctl = nil
    D.aux = {}
    D.threads = 1
    for _, a in ipairs(s.args) do if a:sub(1, 2) == "-t" then D.threads = 2 end end
    D.ctl = clingo.Control(s.args)
end
function ops.add(s) D.ctl:add(s.part, s.params, s.text) end
function ops.ground(s)
    local parts = {}
    for i, p in ipairs(s.parts) do
        local a = {}
        for j, x in ipairs(p.args) do a[j] = sym(x) end
        parts[i] = {p.name, a}
    end
    D.ctl:ground(parts)
end
local truth = {t = true, f = false}
function ops.assign(s) D.ctl:assign_external(ref(s.a, s.by), truth[s.v]) end
function ops.release(s) D.ctl:release_external(ref(s.a, s.by)) end
function ops.cleanup(s) D.ctl:cleanup() end
ops["end"] = function(s) end

function blits(b, f)
    local r = {}
    for _, x in ipairs(b) do
        local l = f(x.a)
        if x.s ~= 3 then
            if x.s == 1 then l = -l end
            r[#r + 1] = x.w and {l, x.w} or l
        end
    end
    return r
end
local heu = {level = "Level", sign = "Sign", factor = "Factor", init = "Init", ["true"] = "True", ["false"] = "False"}
local extt = {t = "True", f = "False", u = "Free", r = "Release"}
function ops.backend(s)
    local b = D.ctl:backend()
    local function at(a)
        if not D.aux[a] then
            if a:sub(1, 1) == "_" then D.aux[a] = b:add_atom() else D.aux[a] = b:add_atom(sym(a)) end
        end
        return D.aux[a]
    end
    for _, st in ipairs(s.stmts) do
        local k = st.k
        if k == "rule" then
            local r, head = st.r, {}
            for i, a in ipairs(r.h) do head[i] = at(a) end
            local ch = r.t == "choice"
            if r.k >= 0 then
                if ch then b:add_weight_rule{head, r.k, blits(r.w, at), true} else b:add_weight_rule{head, r.k, blits(r.w, at)} end
            else
                local body = blits(r.b, at)
                if ch then b:add_rule{head, body, true}
                elseif #body > 0 then b:add_rule{head, body}
                else b:add_rule{head} end
            end
        elseif k == "atom" then at(st.a)
        elseif k == "minimize" then b:add_minimize{st.p, blits(st.w, at)}
        elseif k == "external" then
            if st.v == "f" and st.dflt then b:add_external(at(st.a))
            else b:add_external(at(st.a), clingo.ExternalType[extt[st.v]]) end
        else error("unknown statement " .. k) end
    end
    b:close()
end

function ops.solve(s)
    local ass = {}
    for i, l in ipairs(opt(s.ass, {})) do
        local r = ref(l.a, s.by)
        if type(r) == "number" then ass[i] = l.s and r or -r else ass[i] = {r, l.s} end
    end
    local want, mode, models = opt(s.want, {"atoms"}), opt(s.mode, "cb"), arr()
    local r
    if mode == "cb" or mode == "async" then
        local fin = 0
        local args = {on_model = function(m) models[#models + 1] = model_obs(m, want) end,
                      on_finish = function(x) fin = fin + 1 end}
        if #ass > 0 then args.assumptions = ass end
        r = D.ctl:solve(args)
        if fin ~= 1 then error("finish") end
    elseif mode == "ontrue" then
        r = D.ctl:solve{assumptions = ass, on_model = function(m) models[#models + 1] = model_obs(m, want); return true end}
    else
        local h = D.ctl:solve{assumptions = ass, yield = true}
        for m in h:iter() do models[#models + 1] = model_obs(m, want) end
        r = h:get()
        h:close()
    end
    local o = result(r)
    o.models = models
    return o
end

for _, f in ipairs{"luaops_models", "luaops_sym", "luaops_atoms", "luaops_backend", "luaops_api", "luaops_raise", "luaops_handle", "luaops_conf", "luaops_stat", "luaops_ext", "luaops_log", "luaops_prop", "luaops_trail", "luaops_theory", "luaops_own", "luaops_intr", "luaops_misc"} do
    local ok, err = pcall(require, f)
    if not ok and not tostring(err):find("not found:", 1, true) then error(err) end
end

local out = io.open(arg[2], "w")
for line in io.lines(arg[1]) do
    local beh = json.decode(line)
    D = {aux = {}}
    local obs = arr()
    for i, st in ipairs(beh.steps) do
        local f = ops[st.op]
        if not f then io.stderr:write("unknown operation " .. st.op .. "\n"); os.exit(1) end
        local ok, o = pcall(f, st)
        if ok then obs[i] = o == nil and null or o
        else obs[i] = {exc = "error", msg = tostring(o)} end
    end
    D = {}
    collectgarbage()
    out:write(json.encode({id = beh.id, obs = obs}), "\n")
    out:flush()
end
out:close()
