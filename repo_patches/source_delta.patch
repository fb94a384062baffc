From 9ca47ddf16beb2287e03ebce8e4245749cc12e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 01/48] fix: Python solve: treat symbolic assumptions over
 unknown atoms as false atoms

---
 libpyclingo/clingo/control.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 4cc7ef7..2a8e9b0 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -47,6 +47,7 @@ from typing import (
     Any,
     Callable,
     Iterator,
+    List,
     Optional,
     Sequence,
     Tuple,
@@ -1041,19 +1042,21 @@ class Control:
         data = _CBData(handler, self._error)
         self._handler = _ffi.new_handle(data)
 
-        p_ass = _ffi.NULL
-        if assumptions:
-            atoms = None
-            p_ass = _ffi.new("clingo_literal_t[]", len(assumptions))
-            for i, lit in enumerate(assumptions):
-                if isinstance(lit, int):
-                    p_ass[i] = lit
-                else:
-                    if atoms is None:
-                        atoms = self.symbolic_atoms
-                    atom = self.symbolic_atoms[lit[0]]
-                    slit = -1 if atom is None else atom.literal
-                    p_ass[i] = slit if lit[1] else -slit
+        lits: List[int] = []
+        atoms = None
+        for lit in assumptions:
+            if isinstance(lit, int):
+                lits.append(lit)
+            else:
+                if atoms is None:
+                    atoms = self.symbolic_atoms
+                atom = atoms[lit[0]]
+                if atom is not None:
+                    lits.append(atom.literal if lit[1] else -atom.literal)
+                elif lit[1]:
+                    # atoms not in the program are false
+                    lits.extend((1, -1))
+        p_ass = _ffi.new("clingo_literal_t[]", lits) if lits else _ffi.NULL
 
         mode = 0
         if yield_:
@@ -1068,7 +1071,7 @@ class Control:
                 self._rep,
                 mode,
                 p_ass,
-                len(assumptions),
+                len(lits),
                 _lib.pyclingo_solve_event_callback,
                 self._handler,
                 handler=data,
-- 
2.43.0


From 25a4d8c8de095025ef9de57c5a33db8322f13115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 02/48] fix: Python add_clause: treat symbolic literals over
 unknown atoms as false atoms

---
 libpyclingo/clingo/solving.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libpyclingo/clingo/solving.py b/libpyclingo/clingo/solving.py
index 963f118..d4d727a 100644
--- a/libpyclingo/clingo/solving.py
+++ b/libpyclingo/clingo/solving.py
@@ -172,20 +172,20 @@ class SolveControl:
         when using a `SolveHandle`.
         """
         atoms = self.symbolic_atoms
-        p_lits = _ffi.new("clingo_literal_t[]", len(literals))
-        for i, lit in enumerate(literals):
+        lits: List[int] = []
+        for lit in literals:
             if isinstance(lit, int):
-                p_lits[i] = lit
+                lits.append(lit)
             else:
                 atom = atoms[lit[0]]
                 if atom is not None:
-                    slit = atom.literal
-                else:
-                    slit = -1
-                p_lits[i] = slit if lit[1] else -slit
+                    lits.append(atom.literal if lit[1] else -atom.literal)
+                elif not lit[1]:
+                    # atoms not in the program are false
+                    return
 
         _handle_error(
-            _lib.clingo_solve_control_add_clause(self._rep, p_lits, len(literals))
+            _lib.clingo_solve_control_add_clause(self._rep, lits, len(lits))
         )
 
     def _invert(
-- 
2.43.0


From 01d3b63dc71e39c0934c2ad74b5eca0a5377275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 03/48] fix: Lua solve: keep false symbolic assumptions over
 unknown atoms

---
 libluaclingo/luaclingo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6d2269b..65f58e9 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3441,6 +3441,10 @@ struct ControlWrap : Object<ControlWrap> {
                 if (auto *lits = luaToLits(L, -1, atoms, false, false)) { // +1/+0
                     handle->ass->swap(*lits);
                     lua_pop(L, 1); // -1
+                } else {
+                    // there is a false literal among the assumptions
+                    auto *ass = handle->ass;
+                    protect(L, [ass]() { ass->assign({1, -1}); });
                 }
             }
             lua_pop(L, 1); // -1
-- 
2.43.0


From 2e5a8cbb1794ea4effde7785b8f5bcbb43854137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 04/48] fix: Lua on_finish: call the on_finish handler, not
 on_model

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 65f58e9..e3d443a 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1820,7 +1820,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int on_finish_(lua_State *L) {
-        lua_pushstring(L, "on_model");
+        lua_pushstring(L, "on_finish");
         lua_rawget(L, 1);
         auto x = static_cast<clingo_solve_mode_bitset_t *>(lua_touserdata(L, 2));
         SolveResult::new_(L, *x);
-- 
2.43.0


From cc28c25f8638afe439679dfa754299b7906e3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 05/48] fix: Python StrSequence: call the existing C function
 to replace a string

---
 libpyclingo/clingo/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index bd02538..9e4d0c0 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -851,7 +851,7 @@ class StrSequence(abc.MutableSequence):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
         _handle_error(
-            _lib.clingo_str_attribute_set_string_at(
+            _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
             )
         )
-- 
2.43.0


From 737f0d7ad75fbbe07cd500db5375775534a382d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 06/48] fix: Python AST sequences: handle negative and out of
 range indices like lists

---
 libpyclingo/clingo/ast.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 9e4d0c0..cedb00c 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -757,6 +757,11 @@ class ASTSequence(abc.MutableSequence):
     def __setitem__(self, index, ast):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_ast_at(
                 self._rep, self._attribute, index, ast._rep
@@ -776,6 +781,10 @@ class ASTSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index += size
+        index = max(0, min(index, size))
         _handle_error(
             _lib.clingo_ast_attribute_insert_ast_at(
                 self._rep, self._attribute, index, value._rep
@@ -850,6 +859,11 @@ class StrSequence(abc.MutableSequence):
     def __setitem__(self, index, value):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
@@ -871,6 +885,10 @@ class StrSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index += size
+        index = max(0, min(index, size))
         _handle_error(
             _lib.clingo_ast_attribute_insert_string_at(
                 self._rep, self._attribute, index, value.encode()
-- 
2.43.0


From fda20ed6192a0bd95f820b218b8cfd121d874282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 07/48] fix: Python slices: insert into the underlying sequence
 instead of overwriting

---
 libpyclingo/clingo/util.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/util.py b/libpyclingo/clingo/util.py
index 54054e8..24350ab 100644
--- a/libpyclingo/clingo/util.py
+++ b/libpyclingo/clingo/util.py
@@ -92,4 +92,15 @@ class SlicedMutableSequence(SlicedSequence, abc.MutableSequence):
         del self._mut_seq[self._rng[index]]
 
     def insert(self, index, value):
-        self._mut_seq[self._rng[index]] = value
+        rng = self._rng
+        size = len(rng)
+        if index < 0:
+            index += size
+        index = max(0, min(index, size))
+        if index < size:
+            pos = rng[index]
+        elif size > 0:
+            pos = rng[-1] + (1 if rng.step > 0 else -1)
+        else:
+            pos = rng.start
+        self._mut_seq.insert(pos if rng.step > 0 else pos + 1, value)
-- 
2.43.0


From 2484aabbb63eb00340dd2a4b2f9baa0c1b1c182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 08/48] fix: Python: re-raise the exception a callback raised
 instead of wrapping it

Exceptions were rebuilt by calling their type with the original exception as
argument, which changed arguments and message (and failed for types with other
constructor signatures); also keep the first error as documented.
---
 libpyclingo/clingo/_internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 40ddfd8..077f8e8 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -74,7 +74,7 @@ def _handle_error(ret: bool, handler=None):
             and handler is not None
             and handler.error is not None
         ):
-            raise handler.error[0](handler.error[1]).with_traceback(handler.error[2])
+            raise handler.error[1].with_traceback(handler.error[2])
         msg = _ffi.string(_lib.clingo_error_message()).decode()
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
@@ -137,7 +137,8 @@ class _Error:
         This function is thread-safe.
         """
         # pylint: disable=protected-access
-        self._error = value
+        if self._error is None:
+            self._error = value
 
 
 class _CBData:
-- 
2.43.0


From 08f4ce7089031ac6a25a709209f1d349a8ba197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 09/48] fix: Python: re-raise observer exceptions from backend
 and external operations

The operations stating rules, weight rules, minimize, project, external, assume,
heuristic and edge statements, and assigning or releasing externals, turned
exceptions of observers into RuntimeError; the ones adding theory data could
raise a stale error.
---
 libpyclingo/clingo/backend.py | 46 +++++++++++++++++++++++++++++------
 libpyclingo/clingo/control.py |  8 ++++--
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/libpyclingo/clingo/backend.py b/libpyclingo/clingo/backend.py
index db78e2d..7c993c9 100644
--- a/libpyclingo/clingo/backend.py
+++ b/libpyclingo/clingo/backend.py
@@ -606,10 +606,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_acyc_edge(
                 self._rep, node_u, node_v, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_assume(self, literals: Sequence[int]) -> None:
@@ -621,7 +623,11 @@ class Backend(ContextManager["Backend"]):
         literals
             The list of literals to assume true.
         """
-        _handle_error(_lib.clingo_backend_assume(self._rep, literals, len(literals)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_assume(self._rep, literals, len(literals)),
+            handler=self._error,
+        )
 
     def add_atom(self, symbol: Optional[Symbol] = None) -> int:
         """
@@ -668,7 +674,11 @@ class Backend(ContextManager["Backend"]):
         -----
         Can also be used to release an external atom using `TruthValue.Release`.
         """
-        _handle_error(_lib.clingo_backend_external(self._rep, atom, value.value))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_external(self._rep, atom, value.value),
+            handler=self._error,
+        )
 
     def add_heuristic(
         self,
@@ -694,10 +704,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_heuristic(
                 self._rep, atom, type_.value, bias, priority, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_minimize(self, priority: int, literals: Sequence[Tuple[int, int]]) -> None:
@@ -711,8 +723,10 @@ class Backend(ContextManager["Backend"]):
         literals
             List of pairs of program literals and weights.
         """
+        self._error.clear()
         _handle_error(
-            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals))
+            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals)),
+            handler=self._error,
         )
 
     def add_project(self, atoms: Sequence[int]) -> None:
@@ -724,7 +738,11 @@ class Backend(ContextManager["Backend"]):
         atoms
             List of program atoms to project on.
         """
-        _handle_error(_lib.clingo_backend_project(self._rep, atoms, len(atoms)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_project(self._rep, atoms, len(atoms)),
+            handler=self._error,
+        )
 
     def add_rule(
         self, head: Sequence[int], body: Sequence[int] = [], choice: bool = False
@@ -747,10 +765,12 @@ class Backend(ContextManager["Backend"]):
         singleton head list, respectively.
         """
         # pylint: disable=dangerous-default-value
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_rule(
                 self._rep, choice, head, len(head), body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_weight_rule(
@@ -776,10 +796,12 @@ class Backend(ContextManager["Backend"]):
         choice
             Whether to add a disjunctive or choice rule.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_weight_rule(
                 self._rep, choice, head, len(head), lower, body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_theory_term_number(self, number: int) -> int:
@@ -795,6 +817,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_number,
@@ -816,6 +839,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_string,
@@ -839,6 +863,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_function,
@@ -866,6 +891,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_sequence,
@@ -889,6 +915,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_symbol,
@@ -912,6 +939,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added element.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_element,
@@ -952,6 +980,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom,
@@ -993,6 +1022,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom_with_guard,
diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 2a8e9b0..63b66eb 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -447,10 +447,12 @@ class Control:
             val = _lib.clingo_external_type_true
         else:
             val = _lib.clingo_external_type_false
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_assign_external(
                 self._rep, self._program_atom(external), val
-            )
+            ),
+            self._error,
         )
 
     def backend(self) -> Backend:
@@ -870,10 +872,12 @@ class Control:
             a
             SAT
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_release_external(
                 self._rep, self._program_atom(external)
-            )
+            ),
+            self._error,
         )
 
     # this assumes that overloads are matched in the order they appear
-- 
2.43.0


From 0af186b3ff5c90f8c14655031fd54937c18381b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 10/48] fix: Python Theory.rewrite_ast: create the callback
 data

The name _CBData was not imported and its error argument missing, so that every
call failed; also re-raise exceptions raised by the callback.
---
 libpyclingo/clingo/theory.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index c78325c..165c9bd 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -76,7 +76,7 @@ bool PREFIX_configure(PREFIX_theory_t *theory, char const *key, char const *valu
 
 from typing import Any, Callable, Iterator, Optional, Tuple, Union
 
-from ._internal import _ffi, _handle_error, _lib
+from ._internal import _CBData, _Error, _ffi, _handle_error, _lib
 from .application import ApplicationOptions
 from .ast import AST
 from .control import Control
@@ -261,14 +261,17 @@ class Theory:
             Callback for adding translated statements.
         """
 
-        cb_data = _CBData(add)
+        cb_data = _CBData(add, _Error())
         handle = self._ffi.new_handle(cb_data)
-        self.__call0(
-            "rewrite_ast",
-            self._theory,
-            self._ffi.cast("clingo_ast_t*", stm._rep),
-            self.__get("rewrite", "py"),
-            handle,
+        _handle_error(
+            self.__call(
+                "rewrite_ast",
+                self._theory,
+                self._ffi.cast("clingo_ast_t*", stm._rep),
+                self.__get("rewrite", "py"),
+                handle,
+            ),
+            cb_data,
         )
 
     def register_options(self, options: ApplicationOptions) -> None:
-- 
2.43.0


From 3b0fc3f73f92f46067e9700d2ea2d8a2d980e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 11/48] fix: Python ground: use a context object even if it is
 falsy

---
 libpyclingo/clingo/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 63b66eb..5afe389 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -551,8 +551,8 @@ class Control:
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
         data = _CBData(context, self._error)
-        c_data = _ffi.new_handle(data) if context else _ffi.NULL
-        c_cb = _lib.pyclingo_ground_callback if context else _ffi.NULL
+        c_data = _ffi.new_handle(data) if context is not None else _ffi.NULL
+        c_cb = _lib.pyclingo_ground_callback if context is not None else _ffi.NULL
 
         c_mem = []
         c_parts = _ffi.new("clingo_part_t[]", len(parts))
-- 
2.43.0


From 5138367daad68907d22e923c52638d36b849feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 12/48] fix: Lua PropagateInit.add_literal: take freeze from
 the argument

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index e3d443a..63647d7 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2538,7 +2538,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int addLiteral(lua_State *L) {
         auto &self = get_self(L);
-        bool freeze = lua_isnoneornil(L, 1) || lua_toboolean(L, 1);
+        bool freeze = lua_isnoneornil(L, 2) || lua_toboolean(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_add_literal, self.init, freeze));
         return 1;
     }
-- 
2.43.0


From 436b4f86b55a3bca5682024ca2be8e1662b52e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:32 +0000
Subject: [PATCH 13/48] fix: Lua: do not use error messages as format strings

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 63647d7..26b9b50 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -43,7 +43,7 @@ template <typename T> auto protect(lua_State *L, T f) -> decltype(f()) {
     try {
         return f();
     } catch (std::exception const &e) {
-        luaL_error(L, e.what());
+        luaL_error(L, "%s", e.what());
     } catch (...) {
         luaL_error(L, "unknown error");
     }
@@ -58,7 +58,7 @@ void handle_c_error(lua_State *L, bool ret) {
         if (!msg) {
             msg = "no message";
         }
-        luaL_error(L, msg);
+        luaL_error(L, "%s", msg);
     }
 }
 
-- 
2.43.0


From 488c71e4301abe7920a8557207a1c2dc67966928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 14/48] fix: Python: report errors without a message

---
 libpyclingo/clingo/_internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 077f8e8..8bbafa5 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -75,7 +75,8 @@ def _handle_error(ret: bool, handler=None):
             and handler.error is not None
         ):
             raise handler.error[1].with_traceback(handler.error[2])
-        msg = _ffi.string(_lib.clingo_error_message()).decode()
+        c_msg = _lib.clingo_error_message()
+        msg = _to_str(c_msg) if c_msg != _ffi.NULL else "no message"
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
         raise RuntimeError(msg)
-- 
2.43.0


From 17bd85c7ea79fcc0f87d2b764b4cb38effcfb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 15/48] fix: C++: do not close handles, backends, and builders
 again if closing them failed

---
 libclingo/clingo.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1dd6e70..8c11fe7 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3209,8 +3209,9 @@ inline SolveHandle::~SolveHandle() noexcept(false) { close(); }
 
 inline void SolveHandle::close() {
     if (iter_ != nullptr) {
-        Detail::handle_error(clingo_solve_handle_close(iter_), *exception_);
+        auto *it = iter_;
         iter_ = nullptr;
+        Detail::handle_error(clingo_solve_handle_close(it), *exception_);
     }
 }
 
@@ -3231,8 +3232,9 @@ inline Backend::~Backend() noexcept(false) { close(); }
 
 inline void Backend::close() {
     if (backend_ != nullptr) {
-        Detail::handle_error(clingo_backend_end(backend_));
+        auto *backend = backend_;
         backend_ = nullptr;
+        Detail::handle_error(clingo_backend_end(backend));
     }
 }
 
@@ -4098,8 +4100,9 @@ inline ProgramBuilder::ProgramBuilder(ProgramBuilder &&builder) noexcept : build
 
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
-        Detail::handle_error(clingo_program_builder_end(builder_));
+        auto *builder = builder_;
         builder_ = nullptr;
+        Detail::handle_error(clingo_program_builder_end(builder));
     }
 }
 
-- 
2.43.0


From 2c2b927fb18a77ef642492cbfee0966af3abed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 16/48] fix: C++: rethrow exceptions of observers raised by
 backend and external operations

---
 libclingo/clingo.hh | 105 +++++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 41 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 8c11fe7..cb35ab9 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -1562,6 +1562,12 @@ inline std::ostream &operator<<(std::ostream &out, Location loc) {
 
 // {{{1 backend
 
+namespace Detail {
+
+class AssignOnce;
+
+} // namespace Detail
+
 enum class TheorySequenceType {
     Tuple = clingo_theory_sequence_type_tuple,
     List = clingo_theory_sequence_type_list,
@@ -1571,6 +1577,7 @@ enum class TheorySequenceType {
 class Backend {
   public:
     explicit Backend(clingo_backend_t *backend);
+    explicit Backend(clingo_backend_t *backend, Detail::AssignOnce &ptr);
     Backend(Backend const &backend) = delete;
     Backend(Backend &&backend) noexcept;
     Backend &operator=(Backend const &backend) = delete;
@@ -1602,7 +1609,10 @@ class Backend {
     clingo_backend_t *to_c() const { return backend_; }
 
   private:
+    void handle_error_(bool ret);
+
     clingo_backend_t *backend_ = nullptr;
+    Detail::AssignOnce *exception_ = nullptr;
 };
 
 // {{{1 statistics
@@ -1741,12 +1751,6 @@ inline void SolveEventHandler::on_statistics(UserStatistics step, UserStatistics
 
 inline void SolveEventHandler::on_finish(SolveResult result) { static_cast<void>(result); }
 
-namespace Detail {
-
-class AssignOnce;
-
-} // namespace Detail
-
 class SolveHandle {
   public:
     SolveHandle() = default;
@@ -2440,7 +2444,11 @@ class AssignOnce {
 
 inline void handle_error(bool ret, AssignOnce &exc) {
     if (!ret) {
-        handle_error(ret, *exc);
+        if (std::exception_ptr ptr = *exc) {
+            exc.reset();
+            std::rethrow_exception(ptr);
+        }
+        handle_error(false);
     }
 }
 
@@ -3221,6 +3229,7 @@ inline Backend::Backend(Backend &&backend) noexcept { *this = std::move(backend)
 
 inline Backend &Backend::operator=(Backend &&backend) noexcept {
     std::swap(backend_, backend.backend_);
+    std::swap(exception_, backend.exception_);
     return *this;
 }
 
@@ -3228,121 +3237,133 @@ inline Backend::Backend(clingo_backend_t *backend) : backend_{backend} {
     Detail::handle_error(clingo_backend_begin(backend_));
 }
 
+inline Backend::Backend(clingo_backend_t *backend, Detail::AssignOnce &ptr) : backend_{backend}, exception_{&ptr} {
+    ptr.reset();
+    handle_error_(clingo_backend_begin(backend_));
+}
+
+inline void Backend::handle_error_(bool ret) {
+    if (exception_ != nullptr) {
+        Detail::handle_error(ret, *exception_);
+    }
+    Detail::handle_error(ret);
+}
+
 inline Backend::~Backend() noexcept(false) { close(); }
 
 inline void Backend::close() {
     if (backend_ != nullptr) {
         auto *backend = backend_;
         backend_ = nullptr;
-        Detail::handle_error(clingo_backend_end(backend));
+        handle_error_(clingo_backend_end(backend));
     }
 }
 
 inline void Backend::rule(bool choice, AtomSpan head, LiteralSpan body) {
-    Detail::handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
+    handle_error_(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
 }
 
 inline void Backend::weight_rule(bool choice, AtomSpan head, weight_t lower, WeightedLiteralSpan body) {
-    Detail::handle_error(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
-                                                    Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
-                                                    body.size()));
+    handle_error_(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
+                                             Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
+                                             body.size()));
 }
 
 inline void Backend::minimize(weight_t prio, WeightedLiteralSpan body) {
-    Detail::handle_error(clingo_backend_minimize(
-        backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()), body.size()));
+    handle_error_(clingo_backend_minimize(backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
+                                          body.size()));
 }
 
 inline void Backend::project(AtomSpan atoms) {
-    Detail::handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
+    handle_error_(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
 }
 
 inline void Backend::external(atom_t atom, ExternalType type) {
-    Detail::handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
+    handle_error_(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
 }
 
 inline void Backend::assume(LiteralSpan lits) {
-    Detail::handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()));
+    handle_error_(clingo_backend_assume(backend_, lits.begin(), lits.size()));
 }
 
 inline void Backend::heuristic(atom_t atom, HeuristicType type, int bias, unsigned priority, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias,
-                                                  priority, condition.begin(), condition.size()));
+    handle_error_(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias, priority,
+                                           condition.begin(), condition.size()));
 }
 
 inline void Backend::acyc_edge(int node_u, int node_v, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
+    handle_error_(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
 }
 
 inline atom_t Backend::add_atom() {
     clingo_atom_t ret = 0;
-    Detail::handle_error(clingo_backend_add_atom(backend_, nullptr, &ret));
+    handle_error_(clingo_backend_add_atom(backend_, nullptr, &ret));
     return ret;
 }
 
 inline atom_t Backend::add_atom(Symbol symbol) {
     clingo_atom_t ret = 0;
     clingo_symbol_t sym = symbol.to_c();
-    Detail::handle_error(clingo_backend_add_atom(backend_, &sym, &ret));
+    handle_error_(clingo_backend_add_atom(backend_, &sym, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_number(int number) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_number(backend_, number, &ret));
+    handle_error_(clingo_backend_theory_term_number(backend_, number, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_string(char const *string) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_string(backend_, string, &ret));
+    handle_error_(clingo_backend_theory_term_string(backend_, string, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_sequence(TheorySequenceType type, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
-                                                             elements.data(), elements.size(), &ret));
+    handle_error_(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
+                                                      elements.data(), elements.size(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_function(char const *name, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
+    handle_error_(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_symbol(Symbol symbol) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
+    handle_error_(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_element(IdSpan tuple, LiteralSpan condition) {
     clingo_id_t ret = 0;
-    Detail::handle_error(
+    handle_error_(
         clingo_backend_theory_element(backend_, tuple.data(), tuple.size(), condition.begin(), condition.size(), &ret));
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id,
-                                                    elements.begin(), elements.size(), &ret));
+    handle_error_(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id, elements.begin(),
+                                             elements.size(), &ret));
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements, char const *operator_name, id_t right_hand_side_id) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
-                                                               elements.begin(), elements.size(), operator_name,
-                                                               right_hand_side_id, &ret));
+    handle_error_(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
+                                                        elements.begin(), elements.size(), operator_name,
+                                                        right_hand_side_id, &ret));
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan elements) {
     atom_t ret = 0;
-    Detail::handle_error(
+    handle_error_(
         clingo_backend_theory_atom(backend_, atom_id_or_zero, term_id, elements.begin(), elements.size(), &ret));
     return ret;
 }
@@ -3350,9 +3371,8 @@ inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan el
 inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan elements, char const *operator_name,
                                    id_t right_hand_side_id) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
-                                                               elements.size(), operator_name, right_hand_side_id,
-                                                               &ret));
+    handle_error_(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
+                                                        elements.size(), operator_name, right_hand_side_id, &ret));
     return ret;
 }
 
@@ -4349,7 +4369,9 @@ inline SolveHandle Control::solve(LiteralSpan assumptions, SolveEventHandler *ha
 }
 
 inline void Control::assign_external(literal_t literal, TruthValue value) {
-    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)),
+                         impl_->ptr);
 }
 
 inline void Control::assign_external(Symbol atom, TruthValue value) {
@@ -4361,7 +4383,8 @@ inline void Control::assign_external(Symbol atom, TruthValue value) {
 }
 
 inline void Control::release_external(literal_t literal) {
-    Detail::handle_error(clingo_control_release_external(*impl_, literal));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_release_external(*impl_, literal), impl_->ptr);
 }
 
 inline void Control::release_external(Symbol atom) {
@@ -4658,7 +4681,7 @@ inline bool Control::enable_cleanup() const { return clingo_control_get_enable_c
 inline Backend Control::backend() {
     clingo_backend_t *ret = nullptr;
     Detail::handle_error(clingo_control_backend(*impl_, &ret));
-    return Backend{ret};
+    return Backend{ret, impl_->ptr};
 }
 
 inline Configuration Control::configuration() {
-- 
2.43.0


From f1a4f226063ec98b3cfbfe737b6b269e9595fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 17/48] fix: Lua: do not finalize controls whose creation
 failed

---
 libluaclingo/luaclingo.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 26b9b50..829b6fe 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3620,12 +3620,15 @@ struct ControlWrap : Object<ControlWrap> {
         lua_newtable(L);                                                    // +1
         auto self = (ControlWrap *)lua_newuserdata(L, sizeof(ControlWrap)); // +1
         // see: https://stackoverflow.com/questions/27426704/lua-5-1-workaround-for-gc-metamethod-for-tables
+        lua_rawseti(L, -2, 1); // -1
+        protect(L, [self, f]() { f(self); });
+        // Note: the finalizer must only run if the object has been constructed
+        lua_rawgeti(L, -1, 1);           // +1
         luaL_getmetatable(L, typeNameI); // +1
         lua_setmetatable(L, -2);         // -1
-        lua_rawseti(L, -2, 1);           // -1
-        protect(L, [self, f]() { f(self); });
-        luaL_getmetatable(L, typeName); // +1
-        lua_setmetatable(L, -2);        // -1
+        lua_pop(L, 1);                   // -1
+        luaL_getmetatable(L, typeName);  // +1
+        lua_setmetatable(L, -2);         // -1
         return 1;
     }
     static void reg(lua_State *L) {
-- 
2.43.0


From 85a48a9d03420fef7ef7dbaecc66d32e5a67a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 18/48] fix: report current statistics after solving even if
 they were read before

The statistics are cached per number of the solve call, which does not change
between reading the statistics before a call and after it.
---
 libpyclingo/clingo/control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 5afe389..8f6d398 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -1042,6 +1042,7 @@ class Control:
         """
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
+        self._statistics = None
         handler = _SolveEventHandler(on_model, on_unsat, on_statistics, on_finish)
         data = _CBData(handler, self._error)
         self._handler = _ffi.new_handle(data)
-- 
2.43.0


From 05425127d99bec4503d1dcf8d10d594f44ff5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 19/48] fix: statistics arrays can be extended with themselves

---
 libpyclingo/clingo/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/statistics.py b/libpyclingo/clingo/statistics.py
index 7d2fe49..deafc19 100644
--- a/libpyclingo/clingo/statistics.py
+++ b/libpyclingo/clingo/statistics.py
@@ -183,7 +183,8 @@ class StatisticsArray(MutableSequence[StatisticsValue]):
         raise NotImplementedError("only inplace concatenation is supported")
 
     def __iadd__(self, other):
-        for x in other:
+        # note: the values are copied because other might be the array itself
+        for x in list(other):
             self.append(x)
         return self
 
-- 
2.43.0


From 04df5daaa392e70347ff23d8c7006a22181bfa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 20/48] fix: Lua: reserve stack space for the arguments of
 external functions

---
 libluaclingo/luaclingo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 829b6fe..2e9f718 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1129,6 +1129,7 @@ struct LuaCallArgs_ {
 int luacall_(lua_State *L) {
     auto &args = *static_cast<LuaCallArgs_ *>(lua_touserdata(L, 1));
     int context = 0;
+    luaL_checkstack(L, numeric_cast<int>(args.size) + 8, "too many arguments");
     if (!lua_isnil(L, 2)) {
         context = 1;
         lua_getfield(L, 2, args.name);
-- 
2.43.0


From 5da2a736ddcde0fb7b86a70f780fb2cb41ddb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 21/48] fix: pass the control to the engine in C++ parse_string
 and parse_files

---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index cb35ab9..31631c3 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4149,7 +4149,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
@@ -4173,7 +4173,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-- 
2.43.0


From 9d7ff5b5f53e9105c0941f0f77e428adc998dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 22/48] fix: report messages of C++ parse functions on the
 error stream if there is no logger

---
 libclingo/clingo.hh | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 31631c3..16e4e80 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4141,6 +4141,12 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                          unsigned message_limit) {
     using Data = std::pair<Callback, std::exception_ptr>;
     auto data = Data(std::forward<Callback>(cb), nullptr);
+    clingo_logger_t f = [](clingo_warning_t code, char const *msg, void *data) {
+        try {
+            (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
+        } catch (...) {
+        } // NOLINT(bugprone-empty-catch)
+    };
     Detail::handle_error(clingo_ast_parse_string(
                              program,
                              [](clingo_ast_t *ast, void *data) -> bool {
@@ -4150,13 +4156,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
                              &data, control,
-                             [](clingo_warning_t code, char const *msg, void *data) {
-                                 try {
-                                     (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-                                 } catch (...) {
-                                 } // NOLINT
-                             },
-                             &logger, message_limit),
+                             logger ? f : nullptr, logger ? &logger : nullptr, message_limit),
                          data.second);
 }
 
@@ -4165,6 +4165,12 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                         unsigned message_limit) {
     using Data = std::pair<Callback, std::exception_ptr>;
     auto data = Data(std::forward<Callback>(cb), nullptr);
+    clingo_logger_t f = [](clingo_warning_t code, char const *msg, void *data) {
+        try {
+            (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
+        } catch (...) {
+        } // NOLINT(bugprone-empty-catch)
+    };
     Detail::handle_error(clingo_ast_parse_files(
                              files.begin(), files.size(),
                              [](clingo_ast_t *ast, void *data) -> bool {
@@ -4174,13 +4180,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
                              &data, control,
-                             [](clingo_warning_t code, char const *msg, void *data) {
-                                 try {
-                                     (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-                                 } catch (...) {
-                                 } // NOLINT
-                             },
-                             &logger, message_limit),
+                             logger ? f : nullptr, logger ? &logger : nullptr, message_limit),
                          data.second);
 }
 
@@ -4806,15 +4806,14 @@ inline static bool g_validate_options(void *adata) {
 
 inline Symbol parse_term(char const *str, Logger logger, unsigned message_limit) {
     clingo_symbol_t ret = 0;
-    Detail::handle_error(clingo_parse_term(
-        str,
-        [](clingo_warning_t code, char const *msg, void *data) {
-            try {
-                (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-            } catch (...) {
-            } // NOLINT(bugprone-empty-catch)
-        },
-        &logger, message_limit, &ret));
+    clingo_logger_t f = [](clingo_warning_t code, char const *msg, void *data) {
+        try {
+            (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
+        } catch (...) {
+        } // NOLINT(bugprone-empty-catch)
+    };
+    Detail::handle_error(
+        clingo_parse_term(str, logger ? f : nullptr, logger ? &logger : nullptr, message_limit, &ret));
     return Symbol(ret);
 }
 
-- 
2.43.0


From 186aab45a32591d878fc5fd5be857dfb013091cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 23/48] fix: C++ AST nodes can be constructed with optional
 nodes

---
 libclingo/clingo.hh | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 16e4e80..1826e9f 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3594,7 +3594,8 @@ template <size_t j> struct construct_ast {
         if (cons.size <= i || cons.arguments[i].type != clingo_ast_attribute_type_optional_ast) { // NOLINT
             throw std::runtime_error("invalid argument");
         }
-        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)..., arg.get());
+        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)...,
+                                                               arg ? arg->to_c() : nullptr);
     }
     template <size_t i, class... Args>
     static clingo_ast_t *construct(clingo_ast_type_t type, clingo_ast_constructor_t const &cons,
@@ -4155,8 +4156,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, control,
-                             logger ? f : nullptr, logger ? &logger : nullptr, message_limit),
+                             &data, control, logger ? f : nullptr, logger ? &logger : nullptr, message_limit),
                          data.second);
 }
 
@@ -4179,8 +4179,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, control,
-                             logger ? f : nullptr, logger ? &logger : nullptr, message_limit),
+                             &data, control, logger ? f : nullptr, logger ? &logger : nullptr, message_limit),
                          data.second);
 }
 
@@ -4812,8 +4811,7 @@ inline Symbol parse_term(char const *str, Logger logger, unsigned message_limit)
         } catch (...) {
         } // NOLINT(bugprone-empty-catch)
     };
-    Detail::handle_error(
-        clingo_parse_term(str, logger ? f : nullptr, logger ? &logger : nullptr, message_limit, &ret));
+    Detail::handle_error(clingo_parse_term(str, logger ? f : nullptr, logger ? &logger : nullptr, message_limit, &ret));
     return Symbol(ret);
 }
 
-- 
2.43.0


From 0234d19c6791f576712ac9fd2014f3c2db318e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 24/48] fix: C++ AST vectors can be set to another vector of
 the same node

---
 libclingo/clingo.hh | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1826e9f..be96589 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3804,24 +3804,24 @@ inline void Node::set(Attribute attribute, NodeValue value) {
         case clingo_ast_attribute_type_string_array: {
             auto val = get(attribute);
             auto &a = val.get<StringVector>();
-            auto &b = value.get<StringVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
-                a.clear();
-                for (auto x : b) {
-                    a.push_back(x);
-                }
+            auto const &b = value.get<StringVector>();
+            // the vectors might refer to the same node
+            std::vector<char const *> vec(b.begin(), b.end());
+            a.clear();
+            for (auto const &x : vec) {
+                a.push_back(x);
             }
             return;
         }
         case clingo_ast_attribute_type_ast_array: {
             auto val = get(attribute);
             auto &a = val.get<NodeVector>();
-            auto &b = value.get<NodeVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
-                a.clear();
-                for (auto x : b) {
-                    a.push_back(x);
-                }
+            auto const &b = value.get<NodeVector>();
+            // the vectors might refer to the same node
+            std::vector<Node> vec(b.begin(), b.end());
+            a.clear();
+            for (auto const &x : vec) {
+                a.push_back(x);
             }
             return;
         }
-- 
2.43.0


From 94d5bec91d2d43dba6051fb6ef3881e11a1314a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 25/48] fix: report errors when building C++ AST nodes

---
 libclingo/clingo.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index be96589..27d6f3f 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3624,7 +3624,7 @@ template <> struct construct_ast<0> {
             throw std::runtime_error("invalid argument");
         }
         clingo_ast_t *ret = nullptr;
-        clingo_ast_build(type, &ret, std::forward<Args>(args)...);
+        Detail::handle_error(clingo_ast_build(type, &ret, std::forward<Args>(args)...));
         return ret;
     }
 };
-- 
2.43.0


From da868232d684f9adcf79c25b82287740b8306425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 26/48] fix: Python ASTSequence supports all rich comparisons

The class is documented to implement them but only defined == and <.
---
 libpyclingo/clingo/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index cedb00c..43bf0cf 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -690,6 +690,7 @@ class UnaryOperator(IntEnum):
     """
 
 
+@total_ordering
 class ASTSequence(abc.MutableSequence):
     """
     A sequence holding `AST` nodes.
-- 
2.43.0


From d782b6e269629afc62f94cb70cd3e2bb630d96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 27/48] fix: C++ StringVector::set was declared but never
 defined

---
 libclingo/clingo.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 27d6f3f..67067b4 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4078,6 +4078,10 @@ inline StringVector::iterator StringVector::erase(iterator it) {
     return it;
 }
 
+inline void StringVector::set(iterator it, char const *str) {
+    Detail::handle_error(clingo_ast_attribute_set_string_at(ast_.to_c(), attr_, it - begin(), str));
+}
+
 inline StringRef StringVector::operator[](size_t idx) { return {this, idx}; }
 
 inline ValuePointer<StringRef> StringVector::at(size_t idx) { return operator[](idx); }
-- 
2.43.0


From d76500c8803179082bb5e24d839f1cb05b1a33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 28/48] fix: deep copies of syntax trees also copy optional
 children

They shared the optional children of the original.
---
 libclingo/src/astv2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingo/src/astv2.cc b/libclingo/src/astv2.cc
index e7e1759..bfa1b55 100644
--- a/libclingo/src/astv2.cc
+++ b/libclingo/src/astv2.cc
@@ -32,6 +32,9 @@ namespace {
 struct Deepcopy {
     template <typename T> AST::Value operator()(T const &val) { return val; }
     AST::Value operator()(SAST &ast) { return ast->deepcopy(); }
+    AST::Value operator()(OAST &ast) {
+        return OAST{ast.ast.get() != nullptr ? ast.ast->deepcopy() : SAST{}};
+    }
     AST::Value operator()(AST::ASTVec &asts) {
         AST::ASTVec ret;
         ret.reserve(asts.size());
-- 
2.43.0


From db1a42f1f78be19c8fcf6ea5e8c09e5bd2bed9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 29/48] fix: solve handles, backends and views keep their
 control alive

---
 libluaclingo/luaclingo.cc     | 26 +++++++++++++++++++-
 libpyclingo/clingo/ast.py     |  1 +
 libpyclingo/clingo/control.py | 45 ++++++++++++++++++++++-------------
 3 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 2e9f718..995f905 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -233,6 +233,27 @@ template <typename T> constexpr luaL_Reg const Object<T>::meta[];
 template <typename T> constexpr lua_CFunction const Object<T>::index;
 template <typename T> constexpr lua_CFunction const Object<T>::newindex;
 
+// Ties the lifetime of the engine object's owner at the given stack index to the object on top of the stack.
+void keepAlive(lua_State *L, int owner) {
+    lua_pushvalue(L, owner);                                // +1
+    lua_getfield(L, LUA_REGISTRYINDEX, "clingo.keepAlive"); // +1
+    if (lua_isnil(L, -1)) {
+        lua_pop(L, 1);                                          // -1
+        lua_newtable(L);                                        // +1
+        lua_newtable(L);                                        // +1
+        lua_pushstring(L, "k");                                 // +1
+        lua_setfield(L, -2, "__mode");                          // -1
+        lua_setmetatable(L, -2);                                // -1
+        lua_pushvalue(L, -1);                                   // +1
+        lua_setfield(L, LUA_REGISTRYINDEX, "clingo.keepAlive"); // -1
+    }
+    lua_insert(L, -2);
+    lua_pushvalue(L, -3); // +1
+    lua_insert(L, -2);
+    lua_rawset(L, -3); // -2
+    lua_pop(L, 1);     // -1
+}
+
 // {{{1 wrap Any
 
 struct Any {
@@ -3429,6 +3450,7 @@ struct ControlWrap : Object<ControlWrap> {
         lua_rawset(L, 1);                // -2
 
         auto handle = SolveHandle::new_(L); // +1
+        keepAlive(L, 1);
         int handleIdx = lua_gettop(L);
         handle->ass = AnyWrap::new_<std::vector<clingo_literal_t>>(L); // +1
         handle->ctl = self.ctl;
@@ -3689,7 +3711,9 @@ struct ControlWrap : Object<ControlWrap> {
             return luaL_error(L, "backend not available");
         }
         call_c(L, clingo_backend_begin, backend);
-        return Backend::new_(L, backend);
+        Backend::new_(L, backend); // +1
+        keepAlive(L, 1);
+        return 1;
     }
 
     static int registerObserver(lua_State *L) {
diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 43bf0cf..fda3657 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -1409,6 +1409,7 @@ class ProgramBuilder(ContextManager["ProgramBuilder"]):
     """
 
     def __init__(self, control: Control):
+        self._control = control
         self._rep = _c_call(
             "clingo_program_builder_t*", _lib.clingo_program_builder_init, control._rep
         )
diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 8f6d398..8bfbe5d 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -249,6 +249,12 @@ class Control:
         self._statistics_call = -1.0
         self._error = _Error()
 
+    def _tie(self, rep):
+        """
+        Keep the control alive as long as one of its objects is in use.
+        """
+        return _ffi.gc(rep, lambda _, control=self: None)
+
     def __del__(self):
         if self._free:
             _lib.clingo_control_free(self._rep)
@@ -465,7 +471,9 @@ class Control:
         clingo.backend
         """
         return Backend(
-            _c_call("clingo_backend_t*", _lib.clingo_control_backend, self._rep),
+            self._tie(
+                _c_call("clingo_backend_t*", _lib.clingo_control_backend, self._rep)
+            ),
             self._error,
         )
 
@@ -1070,16 +1078,18 @@ class Control:
             mode |= _lib.clingo_solve_mode_async
 
         handle = SolveHandle(
-            _c_call(
-                "clingo_solve_handle_t*",
-                _lib.clingo_control_solve,
-                self._rep,
-                mode,
-                p_ass,
-                len(lits),
-                _lib.pyclingo_solve_event_callback,
-                self._handler,
-                handler=data,
+            self._tie(
+                _c_call(
+                    "clingo_solve_handle_t*",
+                    _lib.clingo_control_solve,
+                    self._rep,
+                    mode,
+                    p_ass,
+                    len(lits),
+                    _lib.pyclingo_solve_event_callback,
+                    self._handler,
+                    handler=data,
+                )
             ),
             data,
         )
@@ -1105,7 +1115,7 @@ class Control:
             "clingo_configuration_t*", _lib.clingo_control_configuration, self._rep
         )
         key = _c_call("clingo_id_t", _lib.clingo_configuration_root, conf)
-        return Configuration(conf, key)
+        return Configuration(self._tie(conf), key)
 
     @property
     def enable_cleanup(self) -> bool:
@@ -1215,10 +1225,12 @@ class Control:
         clingo.symbolic_atoms
         """
         return SymbolicAtoms(
-            _c_call(
-                "clingo_symbolic_atoms_t*",
-                _lib.clingo_control_symbolic_atoms,
-                self._rep,
+            self._tie(
+                _c_call(
+                    "clingo_symbolic_atoms_t*",
+                    _lib.clingo_control_symbolic_atoms,
+                    self._rep,
+                )
             )
         )
 
@@ -1235,6 +1247,7 @@ class Control:
             "clingo_theory_atoms_t*", _lib.clingo_control_theory_atoms, self._rep
         )
         size = _c_call("size_t", _lib.clingo_theory_atoms_size, atoms)
+        atoms = self._tie(atoms)
 
         for idx in range(size):
             yield TheoryAtom(atoms, idx)
-- 
2.43.0


From 3bddd96c66ce1c03a7444343f3fbefeeaec2b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 30/48] fix: closed solve handles and Lua backends are not used
 again

---
 libluaclingo/luaclingo.cc     | 30 +++++++++++++++++++-----------
 libpyclingo/clingo/solving.py | 12 ++++++++++--
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 995f905..01a3911 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1760,6 +1760,13 @@ struct SolveHandle : Object<SolveHandle> {
         }
         return *static_cast<SolveHandle *>(p);
     }
+    static clingo_solve_handle_t *get_handle(lua_State *L, int offset = 1) {
+        auto *handle = get_self(L, offset).handle;
+        if (handle == nullptr) {
+            luaL_error(L, "solve handle is closed");
+        }
+        return handle;
+    }
     static SolveHandle *new_(lua_State *L) {
         lua_newtable(L);                                                     // +1
         auto *self = (SolveHandle *)lua_newuserdata(L, sizeof(SolveHandle)); // +1
@@ -1791,9 +1798,9 @@ struct SolveHandle : Object<SolveHandle> {
         return 0;
     }
     static int next(lua_State *L) {
-        auto &handle = get_self(L, lua_upvalueindex(1));
-        call_c(L, clingo_solve_handle_resume, handle.handle);
-        clingo_model_t const *model = call_c(L, clingo_solve_handle_model, handle.handle);
+        auto *handle = get_handle(L, lua_upvalueindex(1));
+        call_c(L, clingo_solve_handle_resume, handle);
+        clingo_model_t const *model = call_c(L, clingo_solve_handle_model, handle);
         if (model) {
             Model::new_(L, model);
         } else {
@@ -1808,18 +1815,15 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int get(lua_State *L) {
-        auto &self = get_self(L);
-        SolveResult::new_(L, call_c(L, clingo_solve_handle_get, self.handle));
+        SolveResult::new_(L, call_c(L, clingo_solve_handle_get, get_handle(L)));
         return 1;
     }
     static int resume(lua_State *L) {
-        auto &self = get_self(L);
-        call_c(L, clingo_solve_handle_resume, self.handle);
+        call_c(L, clingo_solve_handle_resume, get_handle(L));
         return 0;
     }
     static int cancel(lua_State *L) {
-        auto &self = get_self(L);
-        handle_c_error(L, clingo_solve_handle_cancel(self.handle));
+        handle_c_error(L, clingo_solve_handle_cancel(get_handle(L)));
         return 0;
     }
     static int on_model_(lua_State *L) {
@@ -1833,7 +1837,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 0;
     }
     static int core(lua_State *L) {
-        auto core = call_c(L, clingo_solve_handle_core, get_self(L).handle);
+        auto core = call_c(L, clingo_solve_handle_core, get_handle(L));
         if (core.first == nullptr) {
             lua_pushnil(L); // +1
         } else {
@@ -2111,6 +2115,7 @@ luaL_Reg const ExternalType::meta[] = {
 
 struct Backend : Object<Backend> {
     clingo_backend_t *backend;
+    bool closed = false;
 
     Backend(clingo_backend_t *backend) : backend(backend) {}
 
@@ -2206,7 +2211,10 @@ struct Backend : Object<Backend> {
 
     static int close(lua_State *L) {
         auto &self = get_self(L);
-        handle_c_error(L, clingo_backend_end(self.backend));
+        if (!self.closed) {
+            self.closed = true;
+            handle_c_error(L, clingo_backend_end(self.backend));
+        }
         return 0;
     }
 };
diff --git a/libpyclingo/clingo/solving.py b/libpyclingo/clingo/solving.py
index d4d727a..7eff9bd 100644
--- a/libpyclingo/clingo/solving.py
+++ b/libpyclingo/clingo/solving.py
@@ -518,9 +518,15 @@ class SolveHandle(ContextManager["SolveHandle"]):
     """
 
     def __init__(self, rep, handler):
-        self._rep = rep
+        self._handle = rep
         self._handler = handler
 
+    @property
+    def _rep(self):
+        if self._handle is None:
+            raise RuntimeError("solve handle is closed")
+        return self._handle
+
     def __iter__(self) -> Iterator[Model]:
         while True:
             self.resume()
@@ -533,7 +539,9 @@ class SolveHandle(ContextManager["SolveHandle"]):
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _handle_error(_lib.clingo_solve_handle_close(self._rep), self._handler)
+        if self._handle is not None:
+            rep, self._handle = self._handle, None
+            _handle_error(_lib.clingo_solve_handle_close(rep), self._handler)
         return False
 
     def cancel(self) -> None:
-- 
2.43.0


From c6c299c79d469ac3cb19d820b539bfb6cbe260cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 31/48] fix: define the move assignment of the C++ program
 builder

---
 libclingo/clingo.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 67067b4..4ab4771 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4123,6 +4123,11 @@ inline ProgramBuilder::ProgramBuilder(ProgramBuilder &&builder) noexcept : build
     std::swap(builder_, builder.builder_);
 }
 
+inline ProgramBuilder &ProgramBuilder::operator=(ProgramBuilder &&builder) noexcept {
+    std::swap(builder_, builder.builder_);
+    return *this;
+}
+
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
         auto *builder = builder_;
-- 
2.43.0


From 2bed8c670326cad15a64ba3abe851e21f02b8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 32/48] fix: C++ optionals survive assignments from themselves
 and can be emplaced

---
 libclingo/clingo.hh | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 4ab4771..5d8d498 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -172,17 +172,14 @@ template <class T> class Optional {
     Optional(Optional &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional(Optional const &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional &operator=(T const &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &&x) {
-        clear();
         data_.reset(new T(std::move(x)));
         return *this;
     }
@@ -191,7 +188,6 @@ template <class T> class Optional {
         return *this;
     }
     Optional &operator=(Optional const &opt) {
-        clear();
         data_.reset(opt ? new T(*opt) : nullptr);
         return *this;
     }
@@ -204,8 +200,7 @@ template <class T> class Optional {
     T &&operator*() && { return std::move(*get()); }
     T const &&operator*() const && { return std::move(*get()); }
     template <class... Args> void emplace(Args &&...x) {
-        clear();
-        data_(new T{std::forward<Args>(x)...});
+        data_.reset(new T{std::forward<Args>(x)...});
     }
     void clear() { data_.reset(nullptr); }
     explicit operator bool() const { return data_ != nullptr; }
-- 
2.43.0


From 60e446d5ffef8eb521c236a524939b99f5d7b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 33/48] fix: copying a moved-from C++ syntax tree node crashed

---
 libclingo/clingo.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 5d8d498..248e7ff 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3662,7 +3662,11 @@ Node::Node(Type type, Args &&...args)
           g_clingo_ast_constructors.constructors[static_cast<size_t>(type)], // NOLINT
           std::forward<Args>(args)...)} {}
 
-inline Node::Node(Node const &ast) : ast_{ast.ast_} { clingo_ast_acquire(ast_); }
+inline Node::Node(Node const &ast) : ast_{ast.ast_} {
+    if (ast_ != nullptr) {
+        clingo_ast_acquire(ast_);
+    }
+}
 
 inline Node::Node(Node &&ast) noexcept : ast_{ast.ast_} { ast.ast_ = nullptr; }
 
-- 
2.43.0


From f86c91341eafdbd2ff906d8feb306cf186e2f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 34/48] fix: Lua configurations, symbolic atoms and theory
 atoms keep their control alive

---
 libluaclingo/luaclingo.cc | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 01a3911..2829865 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -675,6 +675,7 @@ struct TheoryTerm : Object<TheoryTerm> {
         int i = 1;
         for (auto it = ret.first, ie = it + ret.second; it != ie; ++it) {
             new_(L, self.atoms, *it);
+            keepAlive(L, 1);
             lua_rawseti(L, -2, i++);
         }
         return 1;
@@ -731,6 +732,7 @@ struct TheoryElement : Object<TheoryElement> {
         int i = 1;
         for (auto it = ret.first, ie = it + ret.second; it != ie; ++it) {
             TheoryTerm::new_(L, self.atoms, *it);
+            keepAlive(L, 1);
             lua_rawseti(L, -2, i++);
         }
         return 1;
@@ -802,6 +804,7 @@ struct TheoryAtom : Object<TheoryAtom> {
         int i = 1;
         for (auto it = ret.first, ie = it + ret.second; it != ie; ++it) {
             TheoryElement::new_(L, self.atoms, *it);
+            keepAlive(L, 1);
             lua_rawseti(L, -2, i++);
         }
         return 1;
@@ -809,7 +812,9 @@ struct TheoryAtom : Object<TheoryAtom> {
 
     static int term(lua_State *L) {
         auto &self = get_self(L);
-        return TheoryTerm::new_(L, self.atoms, call_c(L, clingo_theory_atoms_atom_term, self.atoms, self.id));
+        TheoryTerm::new_(L, self.atoms, call_c(L, clingo_theory_atoms_atom_term, self.atoms, self.id));
+        keepAlive(L, 1);
+        return 1;
     }
 
     static int literal(lua_State *L) {
@@ -829,6 +834,7 @@ struct TheoryAtom : Object<TheoryAtom> {
         lua_pushstring(L, ret.first);
         lua_rawseti(L, -2, 1);
         TheoryTerm::new_(L, self.atoms, ret.second);
+        keepAlive(L, 1);
         lua_rawseti(L, -2, 2);
         return 1;
     }
@@ -874,7 +880,8 @@ struct TheoryIter {
     static int iter(lua_State *L, clingo_theory_atoms_t const *atoms) {
         lua_pushlightuserdata(L, const_cast<clingo_theory_atoms_t *>(atoms));
         lua_pushinteger(L, 0);
-        lua_pushcclosure(L, iter_, 2);
+        lua_pushvalue(L, 1);
+        lua_pushcclosure(L, iter_, 3);
         return 1;
     }
 
@@ -885,6 +892,7 @@ struct TheoryIter {
             lua_pushinteger(L, idx + 1);
             lua_replace(L, lua_upvalueindex(2));
             TheoryAtom::new_(L, atoms, idx);
+            keepAlive(L, lua_upvalueindex(3));
         } else {
             lua_pushnil(L);
         }
@@ -1278,6 +1286,7 @@ struct SymbolicAtoms : Object<SymbolicAtoms> {
             lua_pushvalue(L, lua_upvalueindex(1)); // +1
             auto next = call_c(L, clingo_symbolic_atoms_next, current->atoms, current->iter);
             SymbolicAtom::new_(L, current->atoms, next); // +1
+            keepAlive(L, lua_upvalueindex(2));
             lua_replace(L, lua_upvalueindex(1));         // -1
         } else {
             lua_pushnil(L);
@@ -1295,7 +1304,9 @@ struct SymbolicAtoms : Object<SymbolicAtoms> {
         auto &self = get_self(L);
         auto range = call_c(L, clingo_symbolic_atoms_begin, self.atoms, nullptr);
         SymbolicAtom::new_(L, self.atoms, range); // +1
-        lua_pushcclosure(L, symbolicAtomIter, 1); // +0
+        keepAlive(L, 1);
+        lua_pushvalue(L, 1);                      // +1
+        lua_pushcclosure(L, symbolicAtomIter, 2); // -1
         return 1;
     }
 
@@ -1305,6 +1316,7 @@ struct SymbolicAtoms : Object<SymbolicAtoms> {
         auto range = call_c(L, clingo_symbolic_atoms_find, self.atoms, atom);
         if (call_c(L, clingo_symbolic_atoms_is_valid, self.atoms, range)) {
             SymbolicAtom::new_(L, self.atoms, range); // +1
+            keepAlive(L, 1);
         } else {
             lua_pushnil(L);
         } // +1
@@ -1319,7 +1331,9 @@ struct SymbolicAtoms : Object<SymbolicAtoms> {
         clingo_signature_t sig = call_c(L, clingo_signature_create, name, arity, positive);
         auto range = call_c(L, clingo_symbolic_atoms_begin, self.atoms, &sig);
         SymbolicAtom::new_(L, self.atoms, range); // +1
-        lua_pushcclosure(L, symbolicAtomIter, 1); // +0
+        keepAlive(L, 1);
+        lua_pushvalue(L, 1);                      // +1
+        lua_pushcclosure(L, symbolicAtomIter, 2); // -1
         return 1;
     }
 
@@ -2000,7 +2014,9 @@ struct Configuration : Object<Configuration> {
                 lua_replace(L, -2);     // -1
                 return 1;
             } else {
-                return Configuration::new_(L, self.conf, subkey);
+                Configuration::new_(L, self.conf, subkey); // +1
+                keepAlive(L, 1);
+                return 1;
             } // +1
         }
 
@@ -2025,7 +2041,9 @@ struct Configuration : Object<Configuration> {
         size_t size = call_c(L, clingo_configuration_array_size, self.conf, self.key);
         if (index < size) {
             auto key = call_c(L, clingo_configuration_array_at, self.conf, self.key, index);
-            return new_(L, self.conf, key);
+            new_(L, self.conf, key); // +1
+            keepAlive(L, lua_upvalueindex(1));
+            return 1;
         } else {
             lua_pushnil(L);
             return 1;
@@ -3595,10 +3613,14 @@ struct ControlWrap : Object<ControlWrap> {
         } else if (strcmp(name, "configuration") == 0) {
             auto conf = call_c(L, clingo_control_configuration, self.ctl);
             auto key = call_c(L, clingo_configuration_root, conf);
-            return Configuration::new_(L, conf, key);
+            Configuration::new_(L, conf, key); // +1
+            keepAlive(L, 1);
+            return 1;
         } else if (strcmp(name, "symbolic_atoms") == 0) {
             auto atoms = call_c(L, clingo_control_symbolic_atoms, self.ctl);
-            return SymbolicAtoms::new_(L, atoms);
+            SymbolicAtoms::new_(L, atoms); // +1
+            keepAlive(L, 1);
+            return 1;
         } else if (strcmp(name, "theory_atoms") == 0) {
             auto atoms = call_c(L, clingo_control_theory_atoms, self.ctl);
             return TheoryIter::iter(L, atoms);
-- 
2.43.0


From 19b18ab5ad103e0645919eebed3d965d8dc1c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 35/48] fix: Python Theory.rewrite_ast: use the callback data
 of _internal

The local class of the same name took no error object; with it rewrite_ast failed
after 0af186b, and without errors of the callback could not be raised again.
---
 libpyclingo/clingo/theory.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index 165c9bd..6eac650 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -89,17 +89,6 @@ __all__ = ["Theory"]
 ValueType = Union[int, float, Symbol]
 
 
-class _CBData:  # pylint: disable=too-few-public-methods
-    """
-    The class stores the data object that should be passed to a callback as
-    well as provides the means to set an error while a callback is running.
-    """
-
-    def __init__(self, data):
-        self.data = data
-        self.error = None
-
-
 class Theory:
     """
     Interface to call functions from a C-library extending clingo's C/Python
-- 
2.43.0


From 5377da151d1ae6f7604e30af9abbea76de26b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 36/48] fix: Python Theory: destroy the theory when it is not
 used anymore

The registered error handler kept the object alive, and a failing constructor
left an object whose destructor raised.
---
 libpyclingo/clingo/theory.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index 6eac650..7594f76 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -116,6 +116,7 @@ class Theory:
         self._pre = prefix
         self._lib = lib
         self._ffi = ffi
+        self._theory = None
         self._theory = self.__call1(self.__pre("theory_t*"), "create")
         self._rewrite = self.__define_rewrite()
 
@@ -125,23 +126,26 @@ class Theory:
     def __get(self, name, extra=""):
         return getattr(self._lib, self.__pre(name, extra))
 
-    def __error_handler(self, exception, exc_value, traceback) -> bool:
-        if traceback is not None:
-            cb_data = self._ffi.from_handle(traceback.tb_frame.f_locals["data"])
-            cb_data.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
-        else:
-            _lib.clingo_set_error(
-                _lib.clingo_error_runtime, "error in callback".encode()
-            )
-        return False
-
     def __define_rewrite(self):
-        @self._ffi.def_extern(
-            name=self.__pre("rewrite", "py"), onerror=self.__error_handler
-        )
+        # the functions registered here must not keep the theory alive
+        ffi = self._ffi
+
+        def error_handler(exception, exc_value, traceback) -> bool:
+            if traceback is not None:
+                cb_data = ffi.from_handle(traceback.tb_frame.f_locals["data"])
+                cb_data.error = (exception, exc_value, traceback)
+                _lib.clingo_set_error(
+                    _lib.clingo_error_unknown, str(exc_value).encode()
+                )
+            else:
+                _lib.clingo_set_error(
+                    _lib.clingo_error_runtime, "error in callback".encode()
+                )
+            return False
+
+        @ffi.def_extern(name=self.__pre("rewrite", "py"), onerror=error_handler)
         def rewrite(ast, data):
-            add = self._ffi.from_handle(data).data
+            add = ffi.from_handle(data).data
             ast = _ffi.cast("clingo_ast_t*", ast)
             _lib.clingo_ast_acquire(ast)
             add(AST(ast))
-- 
2.43.0


From e0e0081150249f558a00fb42b5cb56194c49407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 37/48] fix: IntervalSet::intersect: no empty intervals where
 intervals touch

---
 libgringo/gringo/intervals.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgringo/gringo/intervals.hh b/libgringo/gringo/intervals.hh
index d304e10..25b37a4 100644
--- a/libgringo/gringo/intervals.hh
+++ b/libgringo/gringo/intervals.hh
@@ -195,7 +195,7 @@ template <class T> class IntervalSet {
         auto it = vec_.begin();
         IntervalSet intersection;
         for (auto &x : set.vec_) {
-            for (; it != vec_.end() && it->right < x.left; ++it) {
+            for (; it != vec_.end() && !(x.left < it->right); ++it) {
             }
             for (; it != vec_.end() && it->right <= x.right; ++it) {
                 intersection.vec_.emplace_back(Interval{std::max(it->left, x.left), it->right});
-- 
2.43.0


From 2eac9e0a0cc3656f10f564949232926759fcaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 38/48] fix: IESolver: bound the number of rounds that merely
 refine bounds

---
 libgringo/src/term.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 156391e..8d23757 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -378,8 +378,14 @@ void IESolver::compute() {
     }
 
     // compute bounds
+    // Note: A fixed point might only be reached when bounds exceed the range of integers (for example, given
+    // X>=0, X+1<=Y, and Y<=X). Intermediate bounds are safe approximations too. Hence, the number of rounds that
+    // merely refine bounds is limited.
+    constexpr int max_rounds = 10000;
+    int rounds = 0;
+    size_t num_bounds = 0;
     bool changed = true;
-    while (changed) {
+    while (changed && rounds < max_rounds) {
         changed = false;
         for (auto const &ie : ies_) {
             slack_t slack = ie.bound;
@@ -412,6 +418,12 @@ void IESolver::compute() {
                 }
             }
         }
+        size_t num = 0;
+        for (auto const &bound : bounds_) {
+            num += (bound.second.isSet(IEBound::Lower) ? 1 : 0) + (bound.second.isSet(IEBound::Upper) ? 1 : 0);
+        }
+        rounds = num > num_bounds ? 0 : rounds + 1;
+        num_bounds = num;
     }
 
     // add computed bounds and then compute bounds for nested scopes
-- 
2.43.0


From 2dfc1a160aea1d5f8385b6b60d0474e172b4811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 39/48] fix: do not shift choices whose local variables would
 capture those of body aggregates

---
 libgringo/src/input/aggregates.cc | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/input/aggregates.cc b/libgringo/src/input/aggregates.cc
index 39b40f3..b0a695f 100644
--- a/libgringo/src/input/aggregates.cc
+++ b/libgringo/src/input/aggregates.cc
@@ -33,6 +33,7 @@
 #include <algorithm>
 #include <cmath>
 #include <ostream>
+#include <set>
 #include <tuple>
 #ifdef _MSC_VER
 #pragma warning(disable : 4503) // decorated name length exceeded
@@ -1464,10 +1465,37 @@ void TupleHeadAggregate::collect(VarTermBoundVec &vars) const {
     }
 }
 
+namespace {
+
+bool sharesLocal_(HeadAggrElem const &elem, UBodyAggrVec const &body) {
+    VarTermBoundVec vars;
+    elem.collect(vars, false);
+    std::set<String> locals;
+    for (auto const &var : vars) {
+        if (var.first->level > 0) {
+            locals.emplace(var.first->name);
+        }
+    }
+    if (locals.empty()) {
+        return false;
+    }
+    vars.clear();
+    for (auto const &lit : body) {
+        lit->collect(vars);
+    }
+    return std::any_of(vars.begin(), vars.end(), [&locals](auto const &var) {
+        return var.first->level > 0 && locals.find(var.first->name) != locals.end();
+    });
+}
+
+} // namespace
+
 UHeadAggr TupleHeadAggregate::rewriteAggregates(UBodyAggrVec &aggr) {
     // NOTE: if it were possible to add further rules here,
     // then also aggregates with more than one element could be supported
-    if (elems_.size() == 1 && bounds_.empty()) {
+    // NOTE: local variables of the element become global and
+    // must not capture local variables of body literals
+    if (elems_.size() == 1 && bounds_.empty() && !sharesLocal_(elems_.front(), aggr)) {
         elems_.front().shiftCondition(aggr, fun_ == AggregateFunction::SUM || fun_ == AggregateFunction::SUMP);
     }
     return nullptr;
-- 
2.43.0


From b93e71701c594f33134bd2ae7720d2717029a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 40/48] fix: pass the steps option on to the reification
 backend

---
 libgringo/src/output/output.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgringo/src/output/output.cc b/libgringo/src/output/output.cc
index acc3eb6..566a095 100644
--- a/libgringo/src/output/output.cc
+++ b/libgringo/src/output/output.cc
@@ -840,7 +840,7 @@ UBackend make_backend(std::unique_ptr<std::ostream> out, OutputFormat format, bo
     UBackend backend;
     switch (format) {
         case OutputFormat::REIFY: {
-            backend = gringo_make_unique<BackendAdapter<Reify::Reifier>>(std::move(out), reify_sccs, reify_sccs);
+            backend = gringo_make_unique<BackendAdapter<Reify::Reifier>>(std::move(out), reify_sccs, reify_steps);
             break;
         }
         case OutputFormat::INTERMEDIATE: {
-- 
2.43.0


From 872275ae9d1865bb99e6bdfae49e47b01867cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 41/48] fix: add up the weights of repeated literals when
 reifying

---
 libreify/src/program.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libreify/src/program.cc b/libreify/src/program.cc
index 5afc12f..f6924da 100644
--- a/libreify/src/program.cc
+++ b/libreify/src/program.cc
@@ -92,10 +92,17 @@ size_t Reifier::theoryElementTuple(IdSpan const &args) {
 size_t Reifier::litTuple(LitSpan const &args) { return tuple(stepData_.litTuples, "literal_tuple", args); }
 
 size_t Reifier::weightLitTuple(WeightLitSpan const &args) {
+    // NOTE: facts form a set; so weights of repeated literals have to be added up
     WLVec lits;
     lits.reserve(args.size);
+    std::unordered_map<Lit_t, size_t> index;
     for (auto &x : args) {
-        lits.emplace_back(x.lit, x.weight);
+        auto ret = index.emplace(x.lit, lits.size());
+        if (ret.second) {
+            lits.emplace_back(x.lit, x.weight);
+        } else {
+            lits[ret.first->second].second += x.weight;
+        }
     }
     return tuple(stepData_.weightLitTuples, "weighted_literal_tuple", std::move(lits));
 }
-- 
2.43.0


From ee1590a00ce850a8bc67b04cc2fe078e105bd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 42/48] fix: do not crash when the minimum integer is divided
 by -1

---
 libgringo/src/term.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 8d23757..b5df370 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -848,14 +848,16 @@ int eval(BinOp op, int x, int y) {
         }
         case BinOp::MOD: {
             assert(y != 0 && "must be checked before call");
-            return x % y;
+            // NOTE: the minimum integer cannot be divided by -1
+            return y == -1 ? 0 : x % y;
         }
         case BinOp::POW: {
             return ipow(x, y);
         }
         case BinOp::DIV: {
             assert(y != 0 && "must be checked before call");
-            return x / y;
+            // NOTE: the minimum integer cannot be divided by -1
+            return y == -1 ? static_cast<int>(-static_cast<unsigned>(x)) : x / y;
         }
     }
     assert(false);
-- 
2.43.0


From 709a128121e140803ca2b2602372d035d82842b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 43/48] fix: treat modulo zero and negative powers of zero as
 undefined when parsing terms

---
 libgringo/src/input/groundtermparser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/input/groundtermparser.cc b/libgringo/src/input/groundtermparser.cc
index ae6667a..b176bc5 100644
--- a/libgringo/src/input/groundtermparser.cc
+++ b/libgringo/src/input/groundtermparser.cc
@@ -42,7 +42,9 @@ Symbol GroundTermParser::parse(std::string const &str, Logger &log) {
 }
 
 Symbol GroundTermParser::term(BinOp op, Symbol a, Symbol b) {
-    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num && (op != BinOp::DIV || b.num() != 0)) {
+    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num &&
+        ((op != BinOp::DIV && op != BinOp::MOD) || b.num() != 0) &&
+        (op != BinOp::POW || a.num() != 0 || b.num() >= 0)) {
         return Symbol::createNum(Gringo::eval(op, a.num(), b.num()));
     }
     undefined_ = true;
-- 
2.43.0


From e3127989af612338bd1df5a71e012fcaf10454ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 44/48] fix: stop enumerating intervals that end with the
 maximum integer

---
 libgringo/src/ground/literals.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libgringo/src/ground/literals.cc b/libgringo/src/ground/literals.cc
index 3c376df..9bdb2bd 100644
--- a/libgringo/src/ground/literals.cc
+++ b/libgringo/src/ground/literals.cc
@@ -63,7 +63,7 @@ class RangeBinder : public Binder {
     bool next() override {
         // Note: if assign does not match it is not a variable and will not match at all
         //       if assign is just a number, then this is handled in the corresponding Binder
-        return current_ <= end_ && assign_->match(Symbol::createNum(current_++));
+        return current_ <= end_ && assign_->match(Symbol::createNum(static_cast<int>(current_++)));
     }
 
     void print(std::ostream &out) const override { out << *assign_ << "=" << *range_.first << ".." << *range_.second; }
@@ -71,8 +71,9 @@ class RangeBinder : public Binder {
   private:
     UTerm assign_;
     RangeLiteralShared &range_;
-    int current_ = 0;
-    int end_ = 0;
+    // NOTE: the end might be the maximum integer
+    int64_t current_ = 0;
+    int64_t end_ = 0;
 };
 
 // }}}
-- 
2.43.0


From 938b9daee74570aca8ed227083f9cb58b99d6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 45/48] fix: do not crash when inverting linear terms with
 extreme coefficients

---
 libgringo/gringo/term.hh |  3 ++-
 libgringo/src/term.cc    | 26 ++++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/libgringo/gringo/term.hh b/libgringo/gringo/term.hh
index b811f04..4795abd 100644
--- a/libgringo/gringo/term.hh
+++ b/libgringo/gringo/term.hh
@@ -760,7 +760,8 @@ class LinearTerm : public Term {
     UVarTerm toVar();
     void invert();
     void add(int c);
-    void mul(int c);
+    //! Multiply the term unless the coefficient of its variable would vanish.
+    bool mul(int c);
 
     bool addToLinearTerm(IETermVec &terms) const override;
     unsigned projectScore() const override;
diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index b5df370..fb3efb3 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -651,10 +651,10 @@ bool GLinearTerm::match(Symbol const &x) {
     }
     int y = x.num();
     y -= n_;
-    if (y % m_ != 0) {
+    if (Gringo::eval(BinOp::MOD, y, m_) != 0) {
         return false;
     }
-    y /= m_;
+    y = Gringo::eval(BinOp::DIV, y, m_);
     if (*ref_) {
         return ref_->match(Symbol::createNum(y));
     }
@@ -1611,9 +1611,14 @@ void LinearTerm::invert() {
 
 void LinearTerm::add(int c) { n_ += c; }
 
-void LinearTerm::mul(int c) {
-    m_ *= c;
-    n_ *= c;
+bool LinearTerm::mul(int c) {
+    auto m = static_cast<int>(static_cast<unsigned>(m_) * static_cast<unsigned>(c));
+    if (m == 0) {
+        return false;
+    }
+    m_ = m;
+    n_ = static_cast<int>(static_cast<unsigned>(n_) * static_cast<unsigned>(c));
+    return true;
 }
 
 unsigned LinearTerm::projectScore() const { return 0; }
@@ -1684,8 +1689,8 @@ bool LinearTerm::match(Symbol const &val) const {
     if (val.type() == SymbolType::Num) {
         assert(m_ != 0);
         int c(val.num() - n_);
-        if (c % m_ == 0) {
-            return var_->match(Symbol::createNum(c / m_));
+        if (Gringo::eval(BinOp::MOD, c, m_) == 0) {
+            return var_->match(Symbol::createNum(Gringo::eval(BinOp::DIV, c, m_)));
         }
     }
     return false;
@@ -2046,8 +2051,7 @@ Term::SimplifyRet BinOpTerm::simplify(SimplifyState &state, bool positional, boo
             retRight.lin().add(retLeft.value().num());
             return retRight;
         }
-        if (op_ == BinOp::MUL) {
-            retRight.lin().mul(retLeft.value().num());
+        if (op_ == BinOp::MUL && retRight.lin().mul(retLeft.value().num())) {
             return retRight;
         }
     } else if (retLeft.type() == SimplifyRet::LINEAR && retRight.type() == SimplifyRet::CONSTANT) {
@@ -2059,9 +2063,7 @@ Term::SimplifyRet BinOpTerm::simplify(SimplifyState &state, bool positional, boo
             retLeft.lin().add(-retRight.value().num());
             return retLeft;
         }
-        if (op_ == BinOp::MUL) {
-            // multiply
-            retLeft.lin().mul(retRight.value().num());
+        if (op_ == BinOp::MUL && retLeft.lin().mul(retRight.value().num())) {
             return retLeft;
         }
     }
-- 
2.43.0


From c6ac4845394f9fb642fae9d11f4bed60986f0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:56 +0000
Subject: [PATCH 46/48] fix: let the atoms of recursive conditional
 disjunctions grow old along with the component

---
 libgringo/src/ground/statements.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/ground/statements.cc b/libgringo/src/ground/statements.cc
index 4823526..19b2870 100644
--- a/libgringo/src/ground/statements.cc
+++ b/libgringo/src/ground/statements.cc
@@ -2320,7 +2320,12 @@ void DisjunctionComplete::linearize(Context &context, bool positive, Logger &log
 
 void DisjunctionComplete::enqueue(Queue &q) {
     for (DisjunctionAccumulate &x : accu_) {
-        x.predDef().init();
+        if (x.predDef()) {
+            x.predDef().init();
+            // Note: other statements in the component are instantiated before
+            //       this one; the generation has to advance along with them
+            q.enqueue(x.predDef().dom());
+        }
     }
     q.enqueue(inst_);
 }
-- 
2.43.0


From 45de6a96ea8ebeecbb1fd0a9b626d0e5227f637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 47/48] fix: Lua: reject numbers and values that cannot be
 represented

---
 libluaclingo/luaclingo.cc | 65 ++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 2829865..c959246 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -340,6 +340,17 @@ template <class T, class S> inline T numeric_cast(S s) {
     return static_cast<T>(s);
 }
 
+// Gets the integer at the given index and raises an error if the given type cannot represent it.
+template <class T> T luaToInteger(lua_State *L, int index) {
+    lua_Integer value = luaL_checkinteger(L, index);
+    auto ret = static_cast<T>(value);
+    if (lua_tonumber(L, index) != static_cast<lua_Number>(value) || static_cast<lua_Integer>(ret) != value ||
+        (ret < 0) != (value < 0)) {
+        luaL_error(L, "integer out of range");
+    }
+    return ret;
+}
+
 clingo_symbol_t luaToVal(lua_State *L, int idx);
 
 #if LUA_VERSION_NUM < 502
@@ -390,6 +401,9 @@ void luaToCpp(lua_State *L, int index, bool &x) { x = lua_toboolean(L, index) !=
 
 void luaToCpp(lua_State *L, int index, std::string &x) {
     char const *str = lua_tostring(L, index);
+    if (!str) {
+        luaL_error(L, "string expected");
+    }
     PROTECT(x = str);
 }
 
@@ -398,7 +412,7 @@ void luaToCpp(lua_State *L, int index, T &x, typename std::enable_if<std::is_int
     if (lua_type(L, index) != LUA_TNUMBER) {
         luaL_error(L, "number expected");
     }
-    x = numeric_cast<T>(lua_tointeger(L, index));
+    x = luaToInteger<T>(L, index);
 }
 
 struct symbol_wrapper {
@@ -1004,7 +1018,7 @@ struct Term : Object<Term> {
     }
     static int newNumber(lua_State *L) {
         clingo_symbol_t sym;
-        clingo_symbol_create_number(numeric_cast<int>(luaL_checkinteger(L, 1)), &sym);
+        clingo_symbol_create_number(luaToInteger<int>(L, 1), &sym);
         return Term::new_(L, sym);
     }
     static int newString(lua_State *L) {
@@ -1126,7 +1140,7 @@ clingo_symbol_t luaToVal(lua_State *L, int idx) {
         }
         case LUA_TNUMBER: {
             clingo_symbol_t ret;
-            clingo_symbol_create_number(numeric_cast<int>(lua_tointeger(L, idx)), &ret);
+            clingo_symbol_create_number(luaToInteger<int>(L, idx), &ret);
             return ret;
         }
         case LUA_TUSERDATA: {
@@ -1326,7 +1340,7 @@ struct SymbolicAtoms : Object<SymbolicAtoms> {
     static int by_signature(lua_State *L) {
         auto &self = get_self(L);
         char const *name = luaL_checkstring(L, 2);
-        int arity = numeric_cast<int>(luaL_checkinteger(L, 3));
+        int arity = luaToInteger<int>(L, 3);
         bool positive = lua_isnone(L, 4) || lua_toboolean(L, 4);
         clingo_signature_t sig = call_c(L, clingo_signature_create, name, arity, positive);
         auto range = call_c(L, clingo_symbolic_atoms_begin, self.atoms, &sig);
@@ -2262,21 +2276,21 @@ struct Trail : Object<Trail> {
 
     static int begin(lua_State *L) {
         auto &self = get_self(L);
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = luaToInteger<uint32_t>(L, 2);
         lua_pushnumber(L, call_c(L, clingo_assignment_trail_begin, self.ass, level) + 1);
         return 1;
     }
 
     static int end(lua_State *L) {
         auto &self = get_self(L);
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = luaToInteger<uint32_t>(L, 2);
         lua_pushnumber(L, call_c(L, clingo_assignment_trail_end, self.ass, level));
         return 1;
     }
 
     static int pairs_iter_(lua_State *L) {
         auto &self = get_self(L);
-        auto idx = numeric_cast<int32_t>(luaL_checkinteger(L, 2));
+        auto idx = luaToInteger<int32_t>(L, 2);
         if (idx < self.size_(L)) {
             lua_pushinteger(L, idx + 1);
             lua_pushnumber(L, self.at_(L, idx));
@@ -2313,7 +2327,7 @@ struct Trail : Object<Trail> {
 
     static int at(lua_State *L) {
         auto &self = get_self(L);
-        auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
+        auto index = luaToInteger<int32_t>(L, 2) - 1;
         if (index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
@@ -2361,38 +2375,38 @@ struct Assignment : Object<Assignment> {
     }
 
     static int hasLit(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, clingo_assignment_has_literal(get_self(L).ass, lit));
         return 1;
     }
 
     static int level(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_assignment_level, get_self(L).ass, lit));
         return 1;
     }
 
     static int decision(lua_State *L) {
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = luaToInteger<uint32_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_assignment_decision, get_self(L).ass, level));
         return 1;
     }
 
     static int isFixed(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_fixed, get_self(L).ass, lit));
         return 1;
     }
 
     static int isTrue(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_true, get_self(L).ass, lit));
         return 1;
     }
 
     static int value(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         auto val = call_c(L, clingo_assignment_truth_value, self.ass, lit);
         if (val == clingo_truth_value_free) {
             lua_pushnil(L);
@@ -2403,7 +2417,7 @@ struct Assignment : Object<Assignment> {
     }
 
     static int isFalse(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_false, get_self(L).ass, lit));
         return 1;
     }
@@ -2562,7 +2576,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int mapLit(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_solver_literal, self.init, lit));
         return 1;
     }
@@ -2574,11 +2588,12 @@ struct PropagateInit : Object<PropagateInit> {
     }
     static int addWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         if (lua_isnone(L, 3) || lua_isnil(L, 3)) {
             handle_c_error(L, clingo_propagate_init_add_watch(self.init, lit));
         } else {
-            auto thread_id = numeric_cast<uint32_t>(luaL_checkinteger(L, 3));
+            auto thread_id = luaToInteger<uint32_t>(L, 3);
+            luaL_argcheck(L, thread_id > 0, 3, "invalid thread id");
             handle_c_error(L, clingo_propagate_init_add_watch_to_thread(self.init, lit, thread_id - 1));
         }
         return 0;
@@ -2608,7 +2623,7 @@ struct PropagateInit : Object<PropagateInit> {
         luaL_checknumber(L, 4);
         clingo_weight_constraint_type_t type = clingo_weight_constraint_type_equivalence;
         if (!lua_isnone(L, 5)) {
-            type = luaL_checknumber(L, 5);
+            type = luaToInteger<clingo_weight_constraint_type_t>(L, 5);
         }
         bool eq{!lua_isnone(L, 6) && lua_toboolean(L, 6)};
         clingo_literal_t lit;
@@ -2697,7 +2712,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int setState(lua_State *L) {
         auto &self = get_self(L);
-        auto id = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto id = luaToInteger<clingo_literal_t>(L, 2);
         luaL_checkany(L, 3);
         if (id < 1 || id > (int)clingo_propagate_init_number_of_threads(self.init)) {
             luaL_error(L, "invalid solver thread id %d", id);
@@ -2749,7 +2764,7 @@ struct PropagateControl : Object<PropagateControl> {
         auto lits = AnyWrap::new_<std::vector<clingo_literal_t>>(L);             // +1
         lua_pushnil(L);                                                          // +1
         while (lua_next(L, -3)) {                                                // -1
-            auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, -1)); // +0
+            auto lit = luaToInteger<clingo_literal_t>(L, -1); // +0
             PROTECT(lits->emplace_back(lit));
             lua_pop(L, 1);
         }
@@ -2784,21 +2799,21 @@ struct PropagateControl : Object<PropagateControl> {
 
     static int addWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         handle_c_error(L, clingo_propagate_control_add_watch(self.ctl, lit));
         return 0;
     }
 
     static int removeWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         clingo_propagate_control_remove_watch(self.ctl, lit);
         return 0;
     }
 
     static int hasWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaToInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, clingo_propagate_control_has_watch(self.ctl, lit));
         return 1;
     }
@@ -3018,7 +3033,7 @@ class Propagator {
             lua_pushvalue(L, 4);               // +1
             getState(L, self->T, thread_id);   // +1
             lua_call(L, 5, 1);                 // -5
-            *decision = lua_tointeger(L, -1);
+            *decision = lua_isnil(L, -1) ? 0 : luaToInteger<clingo_literal_t>(L, -1);
             lua_pop(L, 1); // +1
         } else {
             lua_pop(L, 2); // -2
-- 
2.43.0


From 9195e95cacacd8cb95b22d742154f9f5665d485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 48/48] fix: Lua: propagators without an init method crashed

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index c959246..4dd32da 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3738,7 +3738,7 @@ struct ControlWrap : Object<ControlWrap> {
         lua_newtable(T);
 
         clingo_propagator_t propagator = {
-            hasField(L, "init", 2) ? Propagator::init : nullptr,
+            Propagator::init,
             hasField(L, "propagate", 2) ? Propagator::propagate : nullptr,
             hasField(L, "undo", 2) ? Propagator::undo : nullptr,
             hasField(L, "check", 2) ? Propagator::check : nullptr,
-- 
2.43.0

