-------------------------------- MODULE Store -------------------------------
(* A mesh file with annotations: a tree of groups with named, typed arrays.  *)
(* A file is created (and empties an old one), groups and arrays are added,  *)
(* it is closed and re-opened for reading.  An array is what it was set to   *)
(* until the file is created anew, whatever else happens to this or to other *)
(* files.  Monitor (Broken/Effect) of the recorded calls; MC_Store explores  *)
(* the model itself.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

If(cond, name) == IF cond THEN {name} ELSE {}
Empty == [x \in {} |-> 0]
\* state of one file: opened for writing/reading/closed, groups, arrays
Init0 == [ mode |-> "closed", groups |-> {}, arr |-> Empty ]
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Broken(s, ev) ==
  CASE ev.op = "get" ->
         LET a == s.arr[ev.name] IN
              If(Len(ev.v) # Len(a.v), "length of an array")
         \cup If(Len(ev.v) = Len(a.v) /\ ev.v # a.v, "values of an array")
         \cup If(ev.guard # 1, "writes outside of the array")
    [] ev.op = "size" -> If(ev.res # Len(s.arr[ev.name].v), "size of an array")
    [] ev.op = "exists" -> If((ev.res = 1) # (ev.name \in s.groups \cup DOMAIN s.arr), "existence of a link")
    [] OTHER -> {}
Effect(s, ev) ==
  CASE ev.op = "create" -> [Init0 EXCEPT !.mode = "write"]
    [] ev.op = "open" -> [s EXCEPT !.mode = "read"]
    [] ev.op = "close" -> [s EXCEPT !.mode = "closed"]
    [] ev.op = "group" -> [s EXCEPT !.groups = @ \cup {ev.name}]
    [] ev.op = "set" -> [s EXCEPT !.arr = Ext(@, ev.name, [ty |-> ev.ty, v |-> ev.v])]
    [] OTHER -> s
\* the calls which the interface allows
Allowed(s, ev) ==
  CASE ev.op = "create" -> s.mode = "closed"
    [] ev.op = "open" -> s.mode = "closed"
    [] ev.op = "close" -> s.mode # "closed"
    [] ev.op = "group" -> s.mode = "write" /\ ev.name \notin s.groups
    [] ev.op = "set" -> s.mode = "write" /\ ev.name \notin DOMAIN s.arr
    [] ev.op = "get" -> s.mode # "closed" /\ ev.name \in DOMAIN s.arr /\ s.arr[ev.name].ty = ev.ty
    [] ev.op = "size" -> s.mode # "closed" /\ ev.name \in DOMAIN s.arr
    [] OTHER -> s.mode # "closed"
=============================================================================
