------------------------------- MODULE MCCache ------------------------------
(* Every history of cache object operations up to a bound; guarantees stated  *)
(* on the specification, and each transition written out as a script.         *)
EXTENDS CacheApi, Json, IOUtils
CONSTANTS Family, Depth, MaxW, MaxTick
Cfg == CASE Family = "disk" -> [caches |-> <<[kind |-> "disk", dir |-> 1, ttl |-> 2], [kind |-> "disk", dir |-> 1, ttl |-> 2]>>, dirs |-> 1, files |-> 1]
         [] Family = "disk2" -> [caches |-> <<[kind |-> "disk", dir |-> 1, ttl |-> 2]>>, dirs |-> 1, files |-> 2]
         [] Family = "mem" -> [caches |-> <<[kind |-> "mem", dir |-> 0, ttl |-> 2], [kind |-> "mem", dir |-> 0, ttl |-> 2]>>, dirs |-> 1, files |-> 2]
C == DOMAIN Cfg.caches
F == 1..Cfg.files
Common == [op : {"save"}, c : C, f : F, x : {"a", "b"}] \cup [op : {"load", "state"}, c : C, f : F] \cup [op : {"tick"}, n : {1}] \cup [op : {"scribble"}]
          \cup [op : {"ttl"}, c : C, ttl : {0, 1, 3}]
Ops == IF Family = "mem" THEN Common
       ELSE Common \cup [op : {"extput"}, d : {1}, f : F, x : {"b"}] \cup [op : {"extrm"}, d : {1}, f : F]
            \cup [op : {"rmdir", "break"}, d : {1}] \cup [op : {"initdir"}, c : C] \cup [op : {"savefail"}, c : C, f : F]
VARIABLES s, hist
vars == <<s, hist>>
View == s
Init == s = Start(Cfg) /\ hist = <<>>
Do(op) == /\ op.op \in {"save", "extput"} => s.w < MaxW
          /\ op.op = "tick" => s.now < MaxTick
          /\ s' = Step(Cfg, s, op).s
          /\ hist' = Append(hist, op)
          /\ PrintT(<<"S", ToJson(hist')>>)
Next == Len(hist) < Depth /\ \E op \in Ops : Do(op)
\* A file whose current version the object knows is never due for a reload,
\* and what is saved can be loaded.
Consistent == \A c \in C, f \in F :
    /\ State(Cfg, s, c, f).o.res \in {"absent", "expired", "good", "reload"}
    /\ (State(Cfg, s, c, f).o.res = "absent") = (Load(Cfg, s, c, f).o.res = "err")
    /\ LET l == Load(Cfg, s, c, f) IN l.o.res = "ok" => State(Cfg, l.s, c, f).o.res \in {"good", "expired"}
    /\ LET v == Save(Cfg, s, c, f, "z") IN v.o.res = "ok" => Load(Cfg, v.s, c, f).o.x = "z"
=============================================================================
