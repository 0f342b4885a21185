------------------------------- MODULE MCRes --------------------------------
(* The implementation's way through its resources: a bootstrap download that  *)
(* saves the file through a temporary one, then servers tried one after the   *)
(* other, any step failing. However it ends, everything has been given back.  *)
EXTENDS Resources, TLC
CONSTANT MaxServers
VARIABLES s,     \* the resources held
          pc,    \* the next step
          n,     \* the server being tried
          defer  \* releases that are run when the present call returns
vars == <<s, pc, n, defer>>
Init == s = Idle /\ pc = "lookup" /\ n = 0 /\ defer = <<>>
E(k, id) == [k |-> k, id |-> id]
Do(e, to) == s' = Event(s, e) /\ pc' = to
Stay == UNCHANGED <<n, defer>>
\* The call returns: its deferred releases run.
Leave(to) == s' = After(s, defer, 1) /\ defer' = <<>> /\ pc' = to /\ UNCHANGED n
Lookup == pc = "lookup" /\ pc' \in {"load", "boot", "servers"} /\ UNCHANGED <<s, n, defer>>   \* by the cache's state
Load == \/ pc = "load" /\ Do(E("hold", "file"), "read") /\ Stay
        \/ pc = "load" /\ pc' = "boot" /\ UNCHANGED <<s, n, defer>>                         \* cannot be opened
        \/ pc = "read" /\ \E to \in {"boot", "servers"} : Do(E("drop", "file"), to) /\ Stay  \* unusable, or loaded
Boot == \/ pc = "boot" /\ Leave("done")                                                     \* no connection
        \/ pc = "boot" /\ Do(E("open", 0), "got") /\ defer' = <<E("close", 0)>> /\ UNCHANGED n
        \/ pc = "got" /\ Leave("done")                                                      \* status, cut off, malformed
        \/ pc = "got" /\ Leave("save")
Save == \/ pc = "save" /\ Leave("done")                                                     \* no temporary file
        \/ pc = "save" /\ s' = After(s, <<E("make", "tmp"), E("hold", "tmp")>>, 1) /\ pc' = "write" /\ Stay
        \/ pc = "write" /\ \E to \in {"rename", "remove"} : Do(E("drop", "tmp"), to) /\ Stay \* written, or not
        \/ pc = "rename" /\ Do(E("gone", "tmp"), "servers") /\ Stay
        \/ pc = "rename" /\ pc' = "remove" /\ UNCHANGED <<s, n, defer>>                      \* e.g. a directory in its place
        \/ pc = "remove" /\ Do(E("gone", "tmp"), "done") /\ Stay
Servers == \/ pc = "servers" /\ n = MaxServers /\ Leave("done")                             \* none left
           \/ pc = "servers" /\ n < MaxServers /\ n' = n + 1 /\ pc' = "get" /\ UNCHANGED <<s, defer>>
           \/ pc = "get" /\ pc' = "servers" /\ UNCHANGED <<s, n, defer>>                     \* no connection
           \/ pc = "get" /\ Do(E("open", n), "body") /\ defer' = <<E("close", n)>> /\ UNCHANGED n
           \/ pc = "body" /\ Leave("servers")                                               \* not usable
           \/ pc = "body" /\ Leave("done")                                                  \* decisive
Next == Lookup \/ Load \/ Boot \/ Save \/ Servers
Clean == pc \in {"done", "servers", "lookup"} => MayReturn(s)
AtMostOne == Cardinality(s.open) <= 1
Ends == <>(pc = "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
