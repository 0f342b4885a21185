----------------------------- MODULE Resources ------------------------------
(* What an operation (a request, a bootstrap lookup or download, a cache      *)
(* access) may hold while it runs, and must have given back when it returns:  *)
(* HTTP response bodies, open files, and temporary files in the cache         *)
(* directory.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
Idle == [open |-> {}, held |-> {}, left |-> {}]
\* Events: a body delivered ("open") or closed; a file opened ("hold"),
\* closed ("drop"); a temporary file made ("make"), renamed or removed ("gone").
Event(s, e) == CASE e.k = "open"  -> [s EXCEPT !.open = @ \cup {e.id}]
                 [] e.k = "close" -> [s EXCEPT !.open = @ \ {e.id}]
                 [] e.k = "hold"  -> [s EXCEPT !.held = @ \cup {e.id}]
                 [] e.k = "drop"  -> [s EXCEPT !.held = @ \ {e.id}]
                 [] e.k = "make"  -> [s EXCEPT !.left = @ \cup {e.id}]
                 [] e.k = "gone"  -> [s EXCEPT !.left = @ \ {e.id}]
RECURSIVE After(_, _, _)
After(s, ev, i) == IF i > Len(ev) THEN s ELSE After(Event(s, ev[i]), ev, i + 1)
\* The operation may return.
MayReturn(s) == s = Idle
=============================================================================
