--------------------------- MODULE DecodeHistory ----------------------------
(* Decoding in a process over time: decodes run interleaved, member by        *)
(* member, sharing only the table of decode plans that each object type's     *)
(* first decode fills in; results live in cells of their own, which their     *)
(* owners print and modify at will. Whatever the interleaving and history, a  *)
(* result its owner did not modify is the meaning of its document.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Docs, MaxOps
\* document -> <<type, members>>; two documents of one type, one of another
TypeOfDoc == [d \in Docs |-> IF d = 3 THEN "B" ELSE "A"]
MembersOfDoc == [d \in Docs |-> CASE d = 1 -> {"x", "u"} [] d = 2 -> {"x", "y"} [] OTHER -> {"x", "v"}]
Known == [t \in {"A", "B"} |-> IF t = "A" THEN {"x", "y"} ELSE {"x", "z"}]
Meaning(d) == [fields |-> {<<d, m>> : m \in MembersOfDoc[d] \cap Known[TypeOfDoc[d]]}, unknown |-> MembersOfDoc[d] \ Known[TypeOfDoc[d]]]
VARIABLES plans,    \* type -> known members, published once
          proc,     \* process -> what it is doing
          objs,     \* finished results: [doc, cells, tainted]
          cell,     \* memory: cell -> content
          ops, hist
vars == <<plans, proc, objs, cell, ops, hist>>
Idle == [pc |-> "idle", doc |-> 0, todo |-> {}, plan |-> {}, f |-> {}, u |-> {}]
Init == plans = [t \in {} |-> {}] /\ proc = [p \in Procs |-> Idle] /\ objs = <<>> /\ cell = <<>> /\ ops = 0 /\ hist = <<>>
Start(p, d) == /\ proc[p].pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
               /\ proc' = [proc EXCEPT ![p] = [Idle EXCEPT !.pc = "plan", !.doc = d, !.todo = MembersOfDoc[d]]]
               /\ hist' = Append(hist, <<"d", d>>) /\ UNCHANGED <<plans, objs, cell>>
\* a hit, or a plan of its own that is published if none is there yet
Plan(p) == /\ proc[p].pc = "plan"
           /\ LET t == TypeOfDoc[proc[p].doc] IN
              /\ plans' = IF t \in DOMAIN plans THEN plans ELSE (t :> Known[t]) @@ plans
              /\ proc' = [proc EXCEPT ![p].pc = "members", ![p].plan = plans'[t]]
           /\ UNCHANGED <<objs, cell, ops, hist>>
Member(p) == /\ proc[p].pc = "members"
             /\ \E m \in proc[p].todo :
                proc' = [proc EXCEPT ![p].todo = @ \ {m}, ![p].f = IF m \in proc[p].plan THEN @ \cup {<<proc[p].doc, m>>} ELSE @,
                                     ![p].u = IF m \in proc[p].plan THEN @ ELSE @ \cup {m}]
             /\ UNCHANGED <<plans, objs, cell, ops, hist>>
Finish(p) == /\ proc[p].pc = "members" /\ proc[p].todo = {}
             /\ cell' = Append(cell, [fields |-> proc[p].f, unknown |-> proc[p].u])
             /\ objs' = Append(objs, [doc |-> proc[p].doc, cell |-> Len(cell) + 1, tainted |-> FALSE])
             /\ proc' = [proc EXCEPT ![p] = Idle] /\ UNCHANGED <<plans, ops, hist>>
\* the owner modifies everything it can reach from result k
Modify(k) == /\ k \in DOMAIN objs /\ ops < MaxOps /\ ops' = ops + 1
             /\ cell' = [cell EXCEPT ![objs[k].cell] = [fields |-> {}, unknown |-> {}]]
             /\ objs' = [objs EXCEPT ![k].tainted = TRUE] /\ hist' = Append(hist, <<"m", k>>) /\ UNCHANGED <<plans, proc>>
PrintIt(k) == /\ k \in DOMAIN objs /\ ~objs[k].tainted /\ ops < MaxOps /\ ops' = ops + 1
            /\ hist' = Append(hist, <<"p", k>>) /\ UNCHANGED <<plans, proc, objs, cell>>
View == <<plans, proc, objs, cell, ops>>
Next == (\E p \in Procs : (\E d \in Docs : Start(p, d)) \/ Plan(p) \/ Member(p) \/ Finish(p)) \/ (\E k \in 1..MaxOps : Modify(k) \/ PrintIt(k))
\* ---- what must hold
Pure == \A k \in DOMAIN objs : objs[k].tainted \/ cell[objs[k].cell] = Meaning(objs[k].doc)
Private == \A j, k \in DOMAIN objs : j # k => objs[j].cell # objs[k].cell
PlansStable == [][\A t \in DOMAIN plans : plans'[t] = plans[t]]_vars
PlansRight == \A t \in DOMAIN plans : plans[t] = Known[t]
\* one process: its histories, as scripts
Quiet == \A p \in Procs : proc[p].pc = "idle"
Emit == Quiet /\ ops = MaxOps => PrintT(<<"S", ToJson(hist)>>)
=============================================================================
