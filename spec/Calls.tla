------------------------------- MODULE Calls -------------------------------
(* Calls of a library by several callers (C25). A call takes an argument (a    *)
(* sequence of parts) and collects them one by one; it may fail at the end.     *)
(* What it returns has to be a function of its argument, whatever came before   *)
(* and whatever runs at the same time. DESIGN "own": every call has a working   *)
(* area of its own. Known-bad designs: "shared" (one area for all callers,      *)
(* cleared at the beginning), "dirty" (an area per caller, cleared only by a    *)
(* call that succeeds), "memo" (results kept under too coarse a key), "touch"   *)
(* (a call changes the argument it reads).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DESIGN, CALLERS, LEN, GEN
VARIABLES plan, todo, now, area, memo, args, res
vars == << plan, todo, now, area, memo, args, res >>

(* argument 1, another of the same length, one that fails, a long one *)
Kinds == 1..4
Arg(k) == CASE k = 1 -> << 1, 2 >> [] k = 2 -> << 2, 1 >> [] k = 3 -> << 3 >> [] k = 4 -> << 4, 4, 4 >>
Fails(k) == k = 3
F(k) == IF Fails(k) THEN << "err" >> ELSE << "ok", Arg(k) >>
C == 1..CALLERS
Plans == [C -> UNION {[1..n -> Kinds] : n \in 1..LEN}]
Area(c) == IF DESIGN = "shared" THEN 1 ELSE c
Idle == [k |-> 0, at |-> 0]

Init == /\ plan \in Plans /\ todo = plan
        /\ now = [c \in C |-> Idle]
        /\ area = [c \in C |-> << >>]
        /\ memo = << >>
        /\ args = [k \in Kinds |-> Arg(k)]
        /\ res = [c \in C |-> << >>]
Begin(c) == /\ now[c] = Idle /\ todo[c] # << >>
            /\ now' = [now EXCEPT ![c] = [k |-> Head(todo[c]), at |-> 0]]
            /\ todo' = [todo EXCEPT ![c] = Tail(@)]
            /\ area' = IF DESIGN = "dirty" THEN area ELSE [area EXCEPT ![Area(c)] = << >>]
            /\ UNCHANGED << plan, memo, args, res >>
Step(c) == /\ now[c] # Idle /\ now[c].at < Len(args[now[c].k])
           /\ area' = [area EXCEPT ![Area(c)] = Append(@, args[now[c].k][now[c].at + 1])]
           /\ now' = [now EXCEPT ![c].at = @ + 1]
           /\ UNCHANGED << plan, todo, memo, args, res >>
Hits(k) == {i \in 1..Len(memo) : memo[i][1] = Len(Arg(k))}
End(c) == /\ now[c] # Idle /\ now[c].at >= Len(args[now[c].k])
          /\ LET k == now[c].k
                 got == IF Fails(k) THEN << "err" >>
                        ELSE IF DESIGN = "memo" /\ Hits(k) # {} THEN memo[CHOOSE i \in Hits(k) : TRUE][2]
                        ELSE << "ok", area[Area(c)] >>
             IN /\ res' = [res EXCEPT ![c] = Append(@, << k, got >>)]
                /\ memo' = IF DESIGN = "memo" /\ ~Fails(k) /\ Hits(k) = {} THEN Append(memo, << Len(Arg(k)), got >>) ELSE memo
                /\ area' = IF DESIGN = "dirty" /\ ~Fails(k) THEN [area EXCEPT ![c] = << >>] ELSE area
                /\ args' = IF DESIGN = "touch" THEN [args EXCEPT ![k] = Tail(@)] ELSE args
          /\ now' = [now EXCEPT ![c] = Idle]
          /\ UNCHANGED << plan, todo >>
Next == \E c \in C : Begin(c) \/ Step(c) \/ End(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a result is the one the call gives when it is the only one *)
Alone == \A c \in C : \A i \in 1..Len(res[c]) : res[c][i][2] = F(res[c][i][1])
Unchanged == args = [k \in Kinds |-> Arg(k)]
Returns == <>(\A c \in C : Len(res[c]) = Len(plan[c]))
GenNext == FALSE /\ UNCHANGED vars
GenSpec == Init /\ [][GenNext]_vars
Printed == IF GEN THEN PrintT("@@" \o ToJson(plan)) ELSE TRUE
=============================================================================
