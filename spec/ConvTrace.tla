----------------------------- MODULE ConvTrace ------------------------------
(* Does the specification allow what the code did?  A case is a registry,  *)
(* an input and a list of events, each an independent decode of a prefix   *)
(* of the input into some target:                                          *)
(*   conv    decode type ty into target g: result ok, value v or error e   *)
(*           with its path, cursor p after it                              *)
(*   fields  the same from the list of fields fs                           *)
(*   skip    skip a value of type ty                                       *)
(*   ctx     an error made by somebody else, and locations added to it     *)
(* An event may say what it cost: n types asked for, kb of memory.         *)
(* Every event which is allowed is one step, and so gives one new state.   *)
(* What is asked of failures depends on the case: st compares the kind of  *)
(* error and its particulars, pa the path, cu the cursor.                  *)
EXTENDS Targets, World

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, l
vars == <<case, l>>

Expect(c, ev) ==
    IF ev.op = "conv" THEN Dec(c.reg, c.in, ev.g, ev.ty, 0, FALSE, Len(c.in))
    ELSE DecFields(c.reg, c.in, ev.g, ev.fs, 0, Len(c.in))
Extent(c, ev) ==
    IF ev.op = "conv" THEN Sk(c.reg, c.in, ev.ty, 0, FALSE, Len(c.in))
    ELSE SkFs(c.reg, c.in, ev.fs, 1, 0, FALSE, Len(c.in))

Accept(c, ev, r) ==
    /\ ev.op \in {"conv", "fields"}
    /\ ev.ok = r.ok
    /\ IF ev.ok THEN ev.v = r.v /\ ev.p = r.p
       ELSE /\ ev.p \in 0..Len(c.in)
            /\ ev.st => /\ ev.e[1] = r.e[1]
                        /\ ev.e[2] = r.e[2]
            /\ ev.pa => ev.path = r.path /\ ev.disp
            /\ ev.cu => LET q == Extent(c, ev) IN q >= 0 => ev.p = q

\* what may be spent on some input, whatever it claims to be
Types(reg) == Len(reg) + 8
Cost(c, ev) == "kb" \in DOMAIN ev =>
    /\ ev.n <= 40 * (Len(c.in) + Types(c.reg))
    /\ ev.kb <= 64 + Len(c.in)

AcceptSkip(c, ev) ==
    LET q == Sk(c.reg, c.in, ev.ty, 0, FALSE, Len(c.in))
    IN  IF q < 0 THEN ~ev.ok /\ ev.p \in 0..Len(c.in) ELSE ev.ok /\ ev.p = q

\* an error is what it was made as, and says where it has been, in that order;
\* those who have looked before, or put the same together apart from it, know that much
Loc(s) == s[1] \o ":" \o s[2]
AcceptCtx(c, ev) ==
    LET all == [i \in 1..Len(ev.steps) |-> Loc(ev.steps[i])]
        cut == SubSeq(all, 1, ev.cut)
    IN  /\ ev.e[1] = ev.made[1] /\ ev.e[2] = ev.made[2]
        /\ ev.path = all /\ ev.apart = all
        /\ ev.early = cut /\ ev.owned = cut
        /\ ev.disp

Init == case \in 1..Len(Cases) /\ l = 0
Next ==
    /\ l < Len(Cases[case].evs)
    /\ LET c  == Cases[case]
           ev == c.evs[l + 1]
       IN  IF ev.op = "skip"
           THEN (IF AcceptSkip(c, ev) /\ Cost(c, ev) THEN l' = l + 1 /\ UNCHANGED case
                 ELSE PrintT(<<"REJECT", case, l + 1, "skip", Sk(c.reg, c.in, ev.ty, 0, FALSE, Len(c.in))>>) /\ FALSE)
           ELSE IF ev.op = "ctx"
           THEN (IF AcceptCtx(c, ev) THEN l' = l + 1 /\ UNCHANGED case
                 ELSE PrintT(<<"REJECT", case, l + 1, "ctx">>) /\ FALSE)
           ELSE IF ev.op \notin {"conv", "fields"}
           THEN PrintT(<<"REJECT", case, l + 1, "not an event of the specification">>) /\ FALSE
           ELSE LET r == Expect(c, ev) IN
                IF Accept(c, ev, r) /\ Cost(c, ev) THEN l' = l + 1 /\ UNCHANGED case
                ELSE PrintT(<<"REJECT", case, l + 1, ToJson(r)>>) /\ FALSE
=============================================================================
