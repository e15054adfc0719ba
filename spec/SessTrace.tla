----------------------------- MODULE SessTrace ------------------------------
(* Does the specification allow the recorded sessions?  A case is a        *)
(* registry, an input and the events of one session, in order.  What is    *)
(* compared of the events depends on the property (in the environment).    *)
EXTENDS Session, World

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

Keys == KeysFor(Prop)
Same(rec, ev) ==
    /\ rec.op = ev.op
    /\ \A k \in DOMAIN rec \cap Keys :
         CASE k = "o" -> \A j \in DOMAIN rec.o \cap ObsKeys(Prop) : rec.o[j] = ev.o[j]
           [] k = "it" -> \A j \in DOMAIN rec[k] : rec[k][j] = ev[k][j]
           [] OTHER -> rec[k] = ev[k]

VARIABLES case, l, s
vars == <<case, l, s>>
view == <<case, l>>
Init == case \in 1..Len(Cases) /\ l = 0 /\ s = Initially
Next ==
    /\ l < Len(Cases[case].evs)
    /\ LET c  == Cases[case]
           ev == c.evs[l + 1]
           st == Step(c.reg, c.in, s, ev)
       IN  IF Same(st.rec, ev)
           THEN /\ l' = l + 1 /\ s' = st.s /\ UNCHANGED case
                /\ (st.s.ctl.k = "end" /\ l' = Len(c.evs)) => PrintT(<<"ACCEPT", case>>)
           ELSE PrintT(<<"REJECT", case, l + 1, ToJson(st.rec)>>) /\ FALSE
=============================================================================
