-------------------------- MODULE ConfigValueTrace --------------------------
(* observation: [prog (statements), ok (configuration accepted), out (printed values)] *)
EXTENDS ConfigValue, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, done
T == Traces[ti]
Good == LET r == Load(T.prog) IN r.ok = T.ok /\ r.out = T.out
Init == ti \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Good /\ done' = TRUE /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, done>>
Acc == done => PrintT(<<"ACC", ti>>)
=============================================================================
