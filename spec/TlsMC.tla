------------------------------- MODULE TlsMC -------------------------------
EXTENDS Tls, TLC
CONSTANTS Max, Q
Certs == [none : {FALSE}, name : {"a"}, trusted : BOOLEAN, dates : BOOLEAN, purpose : BOOLEAN, caok : BOOLEAN, inter : 0..2]
         \cup {[none |-> TRUE, name |-> "", trusted |-> FALSE, dates |-> FALSE, purpose |-> FALSE, caok |-> FALSE, inter |-> 0]}
Cfgs == [verify : BOOLEAN, any : BOOLEAN, require : BOOLEAN, depth : 0..2]
VARIABLE ok, who, hist   \* verdict of this connection; identity shown; verdicts a resumed session may rely on
mvars == <<vars, ok, who, hist>>
Init == TInit /\ \E cfg \in Cfgs, cert \in Certs, old \in {"none", "same", "other"} :
  \* a resumed session of the same listener was judged with the same cfg and cert; one of another listener does not count
  /\ hist = [cfg |-> cfg, cert |-> cert, old |-> old]
  /\ ok = (Verdict(cfg, cert) \/ (Bug = "foreign" /\ old = "other"))
  /\ who = Identity(cfg, cert)
M(A) == A /\ UNCHANGED <<ok, who, hist>>
Next == M(Handshake(ok)) \/ (given < Max /\ M(Give(1))) \/ M(End("complete")) \/ M(End("cut")) \/ M(Encrypt(1, Q)) \/ M(Notify) \/ M(Read(1)) \/ M(ReadNote) \/ M(Close)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(M(Encrypt(1, Q))) /\ WF_mvars(M(Notify)) /\ WF_mvars(M(Read(1))) /\ WF_mvars(M(ReadNote)) /\ WF_mvars(M(Close))
          /\ WF_mvars(M(Handshake(ok)))
Inv == /\ NoLeak(ok /\ Verdict(hist.cfg, hist.cert)) /\ Prefix /\ NoteIsAll /\ AllHasNote
       \* a required certificate is required; without "any" only a sound one passes; no name without a certificate that was checked
       /\ (phase = "up" /\ hist.cfg.verify /\ hist.cfg.require) => ~hist.cert.none
       /\ (phase = "up" /\ hist.cfg.verify /\ ~hist.cfg.any /\ ~hist.cert.none) => Sound(hist.cert, hist.cfg.depth)
       /\ who # "" => hist.cfg.verify /\ (hist.cfg.any \/ Sound(hist.cert, hist.cfg.depth))
AllArrives == (done = "complete") ~> (fin /\ got = given /\ note = "seen")
Ends == (done # "no" \/ phase = "refused") ~> fin
(* vacuity: a checked client gets everything through a full queue *)
Vac == ~(fin /\ note = "seen" /\ got = Max /\ who # "" /\ hist.cfg.require /\ hist.cert.inter = 1)
=============================================================================
