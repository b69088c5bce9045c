------------------------------ MODULE TunnelMC ------------------------------
EXTENDS Tunnel
CONSTANT M
Next == \/ \E n \in 1..2 : (cs + n <= M /\ CSend(n)) \/ (bs + n <= M /\ BSend(n)) \/ BRecv(n) \/ CRecv(n)
        \/ CFin \/ BFin \/ BEof \/ CEof
Spec == Init0 /\ [][Next]_vars
Vac == ~(ce /\ be /\ cr = M /\ br = M)
=============================================================================
