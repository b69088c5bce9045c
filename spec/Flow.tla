-------------------------------- MODULE Flow --------------------------------
(* Flow control of a response: backend -> kernel -> chain of queues with one shared memory limit -> kernel -> client.
   The server reads from the backend while its queues hold less than the limit, and only then.              *)
EXTENDS Integers, Sequences
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
(* what may be held once nothing moves any more: limit L (0: unlimited), reads of at most R, w waits in the kernel.
   More than this is memory without bound; less, with something waiting, is a stream that stalls for no reason *)
MayHold(held, L, R, slack) == held >= -slack /\ (L > 0 => held <= L + R + slack)
MustHold(held, w, L, slack) == w > slack => L > 0 /\ held >= L - slack
=============================================================================
