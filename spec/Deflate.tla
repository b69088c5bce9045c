------------------------------ MODULE Deflate ------------------------------
(* The body of a response on its way through the compressor (mod_deflate, filter.c).

   The origin sends bytes, stops for a while, goes on, ends its message or breaks off.  The filter takes the bytes from
   its input queue (inq) into the compressor (z), the compressor puts its result into an output buffer of OutBuf bytes
   (buf), and the buffer goes to the client (out) when it is full, when the input is used up, or at the end.
   (Compressed and plain sizes are counted in the same unit: what matters is which bytes can be decoded by now.)

     Honest   the client's message ends properly only if the origin's did, and then nothing is missing
     Prompt   when the origin pauses, the client gets everything sent so far
     Ends     the end of the origin's message, proper or not, reaches the client                                        *)
EXTENDS Naturals, TLC
CONSTANTS MaxIn, OutBuf,
          Flush,            \* "loop": flush until the compressor is empty; "once": one buffer; "none"
          OnCut             \* "reset": a broken input breaks the output; "close": it ends the output
VARIABLES sent, src, inq, z, buf, out, dst, fl
vars == <<sent, src, inq, z, buf, out, dst, fl>>

Init == sent = 0 /\ src = "open" /\ inq = 0 /\ z = 0 /\ buf = 0 /\ out = 0 /\ dst = "open" /\ fl = FALSE

Send(n) == src = "open" /\ sent + n <= MaxIn /\ sent' = sent + n /\ inq' = inq + n /\ UNCHANGED <<src, z, buf, out, dst, fl>>
Close == src = "open" /\ src' = "closed" /\ UNCHANGED <<sent, inq, z, buf, out, dst, fl>>
Cut == src = "open" /\ src' = "cut" /\ UNCHANGED <<sent, inq, z, buf, out, dst, fl>>

Take == dst = "open" /\ src # "cut" /\ inq > 0 /\ inq' = inq - 1 /\ z' = z + 1 /\ fl' = TRUE /\ UNCHANGED <<sent, src, buf, out, dst>>
Emit == dst = "open" /\ inq > 0 /\ z > 0 /\ buf < OutBuf /\ z' = z - 1 /\ buf' = buf + 1 /\ UNCHANGED <<sent, src, inq, out, dst, fl>>
Spill == dst = "open" /\ buf = OutBuf /\ buf' = 0 /\ out' = out + buf /\ UNCHANGED <<sent, src, inq, z, dst, fl>>

Min(a, b) == IF a < b THEN a ELSE b
DoFlush ==
  /\ dst = "open" /\ src = "open" /\ inq = 0 /\ fl /\ fl' = FALSE
  /\ LET k == CASE Flush = "loop" -> z [] Flush = "once" -> Min(z, OutBuf - buf) [] OTHER -> 0
     IN out' = out + buf + k /\ z' = z - k /\ buf' = 0
  /\ UNCHANGED <<sent, src, inq, dst>>
Finish ==
  /\ dst = "open" /\ src = "closed" /\ inq = 0
  /\ out' = out + buf + z /\ z' = 0 /\ buf' = 0 /\ dst' = "closed" /\ fl' = FALSE /\ UNCHANGED <<sent, src, inq>>
Break ==
  /\ dst = "open" /\ src = "cut"
  /\ dst' = IF OnCut = "reset" THEN "cut" ELSE "closed"
  /\ UNCHANGED <<sent, src, inq, z, buf, out, fl>>

Work == Take \/ Emit \/ Spill \/ DoFlush \/ Finish \/ Break
Next == (\E n \in 1..3: Send(n)) \/ Close \/ Cut \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(DoFlush) /\ WF_vars(Finish) /\ WF_vars(Break)

TypeOK == sent \in 0..MaxIn /\ {inq, z, buf, out} \subseteq 0..MaxIn /\ dst \in {"open", "closed", "cut"}
Conserved == out + buf + z + inq = sent
Honest == dst = "closed" => src = "closed" /\ out = sent
PromptI == (src = "open" /\ inq = 0 /\ ~fl) => out = sent
Prompt == \A n \in 1..MaxIn: (sent = n) ~> (out >= n \/ src # "open")
Ends == (src # "open") ~> (dst # "open")
Faithful == (dst = "cut") => src = "cut"
(* not vacuous *)
VacBoth == ~(dst = "closed" /\ out = MaxIn /\ MaxIn > OutBuf)
VacCut == ~(dst = "cut" /\ out > 0)
=============================================================================
