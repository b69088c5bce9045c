-------------------------------- MODULE Tls --------------------------------
(* C30: a TLS listener. Who may talk (client certificates, resumed sessions, renegotiation), which certificate the
   server shows, and the byte stream in between: application -> records -> socket -> client, ended by close_notify
   exactly when the application said everything it wanted to say. *)
EXTENDS Naturals, Sequences, FiniteSets

(* ---- who may talk: cfg = [verify, any, require, depth], cert = [none, name, trusted, dates, purpose, caok, inter] ---- *)
Sound(cert, depth) == cert.trusted /\ cert.dates /\ cert.purpose /\ cert.caok /\ cert.inter <= depth
Verdict(cfg, cert) ==
  IF ~cfg.verify THEN TRUE
  ELSE IF cert.none THEN ~cfg.require
  ELSE cfg.any \/ Sound(cert, cfg.depth)
(* the name the application sees for the client; "" = none *)
Identity(cfg, cert) == IF cfg.verify /\ ~cert.none /\ Verdict(cfg, cert) THEN cert.name ELSE ""

(* ---- which certificate a name gets: the one stored for the name, else the fallback, else the default ---- *)
ServerCert(name, store, fallback, default) ==
  IF name = "" THEN default ELSE IF name \in store THEN name ELSE IF fallback # "" THEN fallback ELSE default

(* ---- one connection; numbers of bytes only: the order is the order of the queues ---- *)
VARIABLES phase,  \* "hello" "up" "refused" "dead"
  given,          \* plain bytes the application handed over
  done,           \* "no" "complete" "cut": did the application say that this is all, or did it break
  queued,         \* encrypted, not read by the client yet
  note,           \* close_notify: "no" "queued" "seen"
  got,            \* plain bytes the client has
  fin             \* the client saw the end of the TCP stream
vars == <<phase, given, done, queued, note, got, fin>>
CONSTANTS Bug
TInit == phase = "hello" /\ given = 0 /\ done = "no" /\ queued = 0 /\ note = "no" /\ got = 0 /\ fin = FALSE
Handshake(ok) == phase = "hello" /\ phase' = (IF ok \/ Bug = "late" THEN "up" ELSE "refused") /\ UNCHANGED <<given, done, queued, note, got, fin>>
Give(n) == phase = "up" /\ done = "no" /\ given' = given + n /\ UNCHANGED <<phase, done, queued, note, got, fin>>
End(how) == phase = "up" /\ done = "no" /\ done' = how /\ UNCHANGED <<phase, given, queued, note, got, fin>>
Encrypt(n, Q) == phase = "up" /\ note = "no" /\ got + queued + n <= given /\ queued + n <= Q /\ n > 0
  /\ queued' = queued + n /\ UNCHANGED <<phase, given, done, note, got, fin>>
Notify == phase = "up" /\ note = "no"
  /\ (done = "complete" \/ (Bug = "cutnote" /\ done = "cut"))
  /\ (got + queued = given \/ Bug = "early")
  /\ note' = "queued" /\ UNCHANGED <<phase, given, done, queued, got, fin>>
Read(n) == n > 0 /\ n <= queued /\ queued' = queued - n /\ got' = got + n /\ UNCHANGED <<phase, given, done, note, fin>>
ReadNote == note = "queued" /\ queued = 0 /\ note' = "seen" /\ UNCHANGED <<phase, given, done, queued, got, fin>>
(* the connection goes away: after a refusal, when the response broke, or when the notification is out *)
Close == ~fin /\ \/ phase = "refused"
                 \/ done = "cut" /\ note = "no"
                 \/ note = "seen"
                 \/ Bug = "nonote" /\ done = "complete" /\ got = given
  /\ fin' = TRUE /\ phase' = "dead" /\ queued' = 0 /\ UNCHANGED <<given, done, note, got>>
----
(* nothing is said to or heard from somebody who was refused *)
NoLeak(ok) == ~ok => given = 0 /\ got = 0
(* what the client has is a beginning of what was said *)
Prefix == got + queued <= given
(* the notification means: this is all *)
NoteIsAll == note = "seen" => done = "complete" /\ got = given
(* ... and it is there whenever this is all *)
AllHasNote == (fin /\ done = "complete") => note = "seen"
=============================================================================
