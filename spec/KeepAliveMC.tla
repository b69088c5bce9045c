---------------------------- MODULE KeepAliveMC ----------------------------
(* exact clock, every order of client actions, answers, ticks and closes *)
EXTENDS KeepAlive, TLC, Json
CONSTANTS IO, MaxN, MaxT, Bug, Depth
Confs == {[k |-> k, n |-> n] : k \in {0, 2000, 3000}, n \in {0, 1, 2}}
VARIABLES s, now, cf, cut, hist, rest
vars == <<s, now, cf, cut, hist, rest>>
Q == [close |-> FALSE]
QC == [close |-> TRUE]
Init == /\ s = Start(0, 0) /\ now = 0 /\ cf \in Confs /\ cut = "no" /\ hist = <<>> /\ rest = "none"
Log(o) == hist' = IF Len(hist) < Depth THEN Append(hist, o) ELSE hist
More == Len(hist) < Depth
Half == More /\ s.ph \in {"fresh", "head", "idle"} /\ s' = Input(s, "head", now, now) /\ Log("half") /\ UNCHANGED <<now, cf, cut, rest>>
Req(q) == More /\ s.ph \in {"fresh", "head", "idle"} /\ s' = Requests(s, <<q>>, "none", now, now) /\ rest' = "none" /\ Log(IF q.close THEN "reqclose" ELSE "req") /\ UNCHANGED <<now, cf, cut>>
Two == More /\ s.ph \in {"fresh", "head", "idle"} /\ s' = Requests(s, <<Q, Q>>, "none", now, now) /\ rest' = "none" /\ Log("two") /\ UNCHANGED <<now, cf, cut>>
ReqHalf == More /\ s.ph \in {"fresh", "head", "idle"} /\ s' = Requests(s, <<Q>>, "head", now, now) /\ rest' = "head" /\ Log("reqhalf") /\ UNCHANGED <<now, cf, cut>>
Post == More /\ s.ph \in {"fresh", "head", "idle"} /\ s' = Input(s, "body", now, now) /\ Log("post") /\ UNCHANGED <<now, cf, cut, rest>>
Body == More /\ s.ph = "body" /\ s' = Input(s, "body", now, now) /\ Log("body") /\ UNCHANGED <<now, cf, cut, rest>>
BodyEnd == More /\ s.ph = "body" /\ s' = Requests(s, <<Q>>, "none", now, now) /\ rest' = "none" /\ Log("bodyend") /\ UNCHANGED <<now, cf, cut>>
(* the response is bigger than what the client and the buffers take *)
Fill(w) == More /\ s.ph = "busy" /\ Len(s.pend) = 1 /\ rest = "none" /\ s' = Input(s, w, now, now) /\ Log(w) /\ UNCHANGED <<now, cf, cut, rest>>
Take == More /\ s.ph \in {"flow", "out"} /\ s' = Input(s, s.ph, now, now) /\ Log("take") /\ UNCHANGED <<now, cf, cut, rest>>
Drain == s.ph \in {"flow", "out"} /\ s' = (IF s.ph = "flow" THEN Input(s, "busy", now, now) ELSE AfterAnswer(s, cf, rest, now, now)) /\ Log("drain") /\ UNCHANGED <<now, cf, cut, rest>>
Answer == s.ph = "busy" /\ s.pend # <<>> /\ s' = AfterAnswer(s, cf, rest, now, now) /\ rest' = (IF Len(s.pend) = 1 THEN "none" ELSE rest) /\ Log("answer") /\ UNCHANGED <<now, cf, cut>>
CanShut == CASE Bug = "busy" -> MayShut([s EXCEPT !.ph = IF s.ph = "busy" THEN "body" ELSE s.ph], IO, now)
             [] Bug = "early" -> MayShut(s, IO - 1000, now)
             [] OTHER -> MayShut(s, IO, now)
Shut == s.ph # "shut" /\ CanShut /\ s' = Down(s) /\ cut' = s.ph /\ UNCHANGED <<now, cf, hist, rest>>
MustNow == ~MayLive([s EXCEPT !.ph = IF Bug = "noflow" /\ s.ph = "flow" THEN "busy" ELSE s.ph], IO, now + 1000)
Tick == s.ph # "shut" /\ ~MustNow /\ now < MaxT /\ now' = now + 1000 /\ (IF s.ph = "busy" THEN Log("long") ELSE Log("wait")) /\ UNCHANGED <<s, cf, cut, rest>>
Next == Half \/ Req(Q) \/ Req(QC) \/ Two \/ ReqHalf \/ Post \/ Body \/ BodyEnd \/ Fill("flow") \/ Fill("out") \/ Take \/ Drain \/ Answer \/ Shut \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Shut) /\ WF_vars(Tick)
(* a request that is complete is answered, never cut; nobody is cut while bytes move or before the time is over *)
NeverBusy == cut # "busy"
NeverEarly == [][s.ph # "shut" /\ s'.ph = "shut" => \/ s.ph = "closing" \/ (s.ph = "idle" /\ now - s.lo >= s.k - Eps) \/ (Timed(s.ph) /\ now - s.lo >= IO - Gran - Eps)]_vars
NeverOverdue == Timed(s.ph) => now - s.hi <= IO + Late
AtMost == cf.n > 0 => s.n <= cf.n
NoKeep == cf.k = 0 => s.n <= 1
IdleOpen == s.ph = "idle" => s.k = cf.k /\ s.k > 0 /\ (cf.n = 0 \/ s.n < cf.n)
(* every connection whose client stops is shut within bounded time *)
Bounded == s.ph \notin {"shut", "busy"} => now - s.hi <= IO + 3000 + 1000 + Late
Vac == cut # "out"
=============================================================================
