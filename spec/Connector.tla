------------------------------ MODULE Connector ------------------------------
(***************************************************************************)
(* What connecting may do, judged from the server's side.  A recorded       *)
(* connection attempt is a sequence of events in the order in which the     *)
(* server saw them, followed by the result:                                 *)
(*   [e |-> "rx", sec, b, pw]   the client sent a message: inside TLS?, its *)
(*                        bytes, do they contain the password               *)
(*   [e |-> "junk", sec]  it sent something that is not a message           *)
(*   [e |-> "tx", x, ..]  the server's answer:                              *)
(*      "ok"      the request is granted (notices may come before)          *)
(*      "inject"  the same, with a forged acceptance right behind it        *)
(*      "cont"    a challenge, chal                                         *)
(*      "deny"    access denied (error 1045), fatal or not; code, msg       *)
(*      "err"     another error                                             *)
(*      "bad"     something that is not a proper answer                     *)
(*      "eof"     the end of the connection; "rst" its abortion             *)
(*      "stall"   nothing any more                                          *)
(*   [e |-> "tls", cert, ok]  the outcome of a TLS handshake in which the   *)
(*                        server showed this certificate ("good" or not;    *)
(*                        "tls12": a good one, but it only speaks TLS 1.2;  *)
(*                        "none": it spoiled the handshake)                 *)
(*   [e |-> "ret", ok, conn, code, msg, eof, use]  New returned: without    *)
(*                        error?, a connection?, the server's error in it,  *)
(*                        did the server see the end of the connection,     *)
(*                        could a statement then be executed                *)
(* cfg is the configuration: net ("tcp", "tcp4", "tcp6", "unix", "down": nothing      *)
(* listens), tls ("none", "server": the server's certificate is verified,    *)
(* "mutual": both are, "insecure": none is, "noname": there is no name to    *)
(* verify it for, "vconn", "vpeer": functions of the caller's verify it,     *)
(* "never": one of them refuses all, "min13": TLS 1.3 at least, "getcert":   *)
(* like mutual, with a function), mech, db, user, pw, dl (a deadline that is going to pass, *)
(* so that failing is right at any time).                                    *)
(***************************************************************************)
EXTENDS Auth

Guarded(cfg) == cfg.net \in {"tcp", "tcp4", "tcp6"} /\ cfg.tls # "none"
Right(cfg, cert) == CASE cert = "none" -> FALSE [] cfg.tls = "insecure" -> TRUE [] cfg.tls \in {"noname", "never"} -> FALSE
                           [] cfg.tls = "min13" -> cert = "good" [] OTHER -> cert \in {"good", "tls12"}
Safe(cfg, sec) == sec \/ cfg.net = "unix"

(* ph: "clear" nothing said yet, "asked" for TLS, "granted", "auth" may     *)
(* start, "started", "challenged", "continued", "denied" (may fall back),   *)
(* "fallen" (has), "accepted", "over"                                       *)
State0(cfg) == [ph |-> IF cfg.net = "down" THEN "over" ELSE IF Guarded(cfg) THEN "clear" ELSE "auth",
                sec |-> FALSE, denied |-> FALSE, must |-> FALSE, code |-> 0, msg |-> "", chal |-> <<>>,
                inj |-> FALSE, rst |-> FALSE, b13 |-> "", b14 |-> ""]

Bad13(st, w) == IF st.b13 # "" THEN st ELSE [st EXCEPT !.b13 = w]
Bad14(st, w) == IF st.b14 # "" THEN st ELSE [st EXCEPT !.b14 = w]
IsTlsRequest(m) == m.k = "cap" /\ Len(m.caps) = 1 /\ m.caps[1].name = Canon(Ascii("tls")) /\ m.caps[1].val = [k |-> "bool", x |-> TRUE]
IsAuth(m) == m.k \in {"astart", "acont"}

Secrecy(st, cfg, ev, m) ==
    IF Guarded(cfg) /\ ~ev.sec /\ ~(st.ph = "clear" /\ IsTlsRequest(m))
    THEN Bad13(st, "something else than the request for TLS was sent in clear")
    ELSE IF (ev.pw \/ (IsAuth(m) /\ m.k = "astart" /\ IsStart(m, "PLAIN")))
            /\ ~(cfg.mech = "PLAIN" \/ (st.denied /\ Safe(cfg, ev.sec)))
    THEN Bad13(st, "the password was sent in clear text without need")
    ELSE st

Protocol(st, cfg, m, table) ==
    CASE st.ph = "clear" /\ IsTlsRequest(m) -> [st EXCEPT !.ph = "asked"]
      [] st.ph = "auth" /\ StartOk(m, cfg) -> [st EXCEPT !.ph = "started"]
      [] st.ph = "challenged" /\ ContinueOk(m, cfg, st.chal, table) -> [st EXCEPT !.ph = "continued"]
      [] st.ph = "denied" /\ StartOk(m, [cfg EXCEPT !.mech = "PLAIN"]) -> [st EXCEPT !.ph = "fallen"]
      [] OTHER -> [Bad14(st, "an unexpected message was sent (" \o st.ph \o ", " \o m.k \o ")") EXCEPT !.ph = "over"]

Receive(st, cfg, ev) ==
    LET f == Frames(ev.b)
        m == IF Len(f) = 1 THEN f[1] ELSE [k |-> "bad"]
    IN Protocol(Secrecy(st, cfg, ev, m), cfg, m, ev.h)

Junk(st, cfg, ev) ==
    LET a == IF Guarded(cfg) /\ ~ev.sec THEN Bad13(st, "something else than the request for TLS was sent in clear") ELSE st
    IN [Bad14(a, "something was sent that is not a message") EXCEPT !.ph = "over"]

Transmit(st, cfg, ev) ==
    CASE st.ph = "asked" ->
            IF ev.x = "ok" THEN [st EXCEPT !.ph = "granted"]
            ELSE IF ev.x = "inject" THEN [st EXCEPT !.ph = "granted", !.inj = TRUE]
            ELSE [st EXCEPT !.ph = "over", !.rst = ev.x = "rst"]
      [] st.ph \in {"started", "continued", "fallen"} ->
            IF ev.x = "ok" THEN [st EXCEPT !.ph = "accepted"]
            ELSE IF ev.x = "cont" /\ st.ph = "started" /\ cfg.mech # "PLAIN" THEN [st EXCEPT !.ph = "challenged", !.chal = ev.chal]
            ELSE IF ev.x = "deny" /\ st.ph # "fallen"
                 THEN [st EXCEPT !.ph = IF Safe(cfg, st.sec) THEN "denied" ELSE "over", !.denied = TRUE,
                                 !.must = ~ev.fatal /\ cfg.mech # "PLAIN" /\ Safe(cfg, st.sec), !.code = ev.code, !.msg = ev.msg]
            ELSE [st EXCEPT !.ph = "over", !.rst = ev.x = "rst"]
      [] OTHER -> [st EXCEPT !.ph = "over", !.rst = st.rst \/ ev.x = "rst"]

Handshake(st, cfg, ev) ==
    IF st.ph # "granted" THEN [Bad13(st, "TLS began before it was granted") EXCEPT !.ph = "over"]
    ELSE IF ev.ok THEN IF Right(cfg, ev.cert) THEN [st EXCEPT !.ph = "auth", !.sec = TRUE]
                       ELSE [Bad13(st, "a server with a wrong certificate was accepted: " \o ev.cert) EXCEPT !.ph = "over"]
    ELSE IF Right(cfg, ev.cert) /\ ~st.inj /\ ~cfg.dl THEN [Bad14(st, "the TLS handshake failed") EXCEPT !.ph = "over"]
    ELSE [st EXCEPT !.ph = "over"]

Return(st, cfg, ev) ==
    LET a == IF ev.ok /\ st.ph # "accepted" /\ st.inj THEN Bad13(st, "bytes received before the handshake were taken for an answer") ELSE st IN
    IF ev.ok
    THEN IF st.ph # "accepted" THEN Bad14(a, "a connection was returned without having been accepted (" \o st.ph \o ")")
         ELSE IF ~ev.conn THEN Bad14(a, "no connection and no error")
         ELSE IF ~ev.use THEN Bad14(a, "the connection is not usable")
         ELSE a
    ELSE IF ev.conn THEN Bad14(a, "a connection and an error")
         ELSE IF ~ev.eof /\ ~st.rst /\ cfg.net # "down" THEN Bad14(a, "the network connection was left open")
         ELSE IF cfg.dl THEN a
         ELSE IF st.ph = "accepted" THEN Bad14(a, "an error although the server accepted")
         ELSE IF st.ph = "denied" /\ st.must THEN Bad14(a, "the fallback was not tried")
         ELSE IF st.ph \notin {"over", "denied"} /\ ~(st.ph \in {"clear", "asked", "granted"} /\ cfg.tls = "noname") THEN Bad14(a, "an error without a reason (" \o st.ph \o ")")
         ELSE IF st.denied /\ ~(ev.code = st.code /\ ev.msg = st.msg) THEN Bad14(a, "the error is not the original refusal")
         ELSE a

Step(st, cfg, ev) ==
    CASE ev.e = "rx" -> Receive(st, cfg, ev)
      [] ev.e = "junk" -> Junk(st, cfg, ev)
      [] ev.e = "tx" -> Transmit(st, cfg, ev)
      [] ev.e = "tls" -> Handshake(st, cfg, ev)
      [] ev.e = "ret" -> Return(st, cfg, ev)
      [] ev.e = "panic" -> Bad14(st, "panic")
      [] OTHER -> Bad14(Bad13(st, "?"), "?")
=============================================================================
