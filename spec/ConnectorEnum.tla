---------------------------- MODULE ConnectorEnum ----------------------------
(***************************************************************************)
(* The design of connecting as a transition system, client against every   *)
(* server.  TLC checks what the design has to guarantee and writes every   *)
(* server behaviour out for replay on the real code.  Each safeguard can    *)
(* be left out, to show what it is for:                                     *)
(*   CheckAnswer  an error in answer to the request for TLS is fatal         *)
(*   ResetReader  what was received before the handshake is thrown away      *)
(*   Verify       the certificate is verified                                *)
(*   SecureOnly   the fallback is only tried on a secure channel             *)
(*   OnlyDenied   the fallback is only tried after access was denied         *)
(*   Cleanup      the connection is closed on every failure                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Nets, Tlss, Mechs, Accts, Deadline, CheckAnswer, ResetReader, Verify, SecureOnly, OnlyDenied, Cleanup, Write

VARIABLES cfg,     \* [net, tls, mech, acct]
          script,  \* what the server has done so far
          pc,      \* the client
          sec,     \* the channel is inside TLS
          pending, \* forged bytes in the client's buffer
          sent,    \* ghost: what was sent: {<<"cap"|"auth"|"plain", sec>>}
          denied, accepted, good, \* ghost: the server denied access, accepted, has the right certificate
          result, open
vars == <<cfg, script, pc, sec, pending, sent, denied, accepted, good, result, open>>

Configs == [net : Nets, tls : Tlss, mech : Mechs, acct : Accts]
Guarded == cfg.net \in {"tcp", "tcp4", "tcp6"} /\ cfg.tls # "none"
Right(x) == CASE x \notin {"good", "ca", "name", "old"} -> FALSE [] cfg.tls = "insecure" -> TRUE [] cfg.tls = "noname" -> FALSE [] OTHER -> x = "good"
Safe == sec \/ cfg.net = "unix"

Cut == {"eof", "rst", "part", "badlen", "baderr"} \cup (IF Deadline THEN {"stall"} ELSE {})
CapAnswers == {"ok", "nok", "err", "fatal", "inject", "acont"} \cup Cut
TlsAnswers == {"good", "ca", "name", "old", "leave", "trash", "plain"} \cup (IF Deadline THEN {"mute"} ELSE {})
AuthAnswers == {"ok", "nok", "cont0", "cont20", "cont200", "badcont", "deny", "denyf", "err", "fatal"} \cup Cut

Init == /\ cfg \in Configs
        /\ script = <<>> /\ sec = FALSE /\ pending = FALSE /\ sent = {} /\ denied = FALSE /\ accepted = FALSE /\ good = TRUE
        /\ result = "" /\ open = (cfg.net # "down")
        /\ pc = IF cfg.net = "down" THEN "fail" ELSE IF Guarded THEN "ask" ELSE "start"

Say(what, next) == /\ sent' = sent \cup {<<what, sec>>} /\ pc' = next
                   /\ UNCHANGED <<cfg, script, sec, pending, denied, accepted, good, result, open>>
Ask == pc = "ask" /\ Say("cap", "asked")
Begin == pc = "start" /\ Say(IF cfg.mech = "PLAIN" THEN "plain" ELSE "auth", "started")
Answer == pc = "answer" /\ Say("auth", "continued")
Fall == pc = "fall" /\ Say("plain", "fallen")

Srv(x) == script' = Append(script, x)
CapAnswer ==
    /\ pc = "asked"
    /\ \E x \in CapAnswers :
         /\ Srv(x)
         /\ pending' = (x = "inject")
         /\ pc' = IF x \in {"ok", "nok", "inject"} \/ (x = "err" /\ ~CheckAnswer) THEN (IF x = "err" THEN "start" ELSE "hello") ELSE "fail"
    /\ UNCHANGED <<cfg, sec, sent, denied, accepted, good, result, open>>
TlsAnswer ==
    /\ pc = "hello"
    /\ \E x \in TlsAnswers :
         /\ Srv(x)
         /\ good' = Right(x)
         /\ IF Right(x) \/ (x \in {"good", "ca", "name", "old"} /\ ~Verify)
            THEN pc' = "start" /\ sec' = TRUE ELSE pc' = "fail" /\ UNCHANGED sec
         /\ pending' = (pending /\ ~ResetReader)
    /\ UNCHANGED <<cfg, sent, denied, accepted, result, open>>
Forged == \* the client takes the forged answer for the server's
    /\ pc \in {"started", "continued"} /\ pending /\ pc' = "done" /\ pending' = FALSE
    /\ UNCHANGED <<cfg, script, sec, sent, denied, accepted, good, result, open>>
AuthAnswer ==
    /\ pc \in {"started", "continued", "fallen"} /\ ~pending
    /\ \E x \in AuthAnswers :
         /\ Srv(x)
         /\ accepted' = (x \in {"ok", "nok"})
         /\ denied' = (denied \/ x \in {"deny", "denyf"})
         /\ pc' = IF x \in {"ok", "nok"} THEN "done"
                  ELSE IF x \in {"cont0", "cont20", "cont200"} /\ pc = "started" /\ cfg.mech # "PLAIN" THEN "answer"
                  ELSE IF pc # "fallen" /\ (Safe \/ ~SecureOnly) /\ (x \in {"deny", "denyf"} \/ (~OnlyDenied /\ x \in {"err", "fatal"})) THEN "fall"
                  ELSE "fail"
    /\ UNCHANGED <<cfg, sec, pending, sent, good, result, open>>
Finish ==
    /\ pc \in {"done", "fail"} /\ pc' = "end"
    /\ result' = pc
    /\ open' = (open /\ (pc = "done" \/ (~Cleanup /\ Len(script) = 1)))
    /\ Write => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, dl |-> Deadline /\ script # <<>> /\ script[Len(script)] \in {"stall", "mute"}, how |-> "seq", scripts |-> <<script>>])>>, IOEnv.OUT)
    /\ UNCHANGED <<cfg, script, sec, pending, sent, denied, accepted, good>>
Next == Ask \/ Begin \/ Answer \/ Fall \/ CapAnswer \/ TlsAnswer \/ Forged \/ AuthAnswer \/ Finish
Spec == Init /\ [][Next]_vars

NothingInClear == Guarded => \A x \in sent : x[1] = "cap" \/ x[2]
RightServer == Guarded /\ (\E x \in sent : x[1] # "cap") => good
PasswordInClear == (\E x \in sent : x[1] = "plain") => cfg.mech = "PLAIN" \/ (denied /\ Safe)
Authenticated == result = "done" => accepted
NotLost == result = "fail" => ~accepted
FailsClosed == result = "fail" => ~open
=============================================================================
