----------------------------- MODULE MCErrors -------------------------------
(***************************************************************************)
(* The crypto library keeps the errors of a thread in a queue, where the   *)
(* next user of the library on that thread would find them (C29).  Calls   *)
(* as the code makes them: loading reads key after key, verification tries *)
(* key after key, each operation that fails leaves an error; the calls     *)
(* clear the queue before they return.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAX, EMAX

\* a call: what the crypto operations it makes give, in order
Loads == {<<>>, <<TRUE>>, <<FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>}
Calls == [kind : {"jwks", "map", "pem", "add"}, ops : Loads] \cup [kind : {"verify"}, ops : Loads]
Fits(c) == CASE c.kind \in {"pem", "add"} -> Len(c.ops) = 1
             [] OTHER -> TRUE
VARIABLES queue, pc, todo, h
vars == <<queue, pc, todo, h>>
Init == queue = <<>> /\ pc = "idle" /\ todo = <<>> /\ h = <<>>
Start(c) == /\ pc = "idle" /\ Len(h) < MAX /\ Fits(c)
            /\ (c.kind = "add" => h # <<>> /\ h[1].kind \notin {"add", "verify"})
            /\ pc' = c.kind /\ todo' = c.ops /\ h' = Append(h, c) /\ UNCHANGED queue
\* one operation; a map stops at the first bad certificate, verification at
\* the first key that made the signature, having cleared what others left
Op == /\ pc # "idle" /\ todo # <<>>
      /\ queue' = IF Head(todo) THEN queue ELSE IF pc = "verify" THEN <<>> ELSE Append(queue, pc)
      /\ todo' = IF (pc = "map" /\ ~Head(todo)) \/ (pc = "verify" /\ Head(todo)) THEN <<>> ELSE Tail(todo)
      /\ UNCHANGED <<pc, h>>
Return == /\ pc # "idle" /\ todo = <<>>
          /\ queue' = IF pc = "verify" THEN queue ELSE <<>>
          /\ pc' = "idle" /\ UNCHANGED <<todo, h>>
Next == Op \/ Return \/ \E c \in Calls : Start(c)
Spec == Init /\ [][Next]_vars

NonePending == pc = "idle" => queue = <<>>
Emitted == (pc = "idle" /\ h # <<>> /\ Len(h) <= EMAX) => PrintT("@C " \o ToJson([h |-> h]))
=============================================================================
