------------------------------- MODULE GoLib -------------------------------
(* The C interface that the Go front end calls (L01).  A call hands over the *)
(* bytes of a source circuit and the number of a configuration.  What comes  *)
(* back depends on that call alone, whatever was asked before.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}

\* the configurations that the interface offers; of any other number it says so
Known == {"1", "2", "3", "4"}
\* is the text s found in t?
Within(s, t) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s

Refusal(g) == g.e # "" /\ g.utf /\ g.w = "" /\ g.l = ""
CallBad(c) ==
    LET g == c.got
    IN Bad(g.kept, "the caller's bytes are changed")
       \cup IF c.id \notin Known
            THEN Bad(Refusal(g) /\ Within(c.id, g.e), "unknown configuration")
            ELSE \* whole bytes of that configuration can be read, of another one not
                 Bad(~c.whole \/ (c.lib.st # "unread") = (c.id = ToString(c.for)), "reading")
                 \cup CASE c.lib.st = "ok" -> Bad(g.e = "" /\ g.w = c.lib.w /\ g.l = c.lib.l, "circuits")
                        [] c.lib.st = "refused" -> Bad(Refusal(g) /\ Within(c.lib.msg, g.e), "refusal of a circuit")
                        [] OTHER -> Bad(Refusal(g), "refusal of bytes")

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, "call", b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    LET L == Lines[l]
    IN /\ k < Len(L.calls)
       /\ k' = k + 1
       /\ bad' = CallBad(L.calls[k + 1]) \cup Bad(L.abi = 4, "version")
       /\ Report(L, bad')
       /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, call |-> k, bad |-> bad]
=============================================================================
