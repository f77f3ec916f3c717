------------------------------ MODULE History ------------------------------
(* Calls of one process.  What a call returns may depend on its arguments only, although the process keeps   *)
(* (1) reference delay times by phase and reference slowness, (2) example streams that are handed out as      *)
(* copies, (3) a global path template that a write sets and restores, also if it fails.                       *)
(* Fault names the deviation that the design rules out: "none", "key" (cache key lacks the reference),        *)
(* "alias" (the cached stream itself is handed out), "norestore" (a failing write leaves the template).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Phases, Refs, Slows, Templates, Fault
VARIABLES tref, example, template, last
vars == <<tref, example, template, last>>
Default == 0
Delay(ph, r) == <<ph, r>>                          \* stands for the reference delay times
Fresh(c) == CASE c.f = "moveout" -> <<Delay(c.ph, c.ref), c.slow>>
              [] c.f = "example" -> <<"example">>
              [] c.f = "write" -> IF c.fail THEN <<"error">> ELSE <<"path", c.tpl>>
              [] c.f = "plain" -> <<"path", Default>>
Calls == [f : {"moveout"}, ph : Phases, ref : Refs, slow : Slows] \cup [f : {"example"}, spoil : BOOLEAN]
         \cup [f : {"write"}, tpl : Templates, fail : BOOLEAN] \cup [f : {"plain"}]
Init == tref = <<>> /\ example = <<"unset">> /\ template = Default /\ last = [c |-> [f |-> "plain"], r |-> <<"path", Default>>]
Key(c) == IF Fault = "key" THEN <<c.ph>> ELSE <<c.ph, c.ref>>
Moveout(c) == /\ c.f = "moveout"
              /\ LET hit == Key(c) \in DOMAIN tref
                     v == IF hit THEN tref[Key(c)] ELSE Delay(c.ph, c.ref)
                 IN /\ tref' = IF hit THEN tref ELSE (Key(c) :> v) @@ tref
                    /\ last' = [c |-> c, r |-> <<v, c.slow>>]
              /\ UNCHANGED <<example, template>>
Example(c) == /\ c.f = "example"
              /\ LET v == IF example = <<"unset">> THEN <<"example">> ELSE example
                 IN /\ last' = [c |-> c, r |-> v]
                    \* the caller spoils what it got
                    /\ example' = IF Fault = "alias" /\ c.spoil THEN <<"spoilt">> ELSE v
              /\ UNCHANGED <<tref, template>>
Write(c) == /\ c.f = "write"
            /\ template' = IF Fault = "norestore" /\ c.fail THEN c.tpl ELSE template
            /\ last' = [c |-> c, r |-> IF c.fail THEN <<"error">> ELSE <<"path", c.tpl>>]
            /\ UNCHANGED <<tref, example>>
Plain(c) == /\ c.f = "plain" /\ last' = [c |-> c, r |-> <<"path", template>>] /\ UNCHANGED <<tref, example, template>>
Next == \E c \in Calls : Moveout(c) \/ Example(c) \/ Write(c) \/ Plain(c)
Spec == Init /\ [][Next]_vars
Independent == last.r = Fresh(last.c)
=============================================================================
