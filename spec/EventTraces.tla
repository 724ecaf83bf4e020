----------------------------- MODULE EventTraces -----------------------------
(***************************************************************************)
(* Trace validation: each trace recorded from the evaluator is a behaviour *)
(* of the machine of Events.  A trace is read as a whole in one step.      *)
(***************************************************************************)
EXTENDS Events, Json, Sequences

Traces == ndJsonDeserialize("traces.ndjson")

\* an event is recorded as a single string, "+section:1"
Decode == ndJsonDeserialize("events.ndjson")
Names == [i \in 1..Len(Decode) |-> [k |-> Decode[i].k, n |-> Decode[i].n, a |-> Decode[i].a]]

RECURSIVE Run(_, _, _)
\* the length of the longest accepted prefix, or 0 if everything is accepted
Run(st, t, i) ==
  IF i > Len(t) THEN IF Len(st) = 1 /\ Top(st).s = "1" THEN 0 ELSE i
  ELSE LET next == Step(st, Names[t[i]]) IN IF next = Rejected THEN i ELSE Run(next, t, i + 1)

VARIABLE read
TInit == read = 0 /\ stack = Root /\ word = << >>
TNext == /\ read < Len(Traces)
         /\ read' = read + 1
         /\ UNCHANGED <<stack, word>>
         /\ LET t == Traces[read + 1] IN
            LET at == Run(Root, t.ev, 1) IN
            IF at = 0 THEN TRUE ELSE PrintT("@@" \o ToJson([idx |-> t.idx, at |-> at]))
=============================================================================
