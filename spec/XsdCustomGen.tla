---------------------------- MODULE XsdCustomGen ---------------------------
(* Building generators, as a state machine: calls of the builder, in any     *)
(* order and repeated; then a document is chosen (of the file CORPUS).       *)
EXTENDS XsdCustom, IOUtils

CONSTANT MaxCalls
Plain == ndJsonDeserialize(IOEnv.CORPUS)
VARIABLES calls, builder, stop, doc
vars == <<calls, builder, stop, doc>>

Init == calls = <<>> /\ builder = Default /\ stop \in 0..MaxCalls /\ doc = 0
Call == /\ doc = 0 /\ Len(calls) < stop
        /\ \E s \in Slots : \E t \in Tags(s) :
             /\ calls' = Append(calls, [slot |-> s, tag |-> t])
             /\ builder' = With(builder, [slot |-> s, tag |-> t])
        /\ UNCHANGED <<stop, doc>>
Use == /\ doc = 0 /\ Len(calls) = stop
       /\ doc' = RandomElement(1..Len(Plain))
       /\ UNCHANGED <<calls, builder, stop>>
Next == Call \/ Use

(* Only the last call for a part matters; parts are independent.            *)
LastCounts == /\ builder = Built(calls)
              /\ \A s \in Slots :
                   LET mine == SelectSeq(calls, LAMBDA c : c.slot = s) IN
                   builder[s] = IF mine = <<>> THEN "" ELSE mine[Len(mine)].tag
(* Custom parts do not add, lose or move definitions.                       *)
Same(i, name) == [k |-> i.k, n |-> IF i.k = "mod" THEN "" ELSE name, d |-> Len(i.path)]
Stable == doc # 0 => {Same(i, i.name) : i \in CustomItems(builder, Plain[doc])} = {Same(i, Typed(builder, i.name)) : i \in Range(Items(Plain[doc]))}
Emit == doc # 0 => PrintT("@@" \o ToJson([calls |-> calls, doc |-> Plain[doc]]))
=============================================================================
