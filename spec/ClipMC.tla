------------------------------ MODULE ClipMC -------------------------------
(* A clipboard text put together part by part. *)
EXTENDS Clip, FiniteSets, TLC, Json

VARIABLES parts
Choices == <<Leads, Versions, Gaps, Bodies, Tails>>
Init == parts = <<>>
Next == Len(parts) < 5 /\ \E x \in Choices[Len(parts) + 1] : parts' = Append(parts, x)
Spec == Init /\ [][Next]_parts

Done == Len(parts) = 5
Decided == Done => Verdicts(parts) # {} /\ Verdicts(parts) \subseteq {"ok", "empty", "version", "novers", "parse"}
OkOnlyIfWhole == Done /\ "ok" \in Verdicts(parts) => parts[2] = "1" /\ parts[4] = "items" /\ parts[5] # "junk" /\ Verdicts(parts) = {"ok"}
EmptyOnlyIfBlank == Done /\ "empty" \in Verdicts(parts) => parts[2] = "" /\ parts[4] = "" /\ parts[5] # "junk"
BlanksDoNotMatter == Done => Verdicts([parts EXCEPT ![1] = "ws"]) = Verdicts([parts EXCEPT ![1] = ""])

EmitScript == Len(parts') = 5 => PrintT("SCRIPT " \o ToJson(<<"", parts'>>))
=============================================================================
