------------------------------- MODULE Clip --------------------------------
(* Clipboard texts: white space, a version number, and the items. A text is described by its parts
   <<lead, version, gap, body, tail>>; each part by what it is. *)
EXTENDS Integers, Sequences

Leads == {"", "ws"}
Versions == {"", "1", "2", "0", "max", "big", "neg", "frac", "exp", "string", "null", "true", "array", "object", "junk", "01", "cut"}
Gaps == {"", "ws"}
Bodies == {"", "items", "object", "array", "null", "number", "missing", "twice", "type", "range", "pitch", "cut", "deep"}
Tails == {"", "ws", "junk"}

\* verdicts: "ok", "empty", "version", "novers", "parse"
NotNumbers == {"string", "null", "true", "array", "object"}
NotU64 == {"big", "neg", "frac", "exp"}
OtherNumbers == {"2", "0", "max"}
\* what begins a text that has no version part
First(p) ==
  CASE p[2] # "" -> p[2]
    [] p[4] = "" -> IF p[5] = "junk" THEN "junk" ELSE "nothing"
    [] OTHER -> CASE p[4] \in {"object", "items", "missing", "twice", "type", "range", "pitch"} -> "object"
                  [] p[4] = "number" -> "number"
                  [] p[4] \in {"array", "null", "cut"} -> p[4]
                  [] p[4] = "deep" -> "deep"
\* a number or word right before something that is no JSON may be taken as a part of it
Glued(p) == p[3] = "" /\ p[2] \notin {"", "string", "array", "object"} /\ (p[4] = "number" \/ p[4] = "null" \/ (p[4] = "" /\ p[5] = "junk"))
GluedBody(p) == p[2] = "" /\ p[5] = "junk" /\ p[4] \in {"number", "null"}

Verdicts(p) ==
  LET f == First(p)
      plain ==
        CASE f = "nothing" -> {"empty"}
          [] f \in {"junk", "01"} -> {"parse"}
          \* what was cut off may be what follows
          [] f = "cut" -> IF p[2] = "cut" /\ p[5] = "junk" THEN {"parse", "novers"} ELSE {"parse"}
          [] f = "deep" -> {"parse", "novers"}
          [] f \in NotNumbers -> {"novers"}
          [] f \in NotU64 -> {"novers"}
          [] f = "number" -> {"version"}
          [] f \in OtherNumbers -> {"version"}
          [] f = "1" -> IF p[4] = "items" /\ p[5] # "junk" THEN {"ok"} ELSE {"parse"}
  IN IF Glued(p) \/ GluedBody(p)
     THEN (IF p[4] = "number" /\ p[2] # "" THEN plain \cup {"parse", "version", "novers"} ELSE plain \cup {"parse"})
     ELSE plain
=============================================================================
