----------------------------- MODULE Invocation -----------------------------
(***************************************************************************)
(* What a command line and an environment ask the program to do (C24).     *)
(*                                                                         *)
(* A request has                                                           *)
(*   args     sequence of [k, t]: t the text of the argument; k how it     *)
(*            reads where options are looked for: "help" "version" "usage" *)
(*            "bad" (not an option of the program), "dashes" or "name"     *)
(*   inputs   sequence of [name, out, id]: the files there are to read,    *)
(*            the map each describes and what identifies that description  *)
(*   xdg      "unset", "empty" or "set": the variable XDG_CONFIG_HOME      *)
(*   home     "unset" or "set": the variable HOME                          *)
(*   confs    [xdg, home, old]: number that identifies the configuration   *)
(*            in that directory, in the home directory's .config, and the  *)
(*            old one in the home directory; 0 for none, Spoiled for one   *)
(*            that cannot be read or is not a configuration                *)
(*   outs     the names of maps to look at                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ask,      \* the request
          conf,     \* identifies the configuration in force; -1 before
          at,       \* arguments looked at
          plain,    \* the rest are names
          names,    \* names of files to read, in order
          shown,    \* what was printed for the user: "" "version" "usage"
          made,     \* by map name: [id, conf]
          outcome   \* "" while running, "well" or "badly"

ivars == << ask, conf, at, plain, names, shown, made, outcome >>

Nothing == [id |-> "", conf |-> 0]
Spoiled == 99

InvocationStart(r) ==
    /\ ask = r /\ conf = -1 /\ at = 0 /\ plain = FALSE /\ names = << >> /\ shown = ""
    /\ made = [n \in {r.outs[j] : j \in 1..Len(r.outs)} |-> Nothing] /\ outcome = ""

(* An empty variable counts as one that is not set. *)
Configuration(r) == IF r.xdg = "set" THEN r.confs.xdg
                    ELSE IF r.home = "set" THEN r.confs.home
                    ELSE 0

Configure == /\ conf = -1
             /\ conf' = Configuration(ask)
             /\ UNCHANGED << ask, at, plain, names, shown, made, outcome >>

(* Whether or not the user is informed first, no map is made without the configuration that is meant to be in force. *)
GiveUp == /\ conf = Spoiled /\ outcome = ""
          /\ outcome' = "badly"
          /\ UNCHANGED << ask, conf, at, plain, names, shown, made >>

Looking == conf >= 0 /\ outcome = "" /\ at < Len(ask.args)
Arg == ask.args[at + 1]

TakeName == /\ Looking /\ (plain \/ Arg.k = "name")
            /\ names' = Append(names, Arg.t)
            /\ at' = at + 1
            /\ UNCHANGED << ask, conf, plain, shown, made, outcome >>
TakeDashes == /\ Looking /\ ~plain /\ Arg.k = "dashes"
              /\ plain' = TRUE
              /\ at' = at + 1
              /\ UNCHANGED << ask, conf, names, shown, made, outcome >>
(* The first of these is all that is done. *)
Inform == /\ Looking /\ ~plain /\ Arg.k \in {"help", "usage", "version"}
          /\ shown' = (IF Arg.k = "version" THEN "version" ELSE "usage")
          /\ outcome' = "well"
          /\ UNCHANGED << ask, conf, at, plain, names, made >>
Misused == \/ Looking /\ ~plain /\ Arg.k = "bad"
           \/ conf >= 0 /\ outcome = "" /\ at = Len(ask.args) /\ names = << >>
Refuse == /\ Misused
          /\ outcome' = "badly"
          /\ UNCHANGED << ask, conf, at, plain, names, shown, made >>

Known(n) == { j \in 1..Len(ask.inputs) : ask.inputs[j].name = n }
Ready == conf >= 0 /\ outcome = "" /\ at = Len(ask.args) /\ names # << >>
Absent == /\ Ready
          /\ \E j \in 1..Len(names) : Known(names[j]) = {}
          /\ outcome' = "badly"
          /\ UNCHANGED << ask, conf, at, plain, names, shown, made >>

RECURSIVE After(_, _, _)
After(m, ns, c) ==
    IF ns = << >> THEN m
    ELSE LET i == ask.inputs[CHOOSE j \in Known(Head(ns)) : TRUE]
         IN After([m EXCEPT ![i.out] = [id |-> i.id, conf |-> c]], Tail(ns), c)
Perform == /\ Ready /\ conf # Spoiled
           /\ \A j \in 1..Len(names) : Known(names[j]) # {}
           /\ made' = After(made, names, conf)
           /\ outcome' = "well"
           /\ UNCHANGED << ask, conf, at, plain, names, shown >>

Done == outcome # ""
INext == Configure \/ GiveUp \/ TakeName \/ TakeDashes \/ Inform \/ Refuse \/ Absent \/ Perform

---------------------------------------------------------------------------
(* The property, as invariants of the model. *)
Anything == \E n \in DOMAIN made : made[n] # Nothing
InformOrMake == ~(shown # "" /\ Anything)
MadeMeansRead == \A n \in DOMAIN made : made[n] # Nothing =>
    \E j \in 1..Len(ask.args) : \E i \in Known(ask.args[j].t) :
        ask.inputs[i].out = n /\ ask.inputs[i].id = made[n].id
OneConfiguration == \A n \in DOMAIN made : made[n] # Nothing => made[n].conf = Configuration(ask)
OldIgnored == Done => conf \in {0, ask.confs.xdg, ask.confs.home}
HomeOnlyIfUnset == Done /\ ask.xdg = "set" => conf = ask.confs.xdg
SilentMeansMade == outcome = "well" /\ shown = "" => Anything
SpoiledMakesNothing == Configuration(ask) = Spoiled => ~Anything /\ (outcome = "well" => shown # "")
BadMakesNothing == outcome = "badly" => ~Anything /\ shown = ""
(* Options before two dashes take effect wherever they stand. *)
OptionsAnywhere ==
    outcome = "well" /\ shown = "" =>
        \A j \in 1..Len(ask.args) :
            ask.args[j].k \in {"help", "usage", "version", "bad"} =>
                \E i \in 1..(j - 1) : ask.args[i].k = "dashes"
LastNamed == outcome = "well" /\ shown = "" =>
    \A n \in DOMAIN made :
        LET js == { j \in 1..Len(names) : ask.inputs[CHOOSE i \in Known(names[j]) : TRUE].out = n }
        IN js # {} => made[n].id = ask.inputs[CHOOSE i \in Known(names[CHOOSE j \in js : \A m \in js : m <= j]) : TRUE].id
=============================================================================
