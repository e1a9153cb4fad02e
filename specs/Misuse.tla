------------------------------- MODULE Misuse -------------------------------
(* Which uses of samplers and of nets are refused.  A behaviour starts from a *)
(* valid use, varies what may be varied, spoils at most one thing and says    *)
(* whether the use is refused while the graph is built (and so before         *)
(* anything can have run).                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Entries, MaxLat
VARIABLES cfg, fault, st
vars == <<cfg, fault, st>>
Samplers == {"hmc", "sgld", "psgld", "sghmc1", "sghmc2", "sgnht", "ais"}
Switch == {"absent", "true", "false", "fed"}
NotVariables == {"tensor", "array", "number", "placeholder", "identity"}
Sampler == cfg.entry \in Samplers
Hmc == cfg.entry \in {"hmc", "ais"}
Faults ==
  {<<"none", "">>}
  \cup (IF Sampler THEN {<<"latent" \o ToString(k), f>> : k \in 1..cfg.nlat, f \in NotVariables} ELSE {})
  \cup (IF Hmc THEN {<<"rank", "unknown">>, <<"leapfrogs", "fraction">>}
                    \cup {<<"mass", v>> : v \in Switch \ {"absent"}}     \* without step size adaptation
                    \cup {<<"switch", v>> : v \in {"number", "text"}} ELSE {})
  \cup (IF cfg.entry = "logjoint" THEN {<<"notcallable", v>> : v \in {"zero", "number", "tensor", "text", "list"}} ELSE {})
  \cup (IF cfg.entry = "lookup"
        THEN {<<"name", v>> : v \in {"number", "none", "bytes", "node", "tensor", "within", "nested", "unknown", "taken"}}
             \cup {<<"kind", "deterministic">>, <<"options", "">>} ELSE {})
Applies ==
  CASE fault[1] = "mass" -> cfg.step = "absent" /\ cfg.mass = "absent"
    [] fault[1] = "switch" -> cfg.step = "absent" /\ cfg.mass = "absent"
    [] fault[1] = "rank" -> cfg.model = "fn" \/ cfg.entry = "ais"
    [] fault[1] = "options" -> cfg.way = "query"
    [] fault[1] = "kind" -> cfg.way \in {"cond", "local", "queryboth"}
    [] fault = <<"name", "nested">> -> cfg.way # "item"
    [] fault = <<"name", "within">> -> cfg.way # "item"
    [] fault = <<"name", "taken">> -> FALSE
    [] OTHER -> TRUE
Refused == fault[1] # "none"
Init ==
  /\ cfg \in [entry : Entries, nlat : 1..MaxLat, model : {"fn", "meta"}, step : Switch, mass : Switch,
              chains : {"none", "one", "part"}, way : {"-", "get", "item", "cond", "local", "query", "queryboth", "outputs"}]
  /\ (~Hmc => cfg.step = "absent" /\ cfg.mass = "absent")
  /\ (cfg.mass # "absent" => cfg.step # "absent")
  /\ (cfg.entry = "ais" => cfg.chains # "none")
  /\ (~Sampler => cfg.nlat = 1 /\ cfg.model = "meta" /\ cfg.chains = "none")
  /\ (cfg.entry = "lookup" <=> cfg.way # "-")
  /\ fault = <<"none", "">> /\ st = "use"
Spoil == /\ st = "use" /\ fault' \in Faults /\ st' = "done" /\ UNCHANGED cfg
Next == Spoil
Spec == Init /\ [][Next]_vars
Whole == st = "done" => (Refused <=> fault # <<"none", "">>)
Emit == (st = "done" /\ Applies) =>
  CSVWrite("%1$s", <<ToJson([cfg |-> cfg, fault |-> fault, refused |-> Refused])>>, IOEnv.VERIF_OUT)
=============================================================================
