------------------------------ MODULE ConfigGen ------------------------------
(* One call of the command line or of batch.run: the options in the configuration file and in the call, as JSON texts.    *)
(* A dictionary option is a sequence of <<key, JSON text>> or "absent".                                                    *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Init == c = <<>> /\ step = 0
Cmds == {"data", "data", "calc", "moveout", "convert", "stack", "profile", "plot", "plot-profile", "print", "create"}
PickCmd == step = 0 /\ step' = 1 /\ c' = [
   cmd |-> IF Chance(35) THEN "data" ELSE IF Chance(30) THEN "calc" ELSE R({"moveout", "convert", "stack", "profile", "plot", "plot-profile", "print", "create"}),
   route |-> R({"cli", "cli", "run"}), seed |-> R(0..100000), comments |-> R({0, 30, 60}), newformat |-> R({"Q", "SAC", "H5"}),
   objects |-> R({"events", "stations", "files"}), tutorial |-> Chance(50), confpath |-> R({"conf.json", "conf.json", "my.conf", "sub/conf.json"}),
   conf |-> IF Chance(86) THEN "file" ELSE R({"none", "missing", "broken", "notjson"})]
Steps(cmd) == CASE cmd = "data" -> R({R({<<>>, <<"calc">>}), R({<<"calc">>, <<"calc", "moveout">>}), IF Chance(40) THEN R({<<"calc", "calc">>, <<"moveout", "moveout">>, <<"calc", "moveout", "calc">>}) ELSE <<>>})
                [] cmd = "calc" -> R({<<>>, <<"moveout">>, IF Chance(30) THEN R({<<"moveout", "moveout">>, <<"calc">>}) ELSE <<"moveout">>})
                [] OTHER -> <<>>
P(k, vals) == <<k, R(vals)>>
\* the chosen pairs, each with probability p
Some(ps, p) == TLCEval(SelectSeq(ps, LAMBDA x : Chance(p)))
Trims == {"[-5, 22]", "[-10, 40]"}
DictOf(o, src) ==
  CASE o = "options" -> Some(<<P("phase", {"\"P\"", "\"S\"", "\"S\"", "\"PP\""}), P("request_window", {"[-20, 40]", "[-60, 30]", "[-7, 11]"}), P("dist_range", {"[20, 100]", "[45, 75]", "[20, 50]"}), P("pp_depth", {"30", "50"})>>, 60)
    [] o = "rf" -> Some(<<P("trim", Trims), P("deconvolve", {"\"waterlevel\"", "\"iterative\""}), P("filter", {"{\"type\": \"bandpass\", \"freqmin\": 0.05, \"freqmax\": 1.0}"}), P("water", {"0.5", "1"}), P("rotate", {"\"NE->RT\""}), P("source_components", {"\"Z\"", "\"Q\""})>>, 50)
    [] o = "moveout" -> Some(<<P("phase", {"\"Sp\"", "\"Ppps\"", "\"Ppss\""}), P("ref", {"5", "7"}), P("model", {"\"iasp91.dat\""})>>, 50)
    [] o = "plot" -> Some(<<P("fillcolors", {"[\"black\", \"gray\"]", "[\"#ff0000\", \"#00ff00\"]"}), P("trim", Trims), P("fig_width", {"5", "9"}), P("show_vlines", {"true"})>>, 60)
    [] o = "plot_profile" -> Some(<<P("scale", {"2", "3"}), P("fillcolors", {"[\"red\", \"#0000ff\"]"}), P("trim", Trims), P("moveout_model", {"\"prem\""})>>, 60)
    [] o = "client_options" -> Some(<<P("user", {"\"a@b#c.org\"", "\"me\""}), P("timeout", {"5", "60"})>>, 70)
    [] o = "boxes" -> <<P("latlon0", {"[0, -3]", "[1, -3]"}), P("azimuth", {"90", "80"}), P("width", {"4000", "5000"})>> \o (IF src = 1 THEN Some(<<P("bins", {"[0, 400, 700]", "[0, 500, 1000]"})>>, 35) ELSE <<>>)
    [] OTHER -> <<>>
DOpts == <<"options", "rf", "moveout", "plot", "plot_profile", "client_options", "boxes">>
\* what the file and the call may contain (the plugin is no option of the command line)
Source(i, base, p, plugin) == [
   events |-> IF Chance(base) THEN (IF Chance(93) THEN R({"evA.xml", "evB.xml"}) ELSE R({"missing.xml", "garbage.xml"})) ELSE "",
   inventory |-> IF Chance(base) THEN (IF Chance(93) THEN R({"st1.xml", "st2.xml"}) ELSE R({"missing.xml", "garbage.xml"})) ELSE "",
   data |-> IF Chance(base) THEN (IF Chance(93) THEN R({"plugin", "plugin", "all.mseed", "fake18"}) ELSE "missing.mseed") ELSE "",
   plugin |-> IF plugin /\ Chance(base) THEN (IF Chance(95) THEN R({"c18plug : f1", "c18plug:f2"}) ELSE R({"c18plug : f3", "nomodule : f"})) ELSE "",
   format |-> IF Chance(base \div 2) THEN R({"Q", "SAC", "H5"}) ELSE "",
   phase |-> IF Chance(p \div 2) THEN R({"P", "S", "PP"}) ELSE "",
   moveout_phase |-> IF Chance(p \div 2) THEN R({"Ps", "Ppps"}) ELSE "",
   boxbins |-> IF Chance((base * 4) \div 5) THEN R({"[0, 1000, 11]", "[0, 1100, 7]"}) ELSE "",
   dicts |-> TLCEval([o \in 1..Len(DOpts) |-> IF Chance(IF DOpts[o] = "boxes" THEN base ELSE p) THEN [given |-> 1, p |-> DictOf(DOpts[o], i)] ELSE [given |-> 0, p |-> <<>>]])]
PickSteps == step = 1 /\ step' = 2 /\ c' = c @@ [steps |-> Steps(c.cmd), unknown |-> IF Chance(5) THEN R({"foo", "evnets", "plot_rf", "Options"}) ELSE "", badjson |-> IF Chance(4) THEN R(1..7) ELSE 0]
PickFile == step = 2 /\ step' = 3 /\ c' = c @@ [file |-> Source(1, 100, 60, TRUE)]
PickCall == step = 3 /\ step' = 4 /\ c' = c @@ [call |-> Source(2, IF c.conf = "none" THEN 90 ELSE 18, 25, c.route = "run")]
PickOrder == step = 4 /\ step' = 5 /\ c' = c @@ [how |-> R(0..9)]
Out == step = 5 /\ step' = 100 /\ UNCHANGED c /\ Emit(c @@ [names |-> DOpts])
Next == PickCmd \/ PickSteps \/ PickFile \/ PickCall \/ PickOrder \/ Out
Spec == Init /\ [][Next]_vars
==============================================================================
