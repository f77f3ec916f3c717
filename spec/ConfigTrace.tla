----------------------------- MODULE ConfigTrace -----------------------------
(* A line is one call: what the file and the call contain, and what was observed (calls of the processing steps with      *)
(* their options, records written, files, messages).  What has to be in effect follows from Config.                       *)
EXTENDS Kit
VARIABLE l
Idx(e, name) == CHOOSE i \in 1..Len(e.names) : e.names[i] = name
S(e, o) == IF e.call[o] # "" THEN e.call[o] ELSE e.file[o]
D(e, o) == LET i == Idx(e, o) IN IF e.call.dicts[i].given = 1 THEN Range(e.call.dicts[i].p) ELSE Range(e.file.dicts[i].p)
Given(e, o) == LET i == Idx(e, o) IN e.call.dicts[i].given = 1 \/ e.file.dicts[i].given = 1
Set(d, k, v) == {x \in d : x[1] # k} \cup {<<k, v>>}
Without(d, k) == {x \in d : x[1] # k}
Quote(s) == "\"" \o s \o "\""
Options(e) == IF S(e, "phase") # "" THEN Set(D(e, "options"), "phase", Quote(S(e, "phase"))) ELSE D(e, "options")
Moveout(e) == IF S(e, "moveout_phase") # "" THEN Set(D(e, "moveout"), "phase", Quote(S(e, "moveout_phase"))) ELSE D(e, "moveout")
Get(d, k, default) == IF \E x \in d : x[1] = k THEN (CHOOSE x \in d : x[1] = k)[2] ELSE default
Format(e) == IF S(e, "format") # "" THEN S(e, "format") ELSE "Q"
ReadsConf(e) == e.cmd # "create" /\ ~(e.cmd = "print" /\ e.objects = "files")
NeedsEvents(e) == e.cmd \in {"data", "calc", "moveout", "convert", "profile"} \/ (e.cmd = "print" /\ e.objects = "events")
NeedsStations(e) == e.cmd \in {"data", "calc", "moveout", "convert", "profile", "stack", "plot"} \/ (e.cmd = "print" /\ e.objects = "stations")
OkEvents(e) == S(e, "events") \in {"evA.xml", "evB.xml"}
OkStations(e) == S(e, "inventory") \in {"st1.xml", "st2.xml"}
OkData(e) == \/ S(e, "data") \in {"all.mseed", "fake18"}
             \/ S(e, "data") = "plugin" /\ S(e, "plugin") \in {"c18plug : f1", "c18plug:f2"}
Steps(e) == <<e.cmd>> \o e.steps
Repeated(e) == e.cmd \in {"data", "calc", "moveout"} /\ Cardinality(Range(Steps(e))) # Len(Steps(e))
Invalid(e) ==
  \/ ReadsConf(e) /\ (e.conf \in {"missing", "broken", "notjson"} \/ e.unknown # "" \/ e.bad_call)
  \/ Repeated(e)
  \/ NeedsEvents(e) /\ ~OkEvents(e)
  \/ NeedsStations(e) /\ ~OkStations(e)
  \/ e.cmd = "data" /\ ~OkData(e)
  \/ e.cmd = "profile" /\ (~Given(e, "boxes") \/ (S(e, "boxbins") = "" /\ Get(D(e, "boxes"), "bins", "") = ""))
\* not decided: no data option at all; inputs a command does not need; no configuration file but unreadable inputs
Undecided(e) ==
  \/ e.cmd = "data" /\ S(e, "data") = ""
  \/ e.cmd = "plot-profile" /\ ~(OkEvents(e) /\ OkStations(e))
  \/ ~ReadsConf(e) /\ e.bad_call
  \/ e.cmd = "print" /\ e.objects = "files" /\ (e.conf # "file" \/ e.unknown # "")
\* data requests
Phase(e) == Get(Options(e), "phase", "\"P\"")
Last(ph) == IF ph = "\"S\"" THEN "S" ELSE "P"
Dec(v, table) == table[v]
Window(e) == Get(Options(e), "request_window", IF Last(Phase(e)) = "P" THEN "[-50, 150]" ELSE "[-100, 50]")
Lo(w) == CASE w = "[-20, 40]" -> -20 [] w = "[-60, 30]" -> -60 [] w = "[-7, 11]" -> -7 [] w = "[-50, 150]" -> -50 [] w = "[-100, 50]" -> -100
Hi(w) == CASE w = "[-20, 40]" -> 40 [] w = "[-60, 30]" -> 30 [] w = "[-7, 11]" -> 11 [] w = "[-50, 150]" -> 150 [] w = "[-100, 50]" -> 50
Dist(e) == Get(Options(e), "dist_range", CASE Phase(e) = "\"P\"" -> "[30, 90]" [] Phase(e) = "\"S\"" -> "[50, 85]" [] OTHER -> "none")
InDist(r, d) == CASE r = "[20, 100]" -> d \in 20..100 [] r = "[45, 75]" -> d \in 45..75 [] r = "[20, 50]" -> d \in 20..50 [] r = "[30, 90]" -> d \in 30..90 [] r = "[50, 85]" -> d \in 50..85 [] OTHER -> FALSE
Depth(e) == CASE Get(Options(e), "pp_depth", "") = "30" -> 30 [] Get(Options(e), "pp_depth", "") = "50" -> 50 [] OTHER -> -1
Value(e) == CASE S(e, "data") = "all.mseed" -> 3 [] S(e, "data") = "fake18" -> 4 [] OTHER -> IF S(e, "plugin") = "c18plug : f1" THEN 1 ELSE 2
Evs(e) == Range(e.evs[S(e, "events")])
Stas(e) == Range(e.stas[S(e, "inventory")])
Wanted(e) == IF e.cmd = "data" THEN {x \in Evs(e) \X Stas(e) : InDist(Dist(e), e.dist[x[1]])} ELSE Evs(e) \X Stas(e)
Written(e) == {<<r.e, r.sta>> : r \in Range(e.recs)}
Procs(e) == SelectSeq(Steps(e), LAMBDA s : s \in {"calc", "moveout"})
Func(s) == IF s = "calc" THEN "rf" ELSE "moveout"
Kw(e, s) == IF s = "calc" THEN D(e, "rf") ELSE Moveout(e)
\* the steps of each record one after the other
CallsOf(e, n) == [i \in 1..(n * Len(Procs(e))) |-> Func(Procs(e)[1 + ((i - 1) % Len(Procs(e)))])]
ClausesRecords(e) ==
  Bad(Written(e) = Wanted(e), "records-of-the-chosen-events-and-stations")
  \cup Bad(\A r \in Range(e.recs) : r.num = 3, "three-traces-per-record")
  \cup Bad(Len(e.calls) = Len(Procs(e)) * Cardinality(Wanted(e)) /\ (Procs(e) # <<>> => \A i \in 1..Len(e.calls) : e.calls[i].f = Func(Procs(e)[1 + ((i - 1) % Len(Procs(e)))])), "steps-in-the-given-order")
  \cup Bad(\A x \in Range(e.calls) : x.f \in {"rf", "moveout"} => Range(x.kw) = Kw(e, IF x.f = "rf" THEN "calc" ELSE "moveout"), "options-of-the-steps")
  \cup Bad(Wanted(e) = {} \/ e.fmts = <<(IF e.cmd = "convert" THEN e.newformat ELSE Format(e))>>, "format-of-the-output")
ClausesData(e) ==
  Bad(\A r \in Range(e.recs) : Quote(r.phase) = Phase(e), "phase-in-effect")
  \cup Bad(\A r \in Range(e.recs) : r.lo = Lo(Window(e)) /\ r.hi = Hi(Window(e)), "request-window-in-effect")
  \cup Bad(\A r \in Range(e.recs) : r.pp = Depth(e), "piercing-point-depth-in-effect")
  \cup Bad(\A r \in Range(e.recs) : r.val = Value(e), "data-source-in-effect")
  \cup Bad(S(e, "data") = "fake18" => Range(e.client) = D(e, "client_options"), "client-options-in-effect")
Ids(e) == {"XX." \o s \o "..BH" \o c : s \in Stas(e), c \in {"L", "Q", "T"}}
ClausesPlot(e, f, o) == Bad(Len(e.calls) > 0 /\ \A x \in Range(e.calls) : x.f = f /\ Range(x.kw) = D(e, o), "options-of-the-plot")
Clauses(e) ==
  IF Undecided(e) THEN {} ELSE
  IF e.cmd = "create" THEN
     Bad(e.exc = "", "create-failed") \cup Bad(e.nfiles = 0 /\ Len(e.others) = Len(e.wanted) /\ \A x \in Range(e.wanted) : x \in Range(e.copied), "create-copies-the-bundled-files")
     \cup Bad(e.gone = <<>>, "files-deleted")
  ELSE IF Invalid(e) THEN
     Bad(e.exc # "" \/ e.said # "", "refused-without-message") \cup Bad(e.nfiles = 0 /\ e.others = <<>> /\ e.gone = <<>>, "refused-but-files-changed")
     \cup Bad(e.calls = <<>>, "refused-but-steps-done")
  ELSE
     Bad(e.exc = "", "valid-call-failed") \cup Bad(e.others = <<>> /\ e.gone = <<>>, "other-files-changed") \cup Bad(e.args_changed = <<>>, "objects-of-the-caller-changed")
     \cup (IF e.exc # "" THEN {} ELSE
       CASE e.cmd = "data" -> ClausesRecords(e) \cup ClausesData(e)
         [] e.cmd \in {"calc", "moveout", "convert"} -> ClausesRecords(e)
         [] e.cmd = "stack" -> Bad(Range(e.ids) = Ids(e) /\ Len(e.ids) = Cardinality(Ids(e)), "stack-of-the-chosen-stations") \cup Bad(e.fmts = <<Format(e)>>, "format-of-the-output")
         [] e.cmd = "profile" -> Bad(\E m \in Range(e.match) : m.events = S(e, "events") /\ m.inventory = S(e, "inventory") /\ (IF m.boxbins = "" THEN Range(m.boxes) = D(e, "boxes") ELSE Without(Range(m.boxes), "bins") = Without(D(e, "boxes"), "bins")) /\ m.boxbins = S(e, "boxbins"), "profile-with-the-options-in-effect") \cup Bad(e.fmts = <<Format(e)>>, "format-of-the-output")
         [] e.cmd = "plot" -> ClausesPlot(e, "plot_rf", "plot") \cup Bad({x.sta[1] : x \in Range(e.calls)} = Stas(e) /\ Len(e.calls) = 3 * Cardinality(Stas(e)), "plots-of-the-chosen-stations")
         [] e.cmd = "plot-profile" -> ClausesPlot(e, "plot_profile", "plot_profile") \cup Bad(Len(e.calls) = 3, "plot-per-component")
         [] OTHER -> Bad((IF e.objects = "events" THEN S(e, "events") ELSE IF e.objects = "stations" THEN S(e, "inventory") ELSE "files") \in Range(e.shown), "print-shows-the-chosen-objects") \cup Bad(e.nfiles = 0, "print-writes-nothing"))
Init == l = 1
Next == l <= Len(Tr) /\ Report(l, Clauses(Tr[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
