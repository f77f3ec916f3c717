-------------------------------- MODULE Heap --------------------------------
(* Streams are sequences of references to trace cells; a trace cell refers to a data cell and to a history cell.     *)
(* Operations in place write the cells of their target only; all others allocate.  Because results may share data    *)
(* cells with their source (a slice is a view), an operation in place has to replace data cells, not to write them.   *)
(* Fault: "none"; "overwrite" (in-place operations write the shared data cell); "sharedlog" (results share the        *)
(* history cell of their source); "twice" (the operation is logged twice).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fault, MaxStreams, MaxOps
VARIABLES streams, data, hist, nops, kept, last
vars == <<streams, data, hist, nops, kept, last>>
\* streams[i] = sequence of [d, h]; data and hist are sequences of cells
New(cells, x) == Append(cells, x)
Content(ss, da, hi, i) == [k \in 1..Len(ss[i]) |-> <<da[ss[i][k].d], hi[ss[i][k].h]>>]
All == [i \in 1..Len(streams) |-> Content(streams, data, hist, i)]
Init == /\ streams = <<<<[d |-> 1, h |-> 1]>>>> /\ data = <<1>> /\ hist = <<<<>>>> /\ nops = 0
        /\ kept = <<>> /\ last = [op |-> "none", t |-> 0, r |-> 0]
Log(h, op) == IF Fault = "twice" THEN h \o <<op, op>> ELSE Append(h, op)
InPlace(i) == /\ i <= Len(streams) /\ nops < MaxOps
              /\ LET c == streams[i][1]
                 IN IF Fault = "overwrite"
                    THEN /\ data' = [data EXCEPT ![c.d] = @ + 10] /\ UNCHANGED streams
                    ELSE /\ data' = New(data, data[c.d] + 10)
                         /\ streams' = [streams EXCEPT ![i] = <<[d |-> Len(data) + 1, h |-> c.h]>>]
              /\ hist' = [hist EXCEPT ![streams[i][1].h] = Log(@, "mod")]
              /\ nops' = nops + 1 /\ kept' = All /\ last' = [op |-> "mod", t |-> i, r |-> 0]
Slice(i) == /\ i <= Len(streams) /\ nops < MaxOps /\ Len(streams) < MaxStreams
            /\ hist' = New(hist, hist[streams[i][1].h])
            /\ streams' = Append(streams, <<[d |-> streams[i][1].d, h |-> Len(hist) + 1]>>)
            /\ nops' = nops + 1 /\ kept' = All /\ last' = [op |-> "slice", t |-> i, r |-> Len(streams) + 1] /\ UNCHANGED data
Stack(i) == /\ i <= Len(streams) /\ nops < MaxOps /\ Len(streams) < MaxStreams
            /\ data' = New(data, data[streams[i][1].d])
            /\ IF Fault = "sharedlog"
               THEN /\ hist' = [hist EXCEPT ![streams[i][1].h] = Log(@, "stack")]
                    /\ streams' = Append(streams, <<[d |-> Len(data) + 1, h |-> streams[i][1].h]>>)
               ELSE /\ hist' = New(hist, Log(hist[streams[i][1].h], "stack"))
                    /\ streams' = Append(streams, <<[d |-> Len(data) + 1, h |-> Len(hist) + 1]>>)
            /\ nops' = nops + 1 /\ kept' = All /\ last' = [op |-> "stack", t |-> i, r |-> Len(streams) + 1]
Next == \E i \in 1..MaxStreams : InPlace(i) \/ Slice(i) \/ Stack(i)
Spec == Init /\ [][Next]_vars
\* everything but the target of an operation in place and the new stream is what it was
Frame == last.op # "none" => \A i \in 1..Len(kept) : (last.op = "mod" /\ i = last.t) \/ All[i] = kept[i]
Logged == last.op # "none" =>
   LET h0 == kept[last.t][1][2] IN
   CASE last.op = "mod" -> All[last.t][1][2] = Append(h0, "mod")
     [] last.op = "slice" -> All[last.r] = kept[last.t]
     [] last.op = "stack" -> All[last.r][1][2] = Append(h0, "stack")
\* two streams never write to the same history
OwnLog == \A i, j \in 1..Len(streams) : i # j => streams[i][1].h # streams[j][1].h
=============================================================================
