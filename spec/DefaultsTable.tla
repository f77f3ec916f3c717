---------------------------- MODULE DefaultsTable ----------------------------
(* The documented options of every operation: name, default (as Python text), other values, may be given by position.           *)
(* "!" : has no default, is always given.  "" : the default is not a value that can be written down (derived below).           *)
EXTENDS Kit
O(n, d, a) == [n |-> n, d |-> d, a |-> a, pos |-> TRUE]
W(n, d, a) == [n |-> n, d |-> d, a |-> a, pos |-> FALSE]
Filter == "{'type': 'bandpass', 'freqmin': 0.1, 'freqmax': 0.6}"
Rf(m) == <<O("method", "None", <<"'P'", "'S'">>), O("filter", "None", <<Filter>>), O("trim", "None", <<"(-20, 60)", "(-25, 45)">>), O("downsample", "None", <<"2", "1">>),
          O("rotate", "'ZNE->LQT'", <<"'NE->RT'", "None">>), O("deconvolve", "'time'", <<"'waterlevel'", "'iterative'", "'multitaper'", "None">>), O("source_components", "None", <<"'LZ'", "'QR'">>), W("winsrc", "", <<"(-5, 20, 2)", "'P'", "'S'">>)>>
Deconvolve(method) == <<IF method = "'time'" THEN O("method", "'time'", <<>>) ELSE O("method", "!", <<method>>), O("func", "None", <<>>), O("source_components", "'LZ'", <<"'L'", "'QR'">>),
          O("response_components", "None", <<"'LQT'", "'QT'", "'T'">>), O("winsrc", "'P'", <<"'S'", "(-5, 20, 2)">>)>>
Time == <<W("spiking", "1.0", <<"0.1", "10.0">>), W("solve_toeplitz", "'toeplitz'", <<"'scipy'">>)>>
Water == <<W("waterlevel", "0.05", <<"0.5", "0">>), W("gauss", "0.5", <<"1.0", "None">>), W("nfft", "None", <<"1024">>)>>
Iter == <<W("gauss", "0.5", <<"1.0">>), W("itmax", "400", <<"2", "0">>), W("minderr", "0.001", <<"0.5", "0">>), W("mute_shift", "False", <<"True">>)>>
Multi == <<W("gauss", "0.5", <<"1.0", "None">>), W("K", "3", <<"2">>), W("tband", "4", <<"2.5">>), W("T", "10", <<"20">>), W("olap", "0.75", <<"0.5">>), W("noise", "None", <<"NOISE", "NOISE0">>)>>
Norm(a) == <<W("normalize", "", a)>>
P(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.pos = TRUE]]
D0(s) == <<O("normalize", "0", s)>>
Table ==
  [rfstats |-> <<O("phase", "'P'", <<"'S'">>), O("dist_range", "'default'", <<"None", "(0, 180)", "(30, 90)", "(50, 85)">>), O("tt_model", "'iasp91'", <<"'ak135'">>), O("pp_depth", "None", <<"50", "0">>), O("pp_phase", "None", <<"'P'", "'S'">>), O("model", "'iasp91'", <<"MODEL">>)>>,
   moveoutP |-> <<O("phase", "None", <<"'Ps'", "'Ppps'">>), O("ref", "6.4", <<"5.5", "7.5">>), O("model", "'iasp91'", <<"MODEL">>)>>,
   moveoutS |-> <<O("phase", "None", <<"'Sp'", "'Sssp'">>), O("ref", "6.4", <<"5.5", "7.5">>), O("model", "'iasp91'", <<"MODEL">>)>>,
   ppointsP |-> <<O("pp_depth", "!", <<"50", "0", "200">>), O("pp_phase", "None", <<"'P'", "'S'">>), O("model", "'iasp91'", <<"MODEL">>)>>,
   ppointsS |-> <<O("pp_depth", "!", <<"50", "0", "200">>), O("pp_phase", "None", <<"'P'", "'S'">>), O("model", "'iasp91'", <<"MODEL">>)>>,
   rfP |-> Rf("P"), rfS |-> Rf("S"),
   dTime |-> Deconvolve("'time'") \o Time \o Norm(<<"0", "1">>), dWater |-> Deconvolve("'waterlevel'") \o Water \o Norm(<<"0", "1", "None", "'src'">>),
   dIter |-> Deconvolve("'iterative'") \o Iter \o Norm(<<"0", "1">>), dMulti |-> Deconvolve("'multitaper'") \o Multi \o Norm(<<"0", "1">>),
   aTime |-> <<O("shift", "!", <<"20", "0">>)>> \o <<O("spiking", "1.0", <<"0.1", "10.0">>), O("length", "None", <<"100">>)>> \o D0(<<"1", "None">>) \o <<O("solve_toeplitz", "'toeplitz'", <<"'scipy'">>)>>,
   aWater |-> <<O("waterlevel", "0.05", <<"0.5", "0">>), O("gauss", "0.5", <<"1.0", "None">>), O("tshift", "10.", <<"5.", "0">>), O("length", "None", <<"100">>)>> \o D0(<<"1", "None", "'src'">>) \o <<O("nfft", "None", <<"1024">>), O("return_info", "False", <<"True">>)>>,
   aIter |-> <<O("tshift", "10", <<"5", "0">>), O("gauss", "0.5", <<"1.0">>), O("itmax", "400", <<"2", "0">>), O("minderr", "0.001", <<"0.5", "0">>), O("mute_shift", "False", <<"True">>)>> \o D0(<<"1", "None">>),
   aMulti |-> <<O("tshift", "!", <<"-10", "-5">>), O("gauss", "0.5", <<"1.0", "None">>), O("K", "3", <<"2">>), O("tband", "4", <<"2.5">>), O("T", "10", <<"20">>), O("olap", "0.75", <<"0.5">>)>> \o D0(<<"1", "None">>),
   boxes |-> <<O("width", "2000", <<"50", "400">>)>>,
   profile |-> <<O("crs", "None", <<>>)>>,
   harmR |-> <<O("components", "'R'", <<"'T'">>), O("azim", "0", <<"30", "-20">>), O("method", "'time'", <<"'freq'">>)>>,
   harmRT |-> <<O("components", "!", <<"'RT'">>), O("azim", "0", <<"30", "-20">>), O("method", "'time'", <<"'freq'">>), W("scalars", "(3, 0.3)", <<"(1, 1)">>)>>,
   trim2 |-> <<O("starttime", "None", <<"5", "0", "T0 + 7">>), O("endtime", "None", <<"40", "0", "T0 + 70">>), O("reftime", "None", <<"'onset'", "'starttime'", "T0 + 3">>)>>,
   slice2 |-> <<O("starttime", "None", <<"5", "0", "T0 + 7">>), O("endtime", "None", <<"40", "0", "T0 + 70">>), O("reftime", "None", <<"'onset'", "'starttime'", "T0 + 3">>), O("keep_empty_traces", "False", <<"True">>)>>,
   groups |-> <<O("key", "None", <<"'onset'", "'event_time'">>), O("number_components", "None", <<"3", "2", "(2, 3)">>)>>,
   eventdata |-> <<O("phase", "'P'", <<"'S'">>), O("request_window", "None", <<"(-50, 150)", "(-100, 50)", "(0, 60)">>), O("pad", "10", <<"0", "25">>), W("dist_range", "'default'", <<"None">>), W("tt_model", "'iasp91'", <<"'ak135'">>), W("pp_depth", "None", <<"50">>)>>,
   writeQ |-> <<O("sh_compat", "False", <<"True">>)>>, writeSAC |-> <<O("sh_compat", "False", <<"True">>)>>, writeH5 |-> <<O("sh_compat", "False", <<"True">>)>>,
   readQ |-> <<O("format", "None", <<"'Q'", "'GSE2'">>)>>, readSAC |-> <<O("format", "None", <<"'SAC'", "'GSE2'">>)>>, readH5 |-> <<O("format", "None", <<"'H5'", "'GSE2'">>)>>,
   loadmodel |-> <<O("fname", "'iasp91'", <<"MODEL">>)>>,
   mmoveout |-> <<O("phase", "'Ps'", <<"'Ppps'">>), O("ref", "6.4", <<"5.5", "7.5">>)>>, mstretch |-> <<O("phase", "'Ps'", <<"'Ppps'">>), O("ref", "6.4", <<"5.5", "7.5">>)>>,
   mdelay |-> <<O("phase", "'PS'", <<"'SP'", "'PPPS'">>)>>, mvertical |-> <<O("phase", "'PS'", <<"'P'", "'S'">>)>>, mppoint |-> <<O("phase", "'S'", <<"'P'">>)>>, mdistance |-> <<O("phase", "'S'", <<"'P'">>)>>,
   plotrf |-> <<O("fname", "None", <<>>), O("fig_width", "7.", <<"5.">>), O("trace_height", "0.5", <<"0.8">>), O("stack_height", "0.5", <<"0.8">>), O("dpi", "None", <<"60">>), O("trace_scale", "False", <<"True">>), O("scale_factor", "1", <<"2">>), O("fillcolors", "(None, None)", <<"('r', 'b')">>),
              O("trim", "None", <<"(-5, 20)">>), O("info", "(('back_azimuth', u'baz (°)', 'C0'), ('distance', u'dist (°)', 'C3'))", <<"None", "(('slowness', 'p', 'C1'),)">>), O("show_traces", "True", <<"False">>), O("show_vlines", "False", <<"True">>)>>,
   plotprofile |-> <<O("fname", "None", <<>>), O("figsize", "None", <<"(5, 4)">>), O("dpi", "None", <<"60">>), O("scale", "1", <<"2">>), O("fillcolors", "('C3', 'C0')", <<"('r', 'b')">>), O("trim", "None", <<"(-5, 20)">>), O("top", "None", <<"'hist'">>), O("moveout_model", "'iasp91'", <<"MODEL">>)>>,
   plotharm |-> <<O("hd2", "None", <<"HD2">>), O("fillcolors", "('b', 'r')", <<"('C3', 'C0')">>), O("trim", "None", <<"(-5, 20)">>)>>,
   plotpp |-> <<O("inventory", "None", <<"INV">>), O("label_stations", "True", <<"False">>), O("ax", "None", <<>>), O("crs", "None", <<"CRS">>)>>,
   plotsta |-> <<O("label_stations", "True", <<"False">>), O("ax", "None", <<>>), O("crs", "None", <<"CRS">>)>>,
   plotmap |-> <<O("inventory", "None", <<"INV">>), O("label_stations", "True", <<"False">>), O("ppoints", "None", <<"PP">>), O("ax", "None", <<>>), O("crs", "None", <<"CRS">>)>>]
=============================================================================
