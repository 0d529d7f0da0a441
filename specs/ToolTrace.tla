------------------------------- MODULE ToolTrace -------------------------------
(* Recorded runs of the command line tool on files holding the databases of DbTrace. *)
EXTENDS DbTrace
LOCAL INSTANCE Dump
LOCAL INSTANCE FileIO
(* -------- dump and statistics -------- *)
TDump == /\ Is("Dump") /\ E.exit = 0 /\ E.errors = 0
         /\ E.lines = DumpText(D, E.hash, Formats[E.fmt])
         /\ Keep
TStats == /\ Is("Stats") /\ E.exit = 0 /\ E.errors = 0
          /\ E.size >= HeadBytes + NodeBytes * (Count(D) - FirstUser)
          /\ (E.built => E.size = HeadBytes + NodeBytes * (Count(D) - FirstUser) + NameBytes(SubSeq(D.nodes, FirstUser + 1, Count(D)), Count(D) - FirstUser))
          /\ E.lines = StatsText(D, E.size)
          /\ Keep
(* -------- emitted source: what the compiled array holds, and the database read from it -------- *)
TEmit == /\ Is("Emit") /\ E.exit = 0 /\ E.compiled = 0
         /\ E.array = E.image /\ E.size = Len(E.image)
         /\ E.rrc = 0
         /\ IF Count(D) > FirstUser THEN E.root = D.root /\ E.nodes = D.nodes ELSE Len(E.nodes) <= FirstUser
         /\ Keep
(* -------- runs with file errors -------- *)
TRun == /\ Is("Run")
        /\ ~E.crash
        /\ (E.exit = 0 => Readable(E.inputs) /\ E.complete)
        /\ (Readable(E.inputs) /\ Writable(E.output) /\ ~E.fired => E.exit = 0)
        /\ (E.fired \/ ~Writable(E.output) => E.exit # 0)
        /\ Keep
UNext == TNext \/ TDump \/ TStats \/ TEmit \/ TRun
USpec == TInit /\ [][UNext]_tvars
===============================================================================
