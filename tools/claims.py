c("P01 P02 P04 P06 P12 P15 P16 P43", SCHED, "model_checking", NS)
c("P03 P05 P07 P08 P13", SEQ, "exploration", NQ)
c("P17", INP, "exploration", NQ)
c("P09 P10 P11 P14", FLT, "fault_enumeration", NQ)
c("P18 P19 P20", SCHED, "model_checking", NS)
c("P21 P22 P23 P24 P25", SCHED, "model_checking", NS)
NI = "Every configuration/input/history within the stated bounds is run on the unmodified code and judged by an independent oracle (real drivers, parsers, handshakes, an in-process fake Redis); trusts those oracles."
FLI = "bounded exhaustive enumeration of command/request histories, options and fault positions on the real code against the same run without the code under test"
c("P26 P27 P28 P29 P30 P31 P34", INP, "exploration", NI)
c("P35", "bounded exhaustive enumeration of server fault sequences, each opening run in a process of its own, against the plain driver", "fault_enumeration", NI)
c("P32", FLI, "fault_enumeration", NI)
c("P33", FLI, "exploration", NI)
c("P36", "bounded exhaustive enumeration of tracing configurations and sequences of traced operations on the real code against a gRPC backend", "exploration", NI)
c("P37", INP, "exploration", NI.replace("(real drivers, parsers, handshakes, an in-process fake Redis)", "(a restatement of the rule)"))
c("P38", FLT, "fault_enumeration", NQ)
c("P39", "bounded exhaustive enumeration of operation sequences and of interleavings over two instances of the real code, against each instance alone", "model_checking", NS)
c("P40", "bounded exhaustive enumeration of configuration pairs and of all interleavings of operations in flight on the real code, against each instance alone", "exploration", NI)
c("P41", INP, "exploration", NI.replace("(real drivers, parsers, handshakes, an in-process fake Redis)", "(a JSON reader written from RFC 8259)"))
c("P42", "bounded exhaustive enumeration of operation and fault sequences on the real code, against the same run without the tracer", "fault_enumeration", NI)
