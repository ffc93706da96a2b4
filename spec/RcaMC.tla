------------------------------- MODULE RcaMC -------------------------------
EXTENDS RcaImpl
SomeLits == {<< 1, 2 >>}
EveryOp == {"new", "newlit", "newcopy", "newmove", "newsub", "del", "asg", "asgmove", "swap", "clear", "reserve", "resizef", "app", "ins", "repl",
            "insseq", "insseqmv", "replseq", "replseqmv", "set", "popb", "slice", "hashf"}
=============================================================================
