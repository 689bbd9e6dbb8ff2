------------------------------ MODULE RobustMC ------------------------------
EXTENDS Robust
CONSTANT Names
Init == RobustInit(Names)
Spec == Init /\ [][RobustNext]_rvars /\ WF_rvars(Refuse \/ Accept \/ End \/ \E n \in Names : Make(n) \/ Spoil(n))
Truthful == Success => \A n \in Names : disk[n] # "torn"
NothingBeforeAccepting == phase = "reading" => \A n \in Names : disk[n] = ""
Reported == failed => told
Ends == <>(phase = "over")
=============================================================================
