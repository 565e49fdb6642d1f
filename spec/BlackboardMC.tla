---- MODULE BlackboardMC ----
EXTENDS Blackboard
MCValues == {IntV(1), [ty |-> "other", v |-> 1]}
====
