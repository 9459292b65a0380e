SPECIFICATION Spec
CONSTANT Judge <- ConcJudge
VIEW Seen
CHECK_DEADLOCK FALSE
