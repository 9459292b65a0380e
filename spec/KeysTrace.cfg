SPECIFICATION Spec
CONSTANTS
  Judge <- KeyJudge
VIEW Seen
CHECK_DEADLOCK FALSE
