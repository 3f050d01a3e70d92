SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2, 3}
  MaxVer = 3
INVARIANTS CacheCurrent AnswerCurrent
