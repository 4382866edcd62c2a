SPECIFICATION Spec
CONSTANTS
  Numbers <- JsonNumbers
  Texts <- JsonTexts
  MemberNames <- JsonNames
INVARIANT Sound
CHECK_DEADLOCK FALSE
