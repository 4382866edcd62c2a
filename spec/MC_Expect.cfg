SPECIFICATION Spec
CONSTANTS
  Numbers <- ExpNumbers
  Texts <- ExpTexts
  MemberNames <- ExpMembers
INVARIANT Theorems
CHECK_DEADLOCK FALSE
