-------------------------------- MODULE Text --------------------------------
(* String operations TLA+ lacks; evaluated by /verif/java/Text.java. *)
LOCAL Overridden == CHOOSE x \in {} : TRUE
StrCmp(a, b) == Overridden       \* byte-wise order of the UTF-8 encodings: -1, 0, 1
StrContains(a, b) == Overridden  \* is b a substring of a?
StrLen(a) == Overridden          \* length in bytes
StrAt(a, i) == Overridden        \* i-th character as a string
StrCat(a, b) == Overridden
StrLower(a) == Overridden
StrMatches(a, p) == Overridden    \* does the regular expression p match a part of a?
=============================================================================
