SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Decimal Adds Subs Muls Negs Divs Mods Cmps Ands Ors Xors Shls Shrs
