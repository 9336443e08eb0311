---- MODULE FixedTest ----
EXTENDS Fixed, Json, SequencesExt
Cases == ndJsonDeserialize("ft.ndjson")
F(c) == LET a == <<c.a, 0>> b == <<c.b, 0>> IN
  CASE c.f = "mul" -> FMul(a,b) [] c.f = "div" -> FDiv(a,b) [] c.f = "sqrt" -> FSqrt(a)
  [] c.f = "exp" -> FExp(a) [] c.f = "log" -> FLog(a) [] c.f="sin" -> FSin(a) [] c.f="cos" -> FCos(a)
  [] c.f="tan" -> FTan(a) [] c.f="atan" -> FAtan(a) [] c.f="asin" -> FAsin(a) [] c.f="acos" -> FAcos(a)
VARIABLE l, out
Init == l = 1 /\ out = <<>>
Next == l <= Len(Cases) /\ l' = l+1 /\ out' = F(Cases[l]) /\ PrintT(<<"R", l, out'[1], out'[2]>>)
====
