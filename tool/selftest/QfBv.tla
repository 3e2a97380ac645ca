---- MODULE QfBv ----
EXTENDS Smt, IOUtils
Tr == ndJsonDeserialize("t.ndjson")
VARIABLE zz
Sorts == [n \in {"a","b","c","d","e","f","p","q"} |-> CASE n \in {"a","e"} -> "8" [] n = "b" -> "16" [] n = "c" -> "32" [] n \in {"d","f"} -> "64" [] OTHER -> "B"]
Read(s) == SmtRead(SmtScan(s, 1, <<>>, <<>>).toks, 1).v
Go(i) == LET x == Read(Tr[i].f)
             env == [n \in DOMAIN Sorts |-> IF n = "p" THEN TRUE ELSE IF n = "q" THEN FALSE ELSE Tr[i].v[n]]
             s == SmtSort(x, Sorts)
         IN IF s # "B" THEN PrintT(<<"SORT", i, s, Tr[i].f>>) ELSE IF SmtValue(x, env) # Tr[i].w THEN PrintT(<<"WRONG", i, Tr[i].f>>) ELSE TRUE
Init == zz = 1
Next == zz <= Len(Tr) /\ Go(zz) /\ zz' = zz + 1
====
