------------------------------ MODULE QoiSpec -------------------------------
(* The "Quite OK Image" format. *)
EXTENDS BmpSpec
QHash(p) == (p[1] * 3 + p[2] * 5 + p[3] * 7 + p[4] * 11) % 64
QPut(s, p, n, run) == [s EXCEPT !.p = p, !.k = @ + n, !.tab[QHash(p) + 1] = p, !.out = IF run = 1 THEN Append(@, p) ELSE @ \o Rep(p, run)]
QStep(d, total, s) ==
  IF s.st # "run" THEN s
  ELSE IF Len(s.out) >= total THEN [s EXCEPT !.st = IF Len(s.out) = total THEN "ok" ELSE "bad"]
  ELSE IF s.k + 1 > Len(d) THEN [s EXCEPT !.st = "short"]
  ELSE LET b == B(d, s.k)
           c(j) == B(d, s.k + j)
           p == s.p
           t == b \div 64
           v == b % 64
           w(x) == (x + 256) % 256
           need == IF b = 255 THEN 5 ELSE IF b = 254 THEN 4 ELSE IF t = 2 THEN 2 ELSE 1 IN
       IF s.k + need > Len(d) THEN [s EXCEPT !.st = "short"]
       ELSE IF b = 254 THEN QPut(s, <<c(1), c(2), c(3), p[4]>>, 4, 1)
       ELSE IF b = 255 THEN QPut(s, <<c(1), c(2), c(3), c(4)>>, 5, 1)
       ELSE IF t = 0 THEN QPut(s, s.tab[v + 1], 1, 1)
       ELSE IF t = 1 THEN QPut(s, <<w(p[1] + (v \div 16) - 2) % 256, w(p[2] + ((v \div 4) % 4) - 2) % 256, w(p[3] + (v % 4) - 2) % 256, p[4]>>, 1, 1)
       ELSE IF t = 2 THEN LET g == v - 32
                              x == c(1) \div 16
                              y == c(1) % 16 IN
            QPut(s, <<w(p[1] + g + x - 8) % 256, w(p[2] + g) % 256, w(p[3] + g + y - 8) % 256, p[4]>>, 2, 1)
       ELSE QPut(s, p, 1, v + 1)
QEnd == <<0, 0, 0, 0, 0, 0, 0, 1>>
Qoi(d) ==
  LET w == BE32(d, 4)
      h == BE32(d, 8)
      ch == B(d, 12)
      s == FoldLeft(LAMBDA a, n : QStep(d, w * h, a), [st |-> "run", k |-> 14, p |-> <<0, 0, 0, 255>>, tab |-> Rep(<<0, 0, 0, 0>>, 64), out |-> <<>>], Iota(w * h + 1))
      px(p) == IF ch = 4 THEN Premul(p[1], p[2], p[3], p[4]) ELSE <<p[3], p[2], p[1], 255>> IN
  IF Cut(d, 0, 4) # <<113, 111, 105, 102>> \/ s.st # "ok" \/ Cut(d, s.k, 8) # QEnd THEN None
  ELSE [ok |-> TRUE, w |-> w, h |-> h, f |-> IF ch = 4 THEN 1 ELSE 2, px |-> Join([i \in 1..(w * h) |-> px(s.out[i])]), end |-> s.k + 8]
=============================================================================
