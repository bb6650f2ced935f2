------------------------------ MODULE JsonText ------------------------------
(* JSON (RFC 8259), as far as events need it: a parser which reads a text    *)
(* character by character. A character is itself if it is printable ASCII,   *)
(* and "U+XXXX" otherwise.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
    [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12 [] c \in {"d", "D"} -> 13
    [] c \in {"e", "E"} -> 14 [] OTHER -> 15]
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Upper(n) == HexDigit[((n \div 4096) % 16) + 1] \o HexDigit[((n \div 256) % 16) + 1] \o HexDigit[((n \div 16) % 16) + 1] \o HexDigit[(n % 16) + 1]
Ascii == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
  "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
  "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
Tok(n) == IF n >= 32 /\ n < 127 THEN Ascii[n - 31] ELSE "U+" \o Upper(n)
Control == {Tok(n) : n \in 0 .. 31}
Escape == [c \in {"\"", "\\", "/", "b", "f", "n", "r", "t"} |->
  CASE c = "b" -> Tok(8) [] c = "f" -> Tok(12) [] c = "n" -> Tok(10) [] c = "r" -> Tok(13) [] c = "t" -> Tok(9) [] OTHER -> c]
White == {" ", Tok(9), Tok(10), Tok(13)}
Lead(n) == n >= 55296 /\ n <= 56319
Trail(n) == n >= 56320 /\ n <= 57343
(* astral characters are tokens of five or six digits *)
Hex5(n) == (IF n \div 1048576 > 0 THEN HexDigit[((n \div 1048576) % 16) + 1] ELSE "") \o HexDigit[((n \div 65536) % 16) + 1] \o Upper(n % 65536)

(* the parser: results are [ok, i, v]; texts are sequences of tokens          *)
Bad == [ok |-> FALSE, i |-> 0, v |-> <<>>]
RECURSIVE Ws(_, _)
Ws(s, k) == IF k <= Len(s) /\ s[k] \in White THEN Ws(s, k + 1) ELSE k
At(s, k) == IF k <= Len(s) THEN s[k] ELSE "end"
Four(s, k) == \A n \in k .. k + 3 : n <= Len(s) /\ s[n] \in DOMAIN HexVal
Val4(s, k) == HexVal[s[k]] * 4096 + HexVal[s[k + 1]] * 256 + HexVal[s[k + 2]] * 16 + HexVal[s[k + 3]]
RECURSIVE Str(_, _, _)
Str(s, k, acc) == \* after the opening quote
  IF k > Len(s) THEN Bad
  ELSE IF s[k] = "\"" THEN [ok |-> TRUE, i |-> k + 1, v |-> acc]
  ELSE IF s[k] = "\\" THEN
    IF At(s, k + 1) \in DOMAIN Escape THEN Str(s, k + 2, Append(acc, Escape[s[k + 1]]))
    ELSE IF At(s, k + 1) = "u" /\ Four(s, k + 2) THEN
      LET n == Val4(s, k + 2) IN
      IF Lead(n) /\ At(s, k + 6) = "\\" /\ At(s, k + 7) = "u" /\ Four(s, k + 8) /\ Trail(Val4(s, k + 8))
      THEN Str(s, k + 12, Append(acc, "U+" \o Hex5(65536 + (n - 55296) * 1024 + (Val4(s, k + 8) - 56320))))
      ELSE IF Lead(n) \/ Trail(n) THEN Bad
      ELSE Str(s, k + 6, Append(acc, Tok(n)))
    ELSE Bad
  ELSE IF s[k] \in Control THEN Bad
  ELSE Str(s, k + 1, Append(acc, s[k]))
RECURSIVE Dig(_, _)
Dig(s, k) == IF At(s, k) \in Digits THEN Dig(s, k + 1) ELSE k
Num(s, k) == \* an integer, as its tokens (no event has any other number)
  LET b == IF s[k] = "-" THEN k + 1 ELSE k
      e == Dig(s, b)
  IN IF e = b \/ (s[b] = "0" /\ e > b + 1) THEN Bad ELSE [ok |-> TRUE, i |-> e, v |-> SubSeq(s, k, e - 1)]
Word(s, k, w) == k + Len(w) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(w) - 1) = w
Flat(v) == FoldLeft(LAMBDA a, b : a \o b, "", v)
RECURSIVE Value(_, _), Members(_, _, _)
Value(s, k0) ==
  LET k == Ws(s, k0) c == At(s, k) IN
  IF c = "\"" THEN LET r == Str(s, k + 1, <<>>) IN [r EXCEPT !.v = [t |-> "str", v |-> r.v]]
  ELSE IF c = "{" THEN
     IF At(s, Ws(s, k + 1)) = "}" THEN [ok |-> TRUE, i |-> Ws(s, k + 1) + 1, v |-> [t |-> "obj", v |-> <<>>]]
     ELSE Members(s, k + 1, <<>>)
  ELSE IF c = "-" \/ c \in Digits THEN LET r == Num(s, k) IN [r EXCEPT !.v = [t |-> "num", v |-> r.v]]
  ELSE IF Word(s, k, <<"n", "u", "l", "l">>) THEN [ok |-> TRUE, i |-> k + 4, v |-> [t |-> "null", v |-> <<>>]]
  ELSE Bad
Member(s, k0) ==
  LET k == Ws(s, k0) IN
  IF At(s, k) # "\"" THEN Bad
  ELSE LET n == Str(s, k + 1, <<>>) IN
       IF ~ n.ok \/ At(s, Ws(s, n.i)) # ":" THEN Bad
       ELSE LET x == Value(s, Ws(s, n.i) + 1) IN
            IF ~ x.ok THEN Bad ELSE [ok |-> TRUE, i |-> x.i, v |-> <<Flat(n.v), x.v>>]
Members(s, k, acc) ==
  LET m == Member(s, k) IN
  IF ~ m.ok THEN Bad
  ELSE IF \E a \in Range(acc) : a[1] = m.v[1] THEN Bad
  ELSE LET e == Ws(s, m.i) IN
       IF At(s, e) = "," THEN Members(s, e + 1, Append(acc, m.v))
       ELSE IF At(s, e) = "}" THEN [ok |-> TRUE, i |-> e + 1, v |-> [t |-> "obj", v |-> Append(acc, m.v)]]
       ELSE Bad

(* ways to write a text as a JSON string, for checking the parser *)
Must(c) == c \in Control \cup {"\"", "\\"}
Code(c) == CHOOSE n \in 0 .. 126 : Tok(n) = c
Encode(s, all) ==
  <<"\"">> \o FoldLeft(LAMBDA a, c :
     IF Must(c) \/ (all /\ \E n \in 0 .. 126 : Tok(n) = c)
     THEN a \o <<"\\", "u", HexDigit[1], HexDigit[1], HexDigit[Code(c) \div 16 + 1], HexDigit[(Code(c) % 16) + 1]>>
     ELSE Append(a, c), <<>>, s) \o <<"\"">>
Raw(s) == <<"\"">> \o s \o <<"\"">>
=============================================================================
