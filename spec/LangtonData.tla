---------------------------- MODULE LangtonData ----------------------------
(* The published table of Langton's self-reproducing loop (C. G. Langton, 1984; 219 entries CTRBL -> image,
   each read as a six-digit number) and its initial loop. *)
EXTENDS Integers, Sequences
PublishedTable == <<
  0, 12, 20, 30, 50, 63, 71, 112, 122, 132, 212, 220, 230, 262, 272, 320,
  525, 622, 722, 1022, 1120, 2020, 2030, 2050, 2125, 2220, 2322, 5222, 12321, 12421, 12525, 12621,
  12721, 12751, 14221, 14321, 14421, 14721, 16251, 17221, 17255, 17521, 17621, 17721, 25271, 100011, 100061, 100077,
  100111, 100121, 100211, 100244, 100277, 100511, 101011, 101111, 101244, 101277, 102026, 102121, 102211, 102244, 102263, 102277,
  102327, 102424, 102626, 102644, 102677, 102710, 102727, 105427, 111121, 111221, 111244, 111251, 111261, 111277, 111522, 112121,
  112221, 112244, 112251, 112277, 112321, 112424, 112621, 112727, 113221, 122244, 122277, 122434, 122547, 123244, 123277, 124255,
  124267, 125275, 200012, 200022, 200042, 200071, 200122, 200152, 200212, 200222, 200232, 200242, 200250, 200262, 200272, 200326,
  200423, 200517, 200522, 200575, 200722, 201022, 201122, 201222, 201422, 201722, 202022, 202032, 202052, 202073, 202122, 202152,
  202212, 202222, 202272, 202321, 202422, 202452, 202520, 202552, 202622, 202722, 203122, 203216, 203226, 203422, 204222, 205122,
  205212, 205222, 205521, 205725, 206222, 206722, 207122, 207222, 207422, 207722, 211222, 211261, 212222, 212242, 212262, 212272,
  214222, 215222, 216222, 217222, 222272, 222442, 222462, 222762, 222772, 300013, 300022, 300041, 300076, 300123, 300421, 300622,
  301021, 301220, 302511, 401120, 401220, 401250, 402120, 402221, 402326, 402520, 403221, 500022, 500215, 500225, 500232, 500272,
  500520, 502022, 502122, 502152, 502220, 502244, 502722, 512122, 512220, 512422, 512722, 600011, 600021, 602120, 612125, 612131,
  612225, 700077, 701120, 701220, 701250, 702120, 702221, 702251, 702321, 702525, 702720 >>
LangtonLoop == <<
  <<0, 2, 2, 2, 2, 2, 2, 2, 2, 0, 0, 0, 0, 0, 0>>,
  <<2, 1, 7, 0, 1, 4, 0, 1, 4, 2, 0, 0, 0, 0, 0>>,
  <<2, 0, 2, 2, 2, 2, 2, 2, 0, 2, 0, 0, 0, 0, 0>>,
  <<2, 7, 2, 0, 0, 0, 0, 2, 1, 2, 0, 0, 0, 0, 0>>,
  <<2, 1, 2, 0, 0, 0, 0, 2, 1, 2, 0, 0, 0, 0, 0>>,
  <<2, 0, 2, 0, 0, 0, 0, 2, 1, 2, 0, 0, 0, 0, 0>>,
  <<2, 7, 2, 0, 0, 0, 0, 2, 1, 2, 0, 0, 0, 0, 0>>,
  <<2, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 0>>,
  <<2, 0, 7, 1, 0, 7, 1, 0, 7, 1, 1, 1, 1, 1, 2>>,
  <<0, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0>> >>
Digits(x, n) == [k \in 1..n |-> (x \div (10 ^ (n - k))) % 10]
LangtonTable == [k \in DOMAIN PublishedTable |-> LET d == Digits(PublishedTable[k], 6) IN <<SubSeq(d, 1, 5), d[6]>>]
=============================================================================
