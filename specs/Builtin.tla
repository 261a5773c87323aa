------------------------------ MODULE Builtin -------------------------------
(* The sources that come with the package (catalogue "misc"): bodies of the   *)
(* solar system without position, and strong radio sources: <<right ascension *)
(* in hundredths of a second, declination in tenths of a second of arc>>,     *)
(* flux in mJy at mf MHz, hundredths of the spectral index, and shape in      *)
(* microradians.                                                              *)
EXTENDS Integers
BuiltinSources == {
  [name |-> "Moon", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Mercury", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Venus", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Mars", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Jupiter", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Saturn", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Uranus", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Neptune", pos |-> <<>>, jys |-> 0, mf |-> 150, index |-> 0, shape |-> <<0, 0, 0>>],
  [name |-> "Sun", pos |-> <<>>, jys |-> 57000000, mf |-> 150, index |-> 200, shape |-> <<4600, 4600, 0>>],
  [name |-> "for", pos |-> <<1216170, -1339500>>, jys |-> 170000, mf |-> 150, index |-> -80, shape |-> <<0, 0, 0>>],
  [name |-> "pic", pos |-> <<1918970, -1648050>>, jys |-> 452000, mf |-> 160, index |-> -80, shape |-> <<0, 0, 0>>],
  [name |-> "hyd", pos |-> <<3348570, -435440>>, jys |-> 1860000, mf |-> 160, index |-> -230, shape |-> <<0, 0, 0>>],
  [name |-> "cen", pos |-> <<4832760, -1548690>>, jys |-> 5144000, mf |-> 150, index |-> -65, shape |-> <<0, 0, 0>>],
  [name |-> "her", pos |-> <<6066815, 179733>>, jys |-> 300000, mf |-> 159, index |-> -100, shape |-> <<669, 669, 0>>],
  [name |-> "sgr", pos |-> <<6394000, -1044280>>, jys |-> 121000, mf |-> 160, index |-> -421, shape |-> <<0, 0, 0>>],
  [name |-> "crab", pos |-> <<2007200, 792520>>, jys |-> 1838000, mf |-> 150, index |-> -30, shape |-> <<0, 0, 0>>],
  [name |-> "vir", pos |-> <<4504940, 446080>>, jys |-> 1446000, mf |-> 150, index |-> -86, shape |-> <<0, 0, 0>>],
  [name |-> "cyg", pos |-> <<7196830, 1466420>>, jys |-> 10900000, mf |-> 150, index |-> -69, shape |-> <<0, 0, 0>>],
  [name |-> "cas", pos |-> <<8420794, 2117224>>, jys |-> 9160000, mf |-> 150, index |-> -73, shape |-> <<0, 0, 0>>]
}
=============================================================================
