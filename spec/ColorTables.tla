---------------------------- MODULE ColorTables ----------------------------
(* Reference values in 1/2^20, computed with 40 digits from the definitions:
   SrgbTable[k+1] = the linear value of the sRGB value k/255 (IEC 61966-2-1); GammaTable[k+1] = (k/16)^(1/2.2). *)
EXTENDS Integers, Sequences
SrgbTable == <<
  0, 318, 637, 955, 1273, 1591, 1910, 2228, 2546, 2864, 3183, 3509, 3855, 4220, 4605, 5009,
  5433, 5878, 6343, 6828, 7335, 7863, 8413, 8984, 9578, 10193, 10832, 11492, 12176, 12883, 13614, 14368,
  15145, 15947, 16773, 17624, 18499, 19399, 20324, 21274, 22250, 23251, 24278, 25331, 26410, 27516, 28648, 29807,
  30993, 32205, 33445, 34713, 36008, 37331, 38681, 40060, 41467, 42903, 44367, 45860, 47381, 48932, 50512, 52121,
  53760, 55428, 57127, 58855, 60613, 62402, 64221, 66071, 67951, 69862, 71805, 73778, 75783, 77819, 79886, 81985,
  84117, 86280, 88475, 90702, 92962, 95254, 97579, 99937, 102328, 104751, 107208, 109698, 112222, 114779, 117370, 119994,
  122653, 125345, 128072, 130833, 133628, 136458, 139323, 142222, 145156, 148125, 151130, 154169, 157244, 160355, 163501, 166683,
  169900, 173154, 176443, 179769, 183131, 186530, 189964, 193436, 196944, 200489, 204072, 207691, 211347, 215041, 218772, 222540,
  226346, 230190, 234071, 237991, 241948, 245944, 249978, 254050, 258161, 262310, 266498, 270724, 274990, 279294, 283637, 288020,
  292442, 296903, 301404, 305944, 310523, 315143, 319802, 324502, 329241, 334021, 338840, 343700, 348601, 353542, 358523, 363546,
  368609, 373713, 378858, 384044, 389271, 394539, 399849, 405201, 410594, 416028, 421504, 427022, 432582, 438184, 443828, 449515,
  455243, 461014, 466827, 472683, 478582, 484523, 490507, 496534, 502604, 508717, 514873, 521072, 527315, 533601, 539930, 546303,
  552720, 559181, 565685, 572234, 578826, 585462, 592143, 598868, 605637, 612451, 619309, 626211, 633159, 640151, 647188, 654270,
  661397, 668569, 675786, 683048, 690356, 697709, 705108, 712552, 720042, 727577, 735159, 742786, 750459, 758178, 765944, 773755,
  781613, 789517, 797468, 805465, 813509, 821599, 829736, 837920, 846151, 854429, 862753, 871125, 879545, 888011, 896525, 905086,
  913695, 922351, 931055, 939807, 948606, 957453, 966349, 975292, 984283, 993323, 1002411, 1011547, 1020731, 1029964, 1039246, 1048576 >>
GammaTable == <<
  0, 297353, 407478, 489943, 558388, 617997, 671394, 720125, 765188, 807271, 846873, 884368, 920046, 954137, 986825, 1018262,
  1048576, 1077873, 1106244, 1133768, 1160513, 1186537, 1211894, 1236630, 1260786, 1284399, 1307502, 1330125, 1352296, 1374039, 1395376, 1416330,
  1436917 >>
=============================================================================
