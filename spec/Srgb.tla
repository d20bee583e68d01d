-------------------------------- MODULE Srgb --------------------------------
(* The sRGB transfer curve (IEC 61966-2-1) in units of 2^-24: the linear light of every channel byte, and the linear
   values half way (in sRGB) between two neighbouring bytes, at which the nearest byte changes. *)
EXTENDS Integers, Sequences
SrgbLin == <<
  0, 5092, 10185, 15277, 20369, 25462, 30554, 35646, 40739, 45831, 50923, 56146, 61682, 67524, 73676, 80144,
  86931, 94043, 101483, 109255, 117364, 125813, 134607, 143749, 153244, 163095, 173306, 183880, 194821, 206133, 217819, 229883,
  242327, 255157, 268373, 281981, 295983, 310382, 325182, 340386, 355996, 372016, 388449, 405298, 422565, 440255, 458369, 476910,
  495881, 515286, 535127, 555406, 576126, 597291, 618902, 640963, 663476, 686443, 709868, 733752, 758099, 782910, 808189, 833938,
  860159, 886854, 914027, 941680, 969814, 998433, 1027538, 1057133, 1087218, 1117798, 1148873, 1180447, 1212520, 1245097, 1278179, 1311767,
  1345865, 1380475, 1415598, 1451237, 1487394, 1524071, 1561270, 1598994, 1637244, 1676023, 1715332, 1755173, 1795550, 1836463, 1877915, 1919907,
  1962442, 2005522, 2049149, 2093324, 2138049, 2183328, 2229161, 2275550, 2322497, 2370005, 2418074, 2466708, 2515908, 2565675, 2616012, 2666920,
  2718402, 2770458, 2823092, 2876304, 2930097, 2984472, 3039432, 3094977, 3151110, 3207832, 3265145, 3323052, 3381553, 3440650, 3500346, 3560641,
  3621538, 3683038, 3745144, 3807855, 3871176, 3935106, 3999648, 4064803, 4130573, 4196960, 4263965, 4331589, 4399836, 4468706, 4538200, 4608321,
  4679069, 4750448, 4822457, 4895099, 4968376, 5042288, 5116838, 5192027, 5267856, 5344328, 5421443, 5499204, 5577611, 5656667, 5736372, 5816729,
  5897738, 5979402, 6061722, 6144699, 6228335, 6312631, 6397589, 6483210, 6569496, 6656448, 6744068, 6832357, 6921317, 7010948, 7101253, 7192233,
  7283889, 7376223, 7469237, 7562930, 7657306, 7752366, 7848110, 7944540, 8041658, 8139465, 8237963, 8337152, 8437035, 8537612, 8638885, 8740855,
  8843524, 8946893, 9050964, 9155737, 9261215, 9367397, 9474287, 9581885, 9690192, 9799210, 9908940, 10019383, 10130542, 10242416, 10355008, 10468318,
  10582349, 10697100, 10812575, 10928773, 11045697, 11163346, 11281724, 11400831, 11520668, 11641236, 11762538, 11884573, 12007344, 12130852, 12255098, 12380082,
  12505807, 12632274, 12759484, 12887438, 13016137, 13145583, 13275776, 13406719, 13538412, 13670857, 13804054, 13938006, 14072712, 14208175, 14344396, 14481375,
  14619114, 14757615, 14896878, 15036905, 15177696, 15319253, 15461578, 15604671, 15748533, 15893166, 16038571, 16184750, 16331702, 16479430, 16627934, 16777216 >>
SrgbCut == <<
  2546, 7639, 12731, 17823, 22916, 28008, 33100, 38193, 43285, 48377, 53491, 58876, 64564, 70561, 76870, 83497,
  90446, 97721, 105327, 113267, 121545, 130167, 139134, 148452, 158125, 168155, 178547, 189304, 200431, 211929, 223804, 236057,
  248694, 261716, 275128, 288932, 303133, 317732, 332733, 348140, 363955, 380181, 396821, 413879, 431357, 449258, 467586, 486342,
  505529, 525152, 545211, 565711, 586653, 608041, 629876, 652163, 674902, 698098, 721752, 745867, 770446, 795491, 821005, 846989,
  873447, 900381, 927793, 955687, 984063, 1012925, 1042274, 1072114, 1102446, 1133273, 1164597, 1196421, 1228746, 1261575, 1294909, 1328752,
  1363106, 1397972, 1433353, 1469251, 1505667, 1542605, 1580066, 1618053, 1656567, 1695611, 1735186, 1775295, 1815939, 1857121, 1898843, 1941107,
  1983914, 2027267, 2071167, 2115618, 2160619, 2206175, 2252285, 2298953, 2346181, 2393969, 2442321, 2491237, 2540720, 2590772, 2641395, 2692589,
  2744358, 2796703, 2849626, 2903128, 2957212, 3011879, 3067131, 3122970, 3179397, 3236415, 3294024, 3352228, 3411027, 3470423, 3530418, 3591014,
  3652213, 3714015, 3776424, 3839439, 3903064, 3967300, 4032148, 4097611, 4163689, 4230385, 4297699, 4365635, 4434193, 4503374, 4573182, 4643616,
  4714680, 4786373, 4858699, 4931658, 5005252, 5079483, 5154353, 5229862, 5306012, 5382805, 5460243, 5538327, 5617058, 5696438, 5776469, 5857152,
  5938488, 6020480, 6103128, 6186434, 6270400, 6355027, 6440316, 6526270, 6612889, 6700175, 6788129, 6876753, 6966048, 7056016, 7146659, 7237977,
  7329972, 7422645, 7515998, 7610033, 7704750, 7800152, 7896239, 7993013, 8090476, 8188628, 8287471, 8387007, 8487236, 8588161, 8689783, 8792102,
  8895121, 8998841, 9103263, 9208388, 9314218, 9420754, 9527997, 9635949, 9744612, 9853986, 9964072, 10074873, 10186389, 10298622, 10411573, 10525243,
  10639634, 10754747, 10870583, 10987144, 11104431, 11222444, 11341186, 11460658, 11580861, 11701795, 11823464, 11945867, 12069006, 12192883, 12317497, 12442852,
  12568948, 12695786, 12823368, 12951694, 13080766, 13210586, 13341154, 13472472, 13604541, 13737361, 13870936, 14005264, 14140349, 14276191, 14412790, 14550150,
  14688269, 14827151, 14966796, 15107205, 15248379, 15390320, 15533028, 15676506, 15820753, 15965772, 16111564, 16258129, 16405469, 16553585, 16702478 >>
SrgbSlack(x) == 3 + (x \div 65536)                                 \* single precision
\* k is a byte nearest to the linear value x
SrgbByte(k, x) == /\ k > 0 => x + SrgbSlack(x) >= SrgbCut[k]
                  /\ k < 255 => x - SrgbSlack(x) <= SrgbCut[k + 1]
=============================================================================
