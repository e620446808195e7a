------------------------------- MODULE PhiTab -------------------------------
(* The modular polynomials for l = 2, 3, 5, 7, tabulated; MCForms checks that *)
(* they are modular polynomials (for 7 in the thorough tier).                 *)
EXTENDS Poly
Tri2 == <<
  << <<0, 0>>, <<-1, 0, 0, 4640, 157>> >>,
  << <<1, 0>>, <<1, 0, 4800, 87>> >>,
  << <<1, 1>>, <<1, 3375, 4077>> >>,
  << <<2, 0>>, <<-1, 2000, 16>> >>,
  << <<2, 1>>, <<1, 1488>> >>,
  << <<2, 2>>, <<-1, 1>> >>,
  << <<3, 0>>, <<1, 1>> >>
>>
Tri3 == <<
  << <<1, 0>>, <<1, 0, 0, 8720, 5871, 5542, 18>> >>,
  << <<1, 1>>, <<-1, 0, 3600, 9663, 845, 77>> >>,
  << <<2, 0>>, <<1, 0, 3200, 9848, 452>> >>,
  << <<2, 1>>, <<1, 6000, 2297, 9002, 8>> >>,
  << <<2, 2>>, <<1, 8086, 8791, 25>> >>,
  << <<3, 0>>, <<1, 4000, 3686>> >>,
  << <<3, 1>>, <<-1, 9956, 106>> >>,
  << <<3, 2>>, <<1, 2232>> >>,
  << <<3, 3>>, <<-1, 1>> >>,
  << <<4, 0>>, <<1, 1>> >>
>>
Tri5 == <<
  << <<0, 0>>, <<1, 2000, 467, 7510, 1362, 9107, 4746, 7753, 5869, 7213, 7154, 5994, 1413>> >>,
  << <<1, 0>>, <<1, 2000, 5123, 5091, 3356, 6027, 4201, 5450, 2442, 8034, 4330, 5327>> >>,
  << <<1, 1>>, <<-1, 9376, 8294, 9787, 247, 1579, 2597, 596, 7662, 4570, 4073, 26>> >>,
  << <<2, 0>>, <<1, 7200, 6846, 150, 9415, 8714, 7084, 7997, 4262, 5000, 6692>> >>,
  << <<2, 1>>, <<1, 0, 5664, 3326, 6472, 9570, 6292, 3949, 3658, 5547, 36>> >>,
  << <<2, 2>>, <<1, 0, 9936, 7651, 3110, 1808, 5524, 1777, 1094, 51>> >>,
  << <<3, 0>>, <<1, 8800, 9786, 5652, 4321, 2780, 4395, 7828, 4477, 2802>> >>,
  << <<3, 1>>, <<-1, 8000, 3116, 1082, 9655, 2829, 6189, 7934, 9245, 1>> >>,
  << <<3, 2>>, <<1, 8000, 1772, 5774, 731, 5838, 4888, 6898, 2>> >>,
  << <<3, 3>>, <<-1, 6100, 3524, 9148, 5512, 696, 4412>> >>,
  << <<4, 0>>, <<1, 3440, 5625, 4244, 2841, 3313, 2847, 1>> >>,
  << <<4, 1>>, <<1, 4000, 1638, 8288, 8906, 4179, 1285>> >>,
  << <<4, 2>>, <<1, 5375, 1121, 7798, 3609, 8308, 3>> >>,
  << <<4, 3>>, <<1, 6800, 8533, 9281, 7878, 10>> >>,
  << <<4, 4>>, <<1, 4600, 9936, 6659, 1>> >>,
  << <<5, 0>>, <<1, 9280, 1148, 9632, 1>> >>,
  << <<5, 1>>, <<-1, 950, 8341, 2466>> >>,
  << <<5, 2>>, <<1, 1200, 2855, 20>> >>,
  << <<5, 3>>, <<-1, 940, 455>> >>,
  << <<5, 4>>, <<1, 3720>> >>,
  << <<5, 5>>, <<-1, 1>> >>,
  << <<6, 0>>, <<1, 1>> >>
>>
Tri7 == <<
  << <<1, 1>>, <<1, 0, 0, 0, 0, 8400, 4931, 4710, 1949, 5691, 3314, 7098, 2523, 3750, 6145, 3082, 1349, 122>> >>,
  << <<2, 0>>, <<1, 0, 0, 0, 0, 9200, 6753, 8271, 2512, 4028, 1737, 3373, 3376, 6840, 8838, 794, 4765, 146>> >>,
  << <<2, 1>>, <<-1, 0, 0, 0, 4000, 6854, 9642, 3179, 4160, 322, 8021, 2381, 4657, 8149, 8279, 5380, 838>> >>,
  << <<2, 2>>, <<-1, 0, 0, 0, 1504, 4834, 4014, 7495, 9481, 6471, 8495, 5079, 899, 7311, 6600, 466>> >>,
  << <<3, 0>>, <<1, 0, 0, 0, 2000, 5635, 4723, 6529, 6529, 8838, 8012, 1469, 2137, 4762, 5822, 4839, 13>> >>,
  << <<3, 1>>, <<-1, 0, 0, 0, 7936, 1936, 3976, 3823, 4672, 9789, 1602, 1118, 5018, 3986, 8668, 1296>> >>,
  << <<3, 2>>, <<1, 0, 0, 960, 9972, 3009, 6796, 0, 4610, 1863, 8469, 294, 6892, 9669, 7226>> >>,
  << <<3, 3>>, <<-1, 0, 9200, 3745, 5211, 7639, 2905, 7092, 6044, 3966, 6630, 4433, 5544, 5397>> >>,
  << <<4, 0>>, <<1, 0, 0, 0, 2816, 6816, 1163, 6572, 4852, 2472, 4770, 3574, 56, 5720, 4137>> >>,
  << <<4, 1>>, <<1, 0, 0, 8720, 8991, 1699, 8203, 4392, 1721, 6345, 1712, 512, 4973, 3293, 55>> >>,
  << <<4, 2>>, <<1, 0, 2800, 3281, 145, 9614, 2872, 1707, 5854, 9205, 868, 8933, 7189, 308>> >>,
  << <<4, 3>>, <<1, 0, 9648, 9413, 427, 8417, 7515, 9035, 3475, 6960, 1380, 7235, 179>> >>,
  << <<4, 4>>, <<1, 470, 2839, 2648, 1896, 3646, 2471, 5710, 6065, 2550, 8037, 8>> >>,
  << <<5, 0>>, <<1, 0, 0, 5840, 5283, 4730, 3849, 3245, 8475, 7218, 1971, 6424, 3206, 42>> >>,
  << <<5, 1>>, <<-1, 0, 8400, 9715, 9003, 6859, 2946, 8698, 8657, 1681, 9325, 8983, 406>> >>,
  << <<5, 2>>, <<1, 8000, 3292, 5231, 3056, 2226, 1113, 9625, 7812, 8277, 9804, 1126>> >>,
  << <<5, 3>>, <<-1, 2344, 6209, 7405, 5693, 7711, 2638, 5695, 1213, 6453, 901>> >>,
  << <<5, 4>>, <<1, 6800, 3845, 3404, 3305, 8258, 8258, 691, 6681, 140>> >>,
  << <<5, 5>>, <<-1, 8348, 6981, 8813, 6889, 3770, 8171, 8300, 1>> >>,
  << <<6, 0>>, <<1, 0, 9200, 4017, 1130, 4044, 8447, 5017, 4325, 36>> >>,
  << <<6, 1>>, <<1, 4000, 7382, 2297, 1419, 5112, 6154, 3543, 3806, 10>> >>,
  << <<6, 2>>, <<1, 9228, 6289, 6310, 3304, 1943, 6054, 5207, 1068>> >>,
  << <<6, 3>>, <<1, 3040, 2213, 7436, 8412, 2936, 4874, 6125, 1>> >>,
  << <<6, 4>>, <<1, 7432, 5320, 8983, 3213, 4246, 4609, 4>> >>,
  << <<6, 5>>, <<1, 3552, 7537, 284, 9350, 7708, 1>> >>,
  << <<6, 6>>, <<1, 281, 3138, 5989, 312>> >>,
  << <<7, 0>>, <<1, 8000, 5868, 5166, 4545, 10>> >>,
  << <<7, 1>>, <<-1, 3192, 4201, 2973, 4993, 3>> >>,
  << <<7, 2>>, <<1, 864, 1961, 1684, 720>> >>,
  << <<7, 3>>, <<-1, 8594, 112, 797, 4>> >>,
  << <<7, 4>>, <<1, 4400, 3767, 94>> >>,
  << <<7, 5>>, <<-1, 6068, 1024>> >>,
  << <<7, 6>>, <<1, 5208>> >>,
  << <<7, 7>>, <<-1, 1>> >>,
  << <<8, 0>>, <<1, 1>> >>
>>
PhiOf(tri) == ZCollect([k \in (1..Len(tri)) \X {0, 1} |->
   LET t == tri[k[1]] a == t[1][1] b == t[1][2]
   IN IF k[2] = 0 THEN <<<<a, b, 0, -1, -1>>, t[2]>>
      ELSE <<<<b, a, 0, -1, -1>>, IF a = b THEN Z0 ELSE t[2]>>])
Phi == [l \in {2, 3, 5, 7} |-> CASE l = 2 -> PhiOf(Tri2) [] l = 3 -> PhiOf(Tri3) [] l = 5 -> PhiOf(Tri5) [] l = 7 -> PhiOf(Tri7)]
=============================================================================
