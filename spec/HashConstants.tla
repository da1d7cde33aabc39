----------------------------- MODULE HashConstants -----------------------------
(* The constants of package hash, pinned by tools/gen_consts.py from the base commit. *)
XConst ==
 <<<<3672, 5071, 1411, 7789, 2586, 5751, 1468, 5387, 5001, 801, 1776, 7949, 4118, 7917, 1298, 4974, 1666, 1986, 4680, 92>>,
   <<7454, 4812, 7527, 1152, 8090, 1871, 3896, 5499, 6230, 7362, 3558, 982, 5086, 4266, 4897, 2940, 777, 5798, 3409, 88>>,
   <<6924, 7835, 6061, 1217, 960, 7405, 1003, 16, 7494, 1445, 7466, 7545, 1774, 5351, 3688, 2599, 6465, 7464, 7700, 28>>,
   <<5084, 6179, 7875, 1897, 5669, 4885, 7624, 6020, 407, 7228, 1313, 2398, 2795, 203, 35, 1178, 7529, 5947, 2918, 59>>,
   <<5824, 1223, 2407, 5120, 6970, 4372, 1387, 7265, 887, 205, 7072, 3257, 6190, 567, 1214, 3939, 4365, 7312, 1112, 2>>,
   <<7827, 4610, 8119, 1557, 3978, 3118, 2490, 5711, 8138, 1638, 1974, 8051, 6247, 5557, 8126, 69, 3440, 363, 2680, 52>>,
   <<1372, 2018, 5105, 5702, 5461, 5650, 1175, 4930, 252, 5028, 1522, 1648, 5648, 5050, 6498, 2967, 3850, 315, 3913, 27>>,
   <<823, 2380, 8177, 641, 2771, 4699, 8095, 6950, 2722, 6871, 4960, 5776, 2378, 5498, 2524, 7169, 7695, 1488, 5791, 31>>,
   <<7613, 6465, 6466, 5165, 94, 3605, 7400, 7321, 3953, 2641, 4559, 7738, 2299, 838, 3342, 7609, 6151, 2125, 371, 16>>,
   <<7554, 948, 6584, 7188, 4886, 5644, 7605, 3495, 2306, 4261, 812, 2851, 480, 593, 7139, 2864, 1831, 6529, 5054, 48>>,
   <<640, 6068, 5412, 3764, 6370, 4192, 1114, 3630, 2124, 4219, 7366, 1014, 1398, 5639, 2244, 3527, 2361, 3937, 5038, 45>>,
   <<7597, 5541, 7137, 816, 4437, 4348, 3948, 4096, 6304, 2290, 1156, 6129, 5900, 3568, 3385, 3485, 699, 3942, 3716, 30>>,
   <<16, 1906, 3301, 1754, 8016, 7008, 6552, 237, 81, 5564, 7389, 428, 3619, 5076, 3344, 4923, 417, 7521, 1405, 78>>,
   <<7220, 6844, 1330, 6792, 3811, 7788, 7704, 3968, 115, 5215, 194, 2890, 3274, 6118, 4294, 1583, 5658, 2117, 6427, 18>>,
   <<4659, 3388, 3284, 7299, 1393, 120, 4380, 2144, 2178, 7736, 4112, 833, 4347, 1966, 4944, 7475, 388, 5662, 7578, 47>>,
   <<6462, 3130, 6772, 5493, 7168, 761, 5175, 79, 7765, 3088, 5902, 5682, 2944, 573, 8120, 2121, 7165, 2773, 2723, 3>>,
   <<2372, 1499, 1583, 1593, 3654, 1500, 5974, 2474, 6660, 1409, 7935, 4306, 6101, 4993, 7548, 142, 5186, 6946, 3826, 78>>,
   <<7914, 2339, 2100, 5512, 1888, 2300, 913, 1797, 1303, 849, 6822, 6477, 93, 1762, 7137, 1274, 7752, 4420, 4411, 66>>,
   <<42, 6207, 300, 6297, 4790, 5910, 3464, 8094, 40, 3158, 7780, 696, 7270, 3773, 5462, 5921, 5984, 426, 7928, 41>>,
   <<737, 7109, 3151, 5590, 3093, 4014, 3224, 5606, 5386, 4620, 4054, 3052, 6563, 6338, 5984, 3541, 4998, 9, 6785, 18>>,
   <<5584, 5687, 401, 1108, 4683, 6439, 6638, 604, 5054, 6740, 578, 3896, 2632, 3833, 7705, 4818, 5960, 2168, 4946, 22>>,
   <<6773, 7905, 3009, 3045, 6908, 1959, 7950, 1032, 1305, 4832, 2909, 4635, 1034, 537, 2953, 3980, 528, 7653, 712, 76>>,
   <<4759, 7802, 4336, 4304, 7697, 6140, 7326, 2214, 1905, 1502, 7808, 2441, 5462, 7925, 904, 2521, 8072, 4043, 5175, 51>>,
   <<1643, 489, 1588, 748, 4360, 4168, 3461, 3796, 4054, 6086, 4930, 1526, 1211, 3581, 276, 5367, 1577, 3924, 5945, 77>>,
   <<2503, 2452, 6836, 597, 7145, 7022, 4565, 3402, 2905, 3177, 6904, 4048, 2424, 7292, 6558, 4458, 2081, 7900, 4348, 73>>,
   <<1053, 580, 4877, 1876, 7085, 6367, 7049, 581, 2852, 3226, 1992, 1455, 5533, 5098, 7737, 5075, 7299, 6958, 688, 39>>,
   <<4223, 6174, 2612, 3253, 685, 382, 774, 7330, 6675, 2527, 6375, 3470, 4706, 7312, 1963, 3611, 1855, 4193, 5513, 7>>,
   <<5084, 3643, 6959, 173, 5308, 1628, 3393, 4589, 2669, 6107, 6549, 6657, 3658, 5005, 3615, 1470, 6159, 4315, 5725, 4>>,
   <<1570, 4823, 3927, 7196, 203, 3783, 7407, 4753, 3004, 799, 1147, 3919, 3964, 891, 1299, 3092, 7274, 3037, 3813, 44>>,
   <<6277, 4934, 4105, 3376, 80, 2443, 8017, 1716, 4570, 6679, 4962, 40, 275, 5021, 2477, 7931, 2760, 6892, 7132, 56>>,
   <<5399, 819, 3030, 6819, 2177, 3228, 4219, 464, 972, 1119, 132, 6437, 7016, 4921, 4776, 1482, 520, 7212, 6782, 45>>,
   <<2168, 7396, 4238, 7419, 3903, 2496, 6117, 5713, 6168, 2220, 7516, 5813, 7346, 1802, 1838, 7154, 2119, 2189, 7792, 14>>,
   <<1941, 3300, 932, 2011, 1858, 7561, 2030, 6745, 5088, 2315, 2186, 5751, 2978, 217, 5723, 6137, 5063, 18, 6884, 23>>,
   <<371, 1720, 2441, 3932, 5687, 3919, 3548, 6503, 3732, 6094, 5318, 4143, 900, 5878, 8051, 1970, 6064, 6975, 3114, 25>>,
   <<3861, 2559, 38, 6176, 8075, 2109, 8173, 7666, 5040, 6154, 1981, 2926, 810, 2098, 2005, 7894, 298, 7830, 8179, 91>>,
   <<5750, 7083, 2652, 7120, 1628, 2392, 5429, 617, 3428, 3616, 3329, 7266, 8140, 1995, 4979, 5041, 1169, 103, 5240, 8>>,
   <<6498, 154, 1665, 6319, 6598, 2330, 8066, 319, 4413, 1007, 4281, 5362, 8188, 7614, 597, 3016, 4613, 4611, 62, 28>>,
   <<7055, 1649, 2830, 5995, 6504, 1508, 1140, 6383, 4914, 3760, 7402, 2015, 1912, 7424, 603, 2169, 1385, 6112, 6846, 63>>,
   <<1239, 7913, 5033, 3040, 3397, 261, 6156, 7174, 6238, 1059, 5288, 3897, 6767, 213, 326, 3452, 1431, 986, 193, 34>>,
   <<6580, 3549, 108, 1625, 5276, 6594, 2518, 7381, 5692, 1680, 6789, 1228, 6322, 5359, 5455, 4196, 3751, 6943, 6133, 86>>,
   <<7734, 4921, 2203, 4184, 5139, 6027, 3210, 745, 5114, 1953, 4611, 5752, 5443, 6717, 2773, 2934, 1927, 4296, 7683, 8>>,
   <<1591, 4399, 2384, 2032, 26, 5380, 3108, 6861, 6759, 6278, 1325, 1582, 2159, 51, 1066, 5637, 2383, 8051, 2805, 39>>,
   <<3757, 3115, 3185, 8170, 1885, 7750, 3105, 488, 5218, 6781, 7129, 5938, 6304, 3701, 7502, 2628, 3152, 7789, 6944, 11>>,
   <<6984, 1569, 3369, 7479, 2609, 1891, 4297, 8096, 4364, 5396, 1703, 5649, 518, 2284, 3223, 1528, 843, 3955, 71, 89>>,
   <<6412, 7770, 3022, 5113, 6201, 1728, 2071, 6786, 5389, 1951, 3731, 1049, 2653, 176, 6449, 7976, 5224, 3475, 1109, 60>>,
   <<3846, 4927, 3573, 887, 4791, 5394, 423, 2484, 1270, 739, 6751, 1446, 132, 938, 5381, 2372, 1810, 5536, 4222, 18>>,
   <<7954, 1277, 5597, 5526, 5052, 3370, 3949, 2781, 2568, 1297, 8079, 5511, 2388, 2538, 3588, 8183, 2694, 1203, 103, 76>>,
   <<5982, 4676, 7097, 33, 2263, 4299, 7942, 951, 165, 3175, 1342, 3520, 920, 1071, 2567, 820, 2390, 5407, 6207, 34>>,
   <<5040, 3629, 6501, 636, 2224, 2130, 4991, 394, 3454, 1603, 3962, 3905, 3877, 6932, 384, 6135, 5834, 7060, 1355, 1>>,
   <<7133, 184, 1344, 6121, 5227, 5290, 4202, 7450, 5789, 4657, 2140, 5588, 589, 1923, 7379, 682, 6251, 1304, 2287, 57>>,
   <<7576, 7332, 2530, 7587, 3197, 4777, 6117, 3093, 1285, 7245, 2600, 1499, 7803, 1581, 5201, 2767, 6690, 5905, 8061, 46>>,
   <<2011, 7034, 1839, 5236, 1613, 6963, 2304, 491, 930, 3219, 6732, 3899, 6178, 3595, 4251, 5473, 4729, 4211, 4283, 71>>,
   <<7694, 452, 372, 5055, 592, 4704, 62, 5243, 4064, 4183, 7336, 7536, 6878, 6690, 7846, 304, 6845, 850, 332, 35>>,
   <<1835, 1831, 3177, 4923, 8074, 672, 5845, 162, 1637, 5677, 3624, 6170, 4710, 7642, 2690, 3589, 541, 1029, 1658, 65>>,
   <<226, 4284, 3389, 115, 5213, 5623, 7382, 2142, 4148, 5643, 4581, 6517, 386, 2670, 6350, 1906, 6869, 1110, 8138, 22>>,
   <<5665, 7893, 5689, 4094, 413, 1416, 5665, 3505, 5359, 3159, 4210, 31, 1582, 4261, 6194, 5795, 1510, 5565, 5228, 65>>,
   <<4905, 1269, 2151, 7866, 3676, 4872, 1627, 6050, 5409, 4045, 835, 138, 2092, 7502, 5799, 7230, 6009, 6445, 6957, 80>>,
   <<735, 6205, 4395, 7367, 5884, 5262, 6538, 7649, 4153, 4750, 5106, 3491, 907, 970, 7300, 1108, 2165, 695, 5309, 14>>,
   <<7958, 6324, 5810, 1885, 7091, 999, 6049, 4898, 963, 636, 5288, 2075, 240, 6614, 5021, 7847, 5372, 5920, 6761, 50>>,
   <<5328, 1772, 2000, 7727, 4108, 5332, 6951, 3542, 3804, 5267, 518, 8060, 5115, 770, 185, 7029, 3478, 5381, 7720, 71>>,
   <<7219, 45, 1055, 1671, 4017, 6080, 900, 3464, 7065, 5868, 7114, 3045, 4119, 3839, 759, 1309, 8083, 5160, 3126, 38>>,
   <<1974, 61, 515, 7448, 1459, 4850, 4777, 3251, 2131, 396, 4817, 3570, 7410, 5532, 4547, 729, 3271, 5726, 1280, 40>>,
   <<2908, 3462, 4451, 7939, 996, 5331, 193, 2380, 4109, 6912, 3305, 4648, 4942, 2056, 60, 3579, 172, 6827, 3656, 48>>,
   <<1914, 6677, 4355, 540, 4107, 612, 4611, 7316, 2885, 3346, 414, 5559, 1824, 5761, 379, 7191, 2311, 6605, 1002, 59>>,
   <<1070, 1350, 5049, 2301, 5756, 7508, 5636, 4545, 771, 4723, 365, 3272, 5675, 3371, 4830, 5725, 1399, 526, 3327, 59>>,
   <<7424, 7799, 4053, 3364, 5668, 2194, 3089, 6178, 3920, 84, 1913, 5004, 6635, 6878, 1976, 5042, 7794, 1503, 2521, 81>>,
   <<2090, 2985, 2094, 6084, 4719, 530, 2652, 7255, 4908, 4693, 6373, 5099, 3757, 2142, 5528, 7910, 4950, 2244, 2722, 21>>,
   <<2113, 6606, 7122, 9, 2085, 4458, 6737, 2632, 5930, 7934, 420, 7677, 3217, 624, 2592, 5470, 2915, 8108, 4710, 73>>,
   <<288, 4330, 5515, 7407, 2445, 1087, 2696, 6122, 2599, 93, 674, 7457, 3822, 5884, 7981, 5529, 6997, 7351, 7237, 42>>,
   <<3358, 5594, 3389, 3645, 3367, 3935, 6330, 333, 4078, 5503, 4403, 5049, 5715, 7570, 2934, 512, 2008, 3623, 6691, 0>>,
   <<3132, 1649, 3205, 2918, 598, 813, 574, 3810, 2800, 148, 1794, 5125, 5722, 686, 5813, 7289, 7042, 3102, 7112, 24>>,
   <<3525, 7974, 8170, 7052, 5635, 4098, 6794, 2501, 622, 1737, 2328, 7168, 5686, 5528, 3268, 5525, 1430, 1635, 7741, 32>>,
   <<2570, 2626, 4101, 5100, 5564, 5469, 24, 473, 2072, 757, 5096, 6418, 3023, 1789, 1301, 3042, 3679, 2030, 6153, 23>>,
   <<3960, 6814, 2459, 2747, 6985, 264, 2430, 3290, 109, 2732, 3729, 7964, 6526, 7514, 3480, 2187, 4582, 527, 3103, 70>>,
   <<6899, 2771, 869, 2796, 2758, 1232, 6295, 475, 7363, 9, 1733, 5839, 3531, 4098, 767, 5868, 3237, 7438, 4207, 77>>,
   <<4553, 951, 6806, 4606, 7933, 6038, 2127, 6866, 5418, 3469, 6863, 7536, 4409, 3889, 2973, 5618, 6634, 7624, 6901, 13>>,
   <<7240, 7697, 1123, 7347, 1685, 491, 4743, 6323, 716, 3370, 5037, 5199, 6181, 439, 4695, 251, 1544, 3287, 4262, 95>>,
   <<1293, 1470, 4497, 2427, 6693, 5687, 6860, 1838, 1636, 2583, 7091, 5005, 4940, 23, 6576, 2829, 8136, 2199, 3005, 80>>,
   <<1663, 33, 1175, 5978, 7177, 6881, 5883, 3276, 5422, 6745, 2271, 7315, 1948, 5170, 3907, 7945, 6387, 190, 6075, 51>>,
   <<3445, 3390, 5828, 6221, 5775, 7126, 8154, 227, 3671, 986, 6075, 5059, 3419, 4884, 6227, 5456, 689, 6882, 2078, 54>>,
   <<551, 8091, 5319, 1615, 6790, 6677, 2186, 2032, 5996, 7474, 3145, 6575, 7129, 5862, 5052, 6288, 2272, 706, 5025, 10>>,
   <<5728, 2747, 2863, 5226, 8098, 5106, 3162, 3369, 184, 157, 696, 3472, 1267, 3292, 2278, 6474, 7855, 2128, 1298, 16>>,
   <<5432, 5292, 269, 2604, 5400, 4348, 72, 7950, 1311, 7393, 2075, 6708, 4546, 2920, 6036, 299, 78, 6194, 1711, 76>>,
   <<1419, 1802, 3864, 4701, 6452, 425, 6719, 3212, 818, 7625, 7941, 5596, 4943, 4133, 5102, 1750, 4219, 5358, 5527, 90>>,
   <<6542, 1900, 619, 3693, 2631, 4408, 6988, 3409, 1515, 1258, 3539, 7115, 2238, 6540, 4131, 4303, 2885, 1534, 5202, 76>>,
   <<5059, 4833, 2018, 3917, 3950, 1279, 4734, 499, 1234, 1618, 457, 2592, 1512, 6431, 4951, 1131, 7920, 1616, 705, 30>>,
   <<4483, 5550, 2000, 3048, 2133, 3957, 5180, 5957, 7277, 1277, 7014, 4200, 1612, 2627, 1297, 691, 1059, 3317, 2025, 10>>,
   <<2024, 2838, 2991, 3724, 1036, 2554, 3397, 6627, 4084, 778, 8010, 5694, 4032, 7153, 4276, 6416, 1521, 7623, 8117, 79>>,
   <<8144, 4702, 5329, 6754, 6451, 2545, 1837, 4940, 4723, 3385, 3171, 7074, 7772, 154, 5784, 284, 8094, 5773, 5033, 44>>,
   <<7060, 3656, 5350, 1871, 2174, 6032, 5789, 273, 3422, 8149, 3526, 7754, 4372, 5558, 6375, 4041, 2855, 8025, 1408, 6>>,
   <<586, 279, 5789, 1600, 898, 6249, 7486, 3765, 6490, 2129, 2072, 4308, 5999, 7813, 3970, 2939, 4667, 3523, 3341, 47>>,
   <<1611, 7949, 5849, 1504, 5854, 7994, 1002, 4169, 6273, 475, 5440, 1262, 1959, 7448, 481, 5931, 7499, 1555, 7886, 36>>,
   <<1567, 2924, 1069, 6880, 6310, 4891, 1181, 89, 1407, 3783, 5041, 164, 5296, 5299, 363, 1988, 207, 3853, 2811, 52>>,
   <<2838, 5762, 7622, 186, 3394, 2514, 5594, 2527, 6302, 6045, 779, 6856, 3319, 4184, 2717, 3022, 3682, 7889, 5414, 67>>,
   <<1793, 5683, 754, 7421, 6017, 6436, 7676, 7035, 5879, 6320, 901, 4973, 6349, 1494, 6048, 7831, 4448, 3595, 390, 27>>,
   <<3708, 2985, 5121, 5611, 4447, 512, 3171, 3893, 3971, 3890, 2347, 2112, 3437, 4751, 1499, 2966, 103, 1418, 3017, 39>>,
   <<2659, 6178, 1847, 6865, 4756, 7166, 4456, 7365, 4173, 3206, 4718, 7832, 3855, 3320, 7716, 400, 6114, 6499, 8021, 60>>,
   <<5742, 6836, 286, 5780, 8034, 6172, 820, 2653, 3082, 3273, 7550, 3032, 8143, 5678, 5646, 6764, 5629, 4261, 7804, 39>>,
   <<1912, 7565, 6816, 1785, 8134, 84, 3900, 288, 1464, 3643, 2148, 6795, 35, 6502, 4935, 7010, 5495, 5813, 2219, 38>>,
   <<1717, 2376, 6763, 6275, 826, 3063, 7560, 8188, 137, 1898, 4443, 5600, 6534, 85, 1678, 7896, 8145, 7262, 8151, 75>>>>
YConst ==
 <<<<2419, 5749, 4044, 2699, 6657, 4870, 3958, 2982, 341, 1300, 7442, 1977, 1292, 3829, 7779, 882, 2653, 8110, 7240, 34>>,
   <<2980, 4926, 796, 5714, 4709, 4738, 3379, 1159, 1964, 7582, 7617, 3552, 1155, 6701, 415, 303, 6925, 1490, 1336, 18>>,
   <<2950, 1658, 7720, 2787, 2759, 6048, 1766, 3618, 3476, 1536, 5382, 7877, 7657, 1707, 3795, 663, 8191, 7287, 1518, 13>>,
   <<6409, 5939, 1182, 3978, 1595, 1861, 8174, 7860, 8050, 3881, 1273, 6027, 6074, 7991, 994, 603, 5467, 4570, 6466, 28>>,
   <<1149, 2487, 8165, 7406, 1296, 608, 4942, 5705, 6650, 925, 6297, 6011, 7458, 1503, 3439, 2375, 6075, 4135, 5617, 37>>,
   <<7210, 3304, 4939, 2503, 2330, 2143, 1957, 6850, 4432, 5640, 248, 3150, 1240, 5595, 92, 3219, 58, 3909, 5446, 49>>,
   <<7745, 4328, 1057, 4198, 4882, 47, 7724, 6567, 681, 2400, 6893, 7509, 3957, 1399, 6012, 6243, 326, 2451, 2752, 93>>,
   <<7811, 7638, 3050, 1998, 6377, 392, 5224, 296, 1776, 2356, 1697, 4334, 7539, 5919, 1117, 4217, 4587, 4792, 2226, 46>>,
   <<4538, 3200, 2665, 7210, 4669, 2493, 3497, 5297, 949, 6503, 3557, 692, 6863, 5234, 1857, 4199, 1870, 4860, 2115, 42>>,
   <<3670, 2898, 4111, 1087, 2927, 6722, 7641, 7747, 1374, 1983, 4471, 4452, 4558, 3024, 3348, 670, 7105, 7260, 4005, 5>>,
   <<875, 3578, 4433, 2397, 3171, 3863, 3585, 3296, 442, 1530, 3128, 7556, 1420, 4192, 2770, 5152, 2390, 5622, 147, 75>>,
   <<4084, 2741, 7360, 4703, 3082, 7069, 7288, 4778, 6487, 5672, 1190, 4895, 5319, 1656, 2679, 1523, 7542, 2986, 2178, 62>>,
   <<7435, 3089, 1161, 1865, 1221, 2473, 6882, 1975, 2539, 4103, 3306, 4629, 5176, 7678, 7016, 4507, 2871, 2623, 4082, 69>>,
   <<2973, 3930, 5848, 1839, 2379, 5924, 6638, 5198, 5308, 2751, 700, 1615, 4094, 950, 1088, 1038, 326, 2010, 1748, 82>>,
   <<4245, 1780, 7011, 6949, 7953, 2900, 6575, 3801, 5510, 6900, 4826, 4773, 7450, 687, 973, 6905, 1783, 2575, 1809, 5>>,
   <<2786, 6642, 6282, 4355, 343, 2362, 6822, 2779, 5486, 1027, 165, 1004, 3555, 5630, 2441, 7501, 3483, 7998, 7347, 24>>,
   <<6272, 1652, 5222, 3958, 1836, 1592, 3159, 6589, 1110, 4958, 6836, 3422, 6446, 7804, 4976, 8007, 5580, 5790, 4194, 93>>,
   <<5997, 6538, 3311, 3690, 5502, 3288, 2806, 1351, 2072, 3499, 2774, 7600, 5453, 1199, 4843, 3194, 5044, 66, 5455, 70>>,
   <<3977, 3401, 7097, 3752, 2697, 6633, 8003, 6746, 3535, 7392, 7101, 2355, 1644, 7501, 5356, 7818, 1752, 3326, 4245, 31>>,
   <<2200, 3784, 1769, 2191, 3874, 3271, 1389, 2008, 7376, 762, 6755, 2724, 7781, 5736, 1367, 958, 4621, 4020, 4422, 28>>,
   <<4622, 2809, 7987, 5323, 3597, 2303, 3836, 2978, 7815, 7469, 7006, 1476, 3478, 6835, 2436, 6095, 5948, 865, 3475, 81>>,
   <<4179, 863, 7218, 3297, 7095, 6567, 2756, 4962, 3973, 5065, 7220, 6813, 249, 3674, 1144, 2279, 4641, 7783, 4089, 18>>,
   <<1095, 3876, 5550, 5916, 3040, 510, 2681, 2446, 5622, 5262, 4826, 5803, 5302, 3527, 3978, 1800, 4014, 7239, 1984, 2>>,
   <<2373, 7328, 2713, 4378, 5270, 1870, 8133, 7033, 2399, 4988, 7010, 251, 1239, 482, 6626, 968, 4138, 650, 2161, 21>>,
   <<7390, 5166, 6297, 6041, 5824, 4528, 2133, 2514, 3989, 1020, 7127, 1374, 6877, 1453, 3297, 3541, 1812, 126, 5223, 2>>,
   <<7630, 6983, 2297, 7033, 2479, 3317, 316, 7121, 2773, 4215, 4849, 2155, 8157, 8025, 117, 5306, 6175, 6160, 2977, 8>>,
   <<6149, 6865, 3208, 296, 3678, 4975, 5464, 1350, 8070, 7591, 8071, 5343, 1679, 4942, 364, 3894, 3568, 4469, 7799, 54>>,
   <<2557, 3392, 612, 6445, 8124, 2021, 4608, 2619, 1240, 6980, 1178, 944, 2211, 3052, 4434, 304, 4555, 979, 3115, 55>>,
   <<695, 5133, 5210, 3368, 385, 4700, 7855, 987, 892, 5525, 818, 1206, 4731, 3679, 6691, 4092, 7624, 1236, 5076, 45>>,
   <<7336, 1767, 4747, 4117, 4311, 6496, 1290, 7263, 2838, 2202, 3332, 7857, 289, 8012, 3339, 4661, 7256, 4208, 8101, 6>>,
   <<5527, 918, 6806, 1243, 567, 1263, 2607, 4533, 5498, 936, 8005, 3364, 3158, 1213, 3294, 6664, 155, 3259, 5232, 30>>,
   <<1809, 3765, 3904, 3021, 7821, 3301, 4313, 503, 4373, 2801, 7178, 3775, 7256, 5022, 7121, 7628, 3682, 18, 8055, 44>>,
   <<5979, 5696, 3471, 6214, 6990, 5042, 2810, 6661, 5118, 7355, 2357, 1906, 1816, 5968, 7477, 7599, 2490, 3964, 4409, 41>>,
   <<4105, 3982, 4575, 7980, 7091, 4083, 2141, 1110, 96, 5783, 602, 4505, 2107, 111, 4907, 5860, 6354, 4295, 663, 58>>,
   <<8, 6663, 0, 3826, 1736, 7257, 4135, 8071, 6644, 4469, 4579, 1730, 2805, 2884, 1560, 8085, 4724, 7548, 4554, 55>>,
   <<6126, 4260, 4857, 5116, 4901, 2169, 34, 7087, 5888, 4614, 1996, 2685, 1528, 1327, 5031, 6019, 1706, 2139, 708, 6>>,
   <<3960, 7685, 5453, 3578, 811, 4747, 7517, 6821, 2989, 612, 4660, 6578, 5319, 2631, 1085, 7183, 1112, 2592, 6851, 36>>,
   <<7277, 868, 3744, 6531, 721, 2995, 2951, 5523, 731, 996, 5808, 2368, 307, 6696, 4405, 7465, 1522, 6038, 3898, 38>>,
   <<5188, 2233, 2362, 746, 3486, 5335, 2621, 5294, 7230, 1952, 2509, 5165, 2628, 1335, 1226, 3406, 3354, 2633, 7215, 70>>,
   <<3545, 7887, 5790, 7533, 3693, 7495, 4841, 1206, 74, 3980, 2588, 1064, 4525, 1594, 3193, 5634, 4358, 1263, 1720, 75>>,
   <<4036, 5910, 7579, 7575, 1754, 6338, 5862, 3747, 2082, 5234, 4521, 4190, 5013, 7010, 2130, 6587, 6223, 7214, 3496, 61>>,
   <<5944, 2521, 1733, 6268, 7213, 7764, 362, 3842, 499, 4498, 4771, 1876, 7141, 2060, 2477, 1626, 3387, 2494, 8093, 72>>,
   <<1389, 273, 4640, 7642, 4, 4910, 1196, 261, 4915, 6432, 7832, 1626, 8130, 4298, 3468, 4496, 8095, 2798, 4035, 9>>,
   <<5762, 7489, 2822, 888, 4007, 365, 6924, 6195, 115, 2549, 78, 4497, 5205, 2503, 3587, 3682, 6637, 6771, 4765, 17>>,
   <<1378, 1530, 4702, 6498, 2659, 5704, 1194, 5235, 1085, 4314, 632, 6, 6382, 440, 7043, 169, 4544, 3338, 7561, 71>>,
   <<4941, 5450, 3337, 6101, 6746, 7414, 4971, 7737, 1597, 75, 808, 7060, 3293, 5074, 8091, 3269, 6412, 7906, 2279, 64>>,
   <<2604, 2498, 6272, 5887, 5464, 5765, 5268, 366, 5214, 151, 1858, 4279, 795, 6824, 1667, 5746, 1926, 229, 1377, 80>>,
   <<3036, 1124, 946, 7816, 5819, 440, 7126, 2534, 3067, 3222, 728, 6306, 6046, 2921, 5165, 1767, 6830, 3119, 3267, 63>>,
   <<2449, 3692, 6246, 6, 5873, 2257, 3955, 2514, 4881, 3930, 7358, 19, 1516, 6170, 3879, 2261, 3841, 877, 7164, 86>>,
   <<1925, 2862, 793, 5032, 7684, 2444, 2423, 6022, 2548, 6306, 4442, 3742, 6141, 2476, 2249, 5137, 182, 3888, 5895, 89>>,
   <<2757, 1248, 4707, 3904, 6526, 2342, 3047, 3253, 6643, 6611, 5919, 6403, 8159, 2164, 8127, 1281, 7229, 3629, 2913, 32>>,
   <<7804, 8167, 7582, 6922, 2422, 2941, 6936, 812, 2803, 4353, 4178, 4434, 3811, 1493, 1480, 2081, 7042, 2644, 6816, 40>>,
   <<3695, 7992, 7551, 172, 2514, 4821, 2307, 7745, 1527, 2918, 6118, 2228, 1291, 5647, 3530, 5990, 3729, 4931, 2469, 22>>,
   <<3092, 7315, 1342, 3912, 903, 7771, 4169, 328, 7789, 4746, 5693, 7120, 6493, 5021, 4294, 1686, 6076, 6746, 4303, 62>>,
   <<6332, 2758, 3867, 6753, 7038, 3713, 1752, 6570, 4263, 1574, 7262, 282, 37, 187, 361, 2358, 6672, 6484, 431, 9>>,
   <<1018, 4147, 3739, 3161, 3831, 2839, 3243, 7345, 4921, 1522, 4475, 5247, 5205, 2130, 3833, 6332, 3862, 6441, 5813, 25>>,
   <<6709, 4463, 3549, 1076, 6652, 4868, 4015, 2539, 7659, 5997, 6189, 3557, 1227, 6842, 5148, 7196, 7402, 3340, 319, 28>>,
   <<4307, 4828, 2458, 2964, 1585, 688, 5474, 7796, 1395, 4436, 278, 7818, 2598, 2716, 2773, 941, 4308, 3952, 5922, 41>>,
   <<672, 625, 6899, 3334, 6704, 3406, 7941, 6603, 681, 6008, 4926, 7100, 5489, 2018, 5809, 5590, 2583, 2736, 1594, 59>>,
   <<3007, 4776, 4665, 6135, 2824, 679, 4030, 5985, 2765, 3661, 7562, 2794, 903, 22, 2666, 4505, 3737, 5889, 8037, 65>>,
   <<467, 5695, 5725, 3746, 3054, 4720, 2346, 3929, 2986, 83, 1122, 6649, 3783, 5408, 6846, 4469, 5707, 748, 3960, 23>>,
   <<1851, 1773, 55, 762, 5692, 3081, 4778, 5429, 1383, 7091, 7391, 7973, 8159, 4071, 5684, 5975, 1170, 7067, 6249, 3>>,
   <<3230, 4917, 3880, 2121, 5107, 6776, 4160, 7396, 346, 764, 6261, 6937, 3970, 2738, 1299, 6099, 4116, 7594, 6799, 73>>,
   <<6905, 7536, 3897, 2576, 1440, 1250, 43, 7217, 1863, 7237, 1946, 3073, 3846, 7733, 2662, 2943, 5109, 6720, 3622, 60>>,
   <<1927, 6378, 4276, 3970, 6539, 1898, 555, 8138, 7898, 5598, 7584, 5804, 3615, 1563, 5022, 1851, 5773, 5654, 2149, 49>>,
   <<2892, 2326, 1348, 3831, 6203, 4688, 3442, 1754, 2145, 2969, 7979, 5913, 2325, 1501, 4005, 7241, 4975, 489, 412, 93>>,
   <<1743, 5093, 192, 8167, 1691, 7116, 531, 2159, 2711, 5977, 409, 5027, 4905, 8169, 2442, 4028, 4959, 4691, 7808, 29>>,
   <<5437, 3977, 3118, 2580, 5968, 6733, 5849, 8007, 4339, 4438, 152, 4204, 2325, 3509, 1679, 357, 3287, 5129, 2706, 6>>,
   <<2382, 7557, 3212, 703, 6390, 3284, 5219, 4711, 5024, 0, 5511, 822, 354, 619, 750, 349, 1056, 7752, 6259, 20>>,
   <<7457, 2053, 321, 1038, 580, 623, 4350, 2839, 1827, 2823, 2793, 4769, 4697, 5876, 4546, 1753, 4302, 6765, 7492, 49>>,
   <<7500, 7867, 2356, 2008, 1381, 7744, 7826, 7384, 2246, 494, 7861, 431, 5459, 7422, 4423, 6864, 1559, 6086, 2482, 29>>,
   <<7614, 6406, 7148, 795, 2288, 3155, 7897, 4913, 3076, 7715, 5296, 3794, 5775, 7532, 475, 2587, 4259, 981, 5452, 28>>,
   <<4638, 700, 827, 3271, 7488, 1984, 413, 6203, 6218, 5447, 2712, 4062, 5777, 7145, 4250, 2453, 8150, 6859, 5294, 48>>,
   <<2587, 295, 4643, 6021, 7656, 5231, 6002, 5506, 6985, 2525, 2970, 3374, 3473, 8162, 5431, 646, 6204, 6804, 7493, 18>>,
   <<2913, 7780, 6922, 480, 2650, 1114, 6668, 3532, 486, 7721, 3930, 1201, 6131, 3419, 6105, 8011, 2498, 6794, 7590, 41>>,
   <<7467, 2396, 5127, 6314, 6273, 8136, 5139, 462, 1615, 3303, 7169, 2504, 3050, 6434, 5801, 3921, 2352, 7068, 2535, 88>>,
   <<3831, 5316, 6303, 176, 4681, 7569, 5999, 4013, 3422, 2593, 1315, 4178, 7566, 7230, 2655, 3777, 7258, 8053, 171, 27>>,
   <<3938, 2776, 2213, 6856, 2306, 1335, 7475, 6180, 709, 3769, 4129, 399, 7407, 4391, 8154, 1021, 6901, 4181, 1124, 45>>,
   <<5857, 7331, 3444, 1889, 4680, 6262, 3369, 6099, 1509, 4374, 7716, 2558, 3223, 6218, 4192, 5683, 7695, 2707, 5355, 85>>,
   <<6802, 1220, 8091, 7014, 996, 7804, 5475, 3940, 4166, 2338, 7286, 51, 5007, 2938, 4623, 5970, 7831, 4483, 5986, 92>>,
   <<6077, 6345, 7685, 8121, 2303, 6700, 3377, 2873, 4956, 6982, 6101, 1715, 7044, 1960, 3344, 879, 3768, 5349, 4611, 96>>,
   <<5132, 5417, 6255, 1504, 4428, 3020, 229, 1708, 7673, 6957, 8065, 2571, 3846, 2309, 85, 7496, 7579, 4989, 6224, 4>>,
   <<3528, 8089, 1335, 8057, 8020, 930, 4374, 3136, 3324, 6238, 5902, 797, 6694, 3834, 1861, 2103, 379, 1448, 7697, 26>>,
   <<38, 2682, 3814, 4870, 3719, 2474, 2014, 4393, 5803, 4437, 6599, 5145, 3386, 2314, 7986, 1767, 1753, 4958, 2812, 80>>,
   <<3757, 5585, 985, 3955, 2352, 7972, 1285, 2270, 6433, 7396, 3054, 6788, 6832, 1585, 7857, 6278, 5122, 7898, 4450, 53>>,
   <<1130, 8045, 2336, 6468, 7975, 6983, 3815, 5073, 2664, 1062, 2226, 7089, 6381, 1066, 6325, 8089, 5200, 2093, 2057, 11>>,
   <<4194, 2224, 729, 2178, 1564, 1231, 6980, 5175, 7200, 7644, 5355, 1139, 2868, 1735, 106, 4640, 5235, 6957, 4679, 68>>,
   <<352, 4556, 1128, 7758, 481, 4488, 4658, 1927, 5111, 2240, 4543, 8107, 5601, 6008, 7351, 681, 3159, 1500, 3923, 41>>,
   <<6826, 6058, 7301, 7914, 8094, 4539, 1151, 2724, 8132, 4950, 5068, 2564, 4485, 1040, 2466, 5878, 6588, 2378, 158, 18>>,
   <<5842, 5097, 4648, 3430, 5023, 4590, 1545, 5261, 2036, 4140, 7786, 6722, 6131, 1542, 2169, 7280, 5179, 4578, 4985, 91>>,
   <<2955, 1424, 429, 1231, 1593, 6917, 4768, 6656, 67, 3109, 4936, 3912, 2695, 6931, 5593, 4359, 659, 6125, 2408, 21>>,
   <<4772, 4121, 4136, 1426, 521, 5651, 7782, 6098, 6025, 2171, 4096, 5010, 4906, 675, 8187, 4375, 1, 3140, 531, 45>>,
   <<5165, 6137, 5964, 341, 7623, 17, 5411, 6304, 982, 4125, 5227, 1112, 3421, 2488, 2362, 5065, 7883, 45, 1609, 56>>,
   <<3443, 7878, 3908, 2380, 7556, 627, 6425, 5133, 1428, 2713, 1939, 3297, 5504, 5398, 8029, 4199, 469, 4882, 6517, 51>>,
   <<1573, 4302, 3621, 1931, 1572, 7059, 1637, 5625, 3240, 6264, 6577, 2015, 162, 447, 7067, 1517, 2300, 5920, 1783, 66>>,
   <<1086, 1465, 4258, 2854, 4534, 1279, 805, 613, 2376, 7038, 2258, 537, 302, 796, 6663, 2649, 7540, 6031, 31, 19>>,
   <<713, 2784, 3941, 7920, 1887, 7439, 6679, 7594, 1032, 2694, 7944, 4289, 3499, 1491, 577, 4315, 7504, 5253, 4061, 72>>,
   <<2677, 7581, 729, 4514, 1955, 579, 6513, 6900, 1553, 6419, 1219, 7001, 2863, 7991, 4782, 5574, 1801, 1224, 2500, 57>>,
   <<3794, 5953, 1521, 3169, 3550, 4115, 3699, 7833, 6736, 6512, 3683, 1028, 4297, 4282, 7508, 5055, 1579, 3171, 7551, 46>>,
   <<3805, 4493, 4630, 5743, 2804, 897, 943, 1963, 2622, 4997, 6159, 4251, 2574, 2012, 113, 6022, 2315, 4384, 1631, 87>>>>
ArkConst ==
 <<<<5811, 5723, 1964, 4921, 2429, 4116, 4698, 2354, 4291, 3204, 5358, 1230, 3422, 203, 3684, 857, 1195, 546, 5426, 53>>,
   <<3299, 7895, 7844, 4114, 3882, 8061, 1182, 285, 4251, 2650, 5452, 4773, 3016, 3076, 3241, 1721, 5819, 4895, 5071, 8>>,
   <<2488, 6184, 1142, 1269, 3776, 1663, 267, 6740, 3744, 3236, 4008, 4616, 7796, 7011, 6253, 5136, 7212, 4637, 739, 87>>,
   <<5672, 2840, 1928, 7933, 1853, 8074, 1532, 4874, 3873, 2141, 6196, 2489, 1071, 3942, 5380, 4797, 1954, 5156, 3184, 21>>,
   <<4037, 3388, 7082, 7673, 2292, 6322, 1933, 7514, 1158, 353, 3381, 931, 77, 2495, 1811, 797, 223, 3487, 887, 91>>,
   <<5434, 6118, 8051, 769, 2587, 333, 6187, 2091, 6166, 6636, 1371, 2532, 1783, 2846, 3144, 4572, 1385, 3063, 1640, 14>>,
   <<561, 6173, 3622, 4931, 4627, 6971, 3603, 3766, 5505, 2927, 6772, 7671, 7430, 473, 3200, 4355, 5737, 6411, 7041, 89>>,
   <<4592, 1495, 5295, 15, 6937, 6006, 3898, 36, 6349, 1695, 7729, 7184, 6378, 1595, 1650, 1981, 3734, 2355, 706, 35>>,
   <<706, 5346, 1109, 6693, 5897, 5180, 416, 8011, 6660, 3385, 6919, 7922, 584, 2401, 3699, 3890, 6155, 1443, 934, 4>>,
   <<7800, 809, 8118, 2084, 2384, 2423, 3134, 6935, 5001, 5014, 690, 2432, 653, 174, 2905, 3901, 4516, 6006, 4201, 58>>,
   <<5285, 6880, 614, 4063, 691, 115, 683, 7186, 3451, 4208, 3577, 324, 6389, 6395, 8041, 3900, 7475, 2018, 880, 93>>,
   <<4467, 6819, 337, 5578, 968, 4375, 6590, 2025, 5974, 3190, 5644, 2960, 4631, 1754, 1790, 2234, 2615, 4957, 5317, 33>>,
   <<6182, 7772, 4418, 921, 2983, 4049, 5709, 7131, 1229, 5302, 3142, 4298, 3260, 6646, 2145, 996, 3070, 7831, 5856, 12>>,
   <<6578, 7460, 7737, 4555, 2596, 6296, 6022, 17, 4735, 3480, 5511, 4732, 7386, 1332, 3938, 981, 4270, 4051, 2003, 7>>,
   <<7153, 5761, 273, 2798, 962, 6987, 8148, 7866, 7586, 3326, 2692, 469, 609, 5817, 1485, 6011, 2596, 2030, 1497, 68>>,
   <<2789, 4612, 6406, 3859, 4441, 2478, 2900, 4221, 6693, 5634, 7918, 7717, 1790, 1338, 939, 6439, 5198, 3348, 5806, 27>>,
   <<2047, 2503, 8102, 2986, 3, 5847, 820, 5695, 7279, 4308, 4206, 7047, 6144, 4241, 3065, 988, 5996, 723, 659, 62>>,
   <<3910, 5530, 6572, 5860, 4587, 3327, 879, 2397, 538, 2834, 3018, 5273, 2771, 617, 4297, 4628, 5728, 4577, 2965, 77>>,
   <<5278, 6314, 4004, 2287, 3983, 4263, 4992, 5894, 4152, 5963, 7777, 2358, 2877, 1189, 4261, 1300, 5542, 7156, 4791, 24>>,
   <<8167, 7885, 5805, 7298, 8126, 1333, 8004, 4230, 4824, 6005, 5587, 3537, 1803, 5638, 6339, 360, 4246, 7607, 37, 3>>,
   <<4631, 896, 5490, 5513, 6862, 35, 4995, 6791, 2068, 1361, 6925, 3741, 6854, 7725, 5563, 7011, 8184, 2651, 6916, 91>>,
   <<6420, 6241, 748, 2725, 7485, 3145, 7278, 3741, 5686, 422, 6162, 908, 2221, 6008, 6165, 6383, 610, 3622, 568, 40>>,
   <<4169, 2817, 7334, 624, 7826, 6727, 3813, 4709, 1485, 724, 6988, 2162, 798, 4619, 5486, 5009, 1732, 5997, 1113, 29>>,
   <<2827, 4900, 5959, 2502, 4682, 3996, 6485, 1520, 4638, 7359, 1588, 5799, 4057, 2698, 1897, 525, 6044, 7903, 5113, 15>>,
   <<6275, 7651, 5155, 7946, 918, 2417, 7629, 4019, 4441, 679, 3118, 354, 1863, 2420, 744, 614, 6291, 7412, 6852, 24>>,
   <<3308, 3031, 7346, 3570, 1729, 6357, 4570, 5437, 2130, 2324, 3325, 8140, 7753, 4784, 351, 8022, 6116, 3121, 4982, 84>>,
   <<7845, 7667, 1079, 7534, 164, 7193, 5167, 4865, 5065, 1878, 2725, 5065, 1199, 3408, 6187, 2426, 651, 5250, 5724, 19>>,
   <<10, 2654, 7676, 3170, 4503, 1552, 4224, 6870, 6243, 3741, 3213, 48, 140, 1717, 4428, 1128, 1644, 6533, 5933, 47>>,
   <<5472, 393, 1325, 4459, 7029, 6467, 5501, 1761, 691, 697, 4289, 3341, 3295, 3430, 7934, 2833, 8060, 4959, 4728, 66>>,
   <<839, 6664, 7781, 5169, 3418, 7036, 1083, 5920, 6364, 7013, 916, 1514, 4586, 3351, 6540, 4796, 1290, 4624, 1593, 82>>,
   <<3907, 1763, 226, 6754, 268, 5165, 3770, 4620, 547, 4805, 3282, 5659, 2721, 1951, 8127, 3600, 1908, 3729, 5733, 87>>,
   <<1434, 718, 5679, 3109, 2712, 6871, 7263, 6326, 7596, 447, 4589, 2779, 5638, 6694, 7891, 2599, 3823, 4373, 7986, 3>>,
   <<6305, 6492, 6669, 5168, 6447, 1164, 4035, 2400, 1077, 7302, 6304, 7335, 4693, 7139, 2261, 3232, 6628, 2662, 1174, 50>>,
   <<1502, 6156, 5997, 2216, 6270, 5922, 4330, 2958, 770, 2696, 5156, 6637, 3257, 7924, 1179, 4045, 8023, 3755, 7862, 87>>,
   <<400, 151, 338, 4420, 1274, 936, 4867, 1691, 7067, 7687, 5187, 2426, 6191, 2718, 4790, 1201, 6214, 4379, 773, 25>>,
   <<1040, 4803, 5940, 582, 2919, 7383, 6120, 5210, 1432, 5022, 5611, 5982, 2904, 1484, 717, 8080, 7054, 6248, 6581, 88>>,
   <<4871, 99, 952, 6841, 864, 642, 2501, 6068, 2821, 3444, 5227, 5375, 4044, 2051, 35, 1696, 4728, 5049, 1940, 76>>,
   <<6199, 6354, 3528, 6124, 3480, 396, 7206, 7494, 4984, 6062, 56, 7801, 7834, 3696, 4086, 7957, 6360, 1404, 261, 2>>,
   <<1128, 8093, 5443, 5108, 5288, 6272, 3049, 4050, 4744, 2632, 239, 7284, 1461, 7113, 6590, 3374, 6000, 1321, 2642, 33>>,
   <<3175, 6905, 2133, 2147, 3415, 421, 4799, 916, 4047, 2145, 6700, 6799, 3642, 911, 7376, 7140, 7423, 4914, 6783, 46>>,
   <<3152, 2239, 47, 1295, 4133, 1591, 2057, 6982, 5977, 6930, 3058, 1640, 5114, 2301, 1964, 3359, 7699, 4029, 4248, 66>>,
   <<1455, 6211, 6248, 4532, 3964, 908, 2381, 3975, 4058, 1752, 4896, 5633, 7743, 2128, 3290, 3333, 7027, 4435, 3370, 32>>,
   <<7979, 4306, 2891, 5276, 7522, 1992, 5625, 2381, 2848, 205, 8052, 7552, 5232, 3227, 6048, 7789, 4723, 4249, 537, 88>>,
   <<7766, 6932, 4688, 436, 3907, 5089, 3216, 5469, 902, 5521, 4236, 7577, 5199, 5622, 3358, 903, 1548, 5734, 2975, 1>>,
   <<5780, 7804, 2765, 338, 4887, 2881, 3614, 6713, 4353, 374, 2815, 5688, 785, 6504, 1435, 2163, 2392, 1414, 4564, 74>>,
   <<5447, 4507, 328, 201, 1379, 7044, 618, 7568, 3314, 6261, 1728, 1827, 5717, 7008, 5521, 8114, 7515, 8012, 3795, 10>>,
   <<4890, 6636, 3157, 3450, 5903, 3353, 1913, 1202, 457, 301, 6041, 2185, 6601, 4406, 920, 8083, 4052, 2892, 7062, 38>>,
   <<4026, 4166, 3886, 257, 3107, 1090, 4813, 7984, 585, 2596, 4059, 4799, 7203, 5043, 3793, 4819, 2257, 5843, 2001, 43>>,
   <<7992, 985, 897, 4497, 1040, 1355, 6689, 2414, 328, 4200, 969, 1264, 7470, 7782, 7726, 3964, 6736, 3681, 671, 58>>,
   <<3724, 5258, 5668, 5726, 3392, 3117, 1810, 5369, 1429, 988, 4739, 6333, 7221, 5970, 760, 3364, 6717, 3139, 4429, 52>>,
   <<7792, 4716, 560, 3389, 5499, 7536, 4008, 223, 2389, 3847, 3137, 7440, 7516, 3132, 2822, 1252, 4129, 1380, 6225, 20>>,
   <<7929, 2183, 4265, 5330, 7836, 473, 4139, 6662, 6777, 633, 5582, 5665, 209, 7441, 1567, 4893, 7915, 7532, 3441, 12>>,
   <<6732, 1092, 6938, 431, 61, 613, 5465, 551, 5500, 2010, 3341, 1031, 6583, 2639, 7403, 6867, 898, 2118, 2490, 26>>,
   <<314, 1137, 1472, 2889, 2240, 7094, 6627, 3566, 7143, 5707, 6244, 1660, 3911, 306, 5300, 7002, 4442, 4567, 4674, 37>>,
   <<4330, 462, 8125, 5718, 7742, 6520, 1162, 2677, 6292, 3347, 6099, 3110, 6803, 6468, 2915, 7689, 4666, 952, 4829, 60>>,
   <<4494, 4272, 4242, 630, 6398, 5494, 2067, 3452, 6603, 3810, 6343, 6690, 6416, 4856, 2839, 5318, 2540, 3684, 4661, 0>>,
   <<1248, 3017, 3225, 4165, 4236, 7820, 4900, 82, 3844, 6481, 2200, 6399, 2457, 1868, 5878, 2364, 7636, 2214, 1852, 56>>,
   <<1485, 6842, 2831, 5926, 4320, 1241, 513, 6457, 4517, 4909, 7182, 902, 1569, 780, 7623, 3562, 7897, 3880, 7905, 75>>,
   <<6393, 3564, 853, 6646, 3512, 4663, 5830, 4633, 7056, 7196, 5295, 349, 6842, 4474, 7733, 5149, 6768, 3792, 1973, 51>>,
   <<3115, 4314, 5319, 1853, 2801, 8104, 6634, 1010, 3494, 14, 4089, 5183, 1681, 6684, 1610, 6628, 2473, 6744, 6111, 0>>,
   <<7950, 4707, 1457, 7403, 3609, 107, 186, 429, 5059, 6751, 6812, 4001, 5047, 4516, 0, 4090, 8095, 108, 7393, 75>>,
   <<1748, 1473, 2446, 4498, 6035, 4200, 4880, 192, 6943, 8049, 5314, 2249, 84, 1657, 1446, 759, 8151, 687, 2633, 54>>,
   <<1318, 8117, 6028, 5992, 1181, 3853, 3999, 7033, 3893, 7371, 7671, 411, 3226, 7221, 5364, 3863, 1403, 1123, 6444, 8>>,
   <<5340, 6443, 1756, 8164, 5257, 5607, 6519, 2811, 5200, 3591, 4869, 1794, 4649, 4325, 4465, 3984, 858, 5060, 1166, 4>>,
   <<2860, 5342, 4937, 5658, 7378, 1841, 3452, 1108, 2127, 6149, 3425, 6957, 4780, 1451, 6366, 612, 2783, 832, 1812, 12>>,
   <<4088, 5278, 5454, 1874, 7401, 5187, 2407, 6179, 1818, 5106, 6770, 5841, 557, 1154, 6970, 6826, 6139, 581, 3025, 64>>,
   <<2740, 7393, 4472, 7351, 1862, 2691, 8184, 5167, 5729, 666, 6735, 4045, 6432, 5832, 3455, 6667, 2540, 521, 983, 38>>,
   <<4100, 1104, 5429, 2047, 4705, 7513, 6770, 568, 7050, 6250, 5867, 4050, 3723, 7793, 6738, 6030, 3762, 7758, 4263, 73>>,
   <<4211, 6561, 3706, 5196, 3300, 3073, 1649, 6643, 1401, 3664, 2930, 3150, 8130, 6259, 3052, 7470, 6580, 8165, 3520, 13>>,
   <<223, 302, 3827, 6556, 4688, 356, 2551, 861, 4861, 5792, 546, 70, 1548, 6646, 131, 1107, 3462, 7195, 3781, 57>>,
   <<7605, 4293, 804, 3269, 461, 5518, 3373, 8095, 3128, 5289, 7769, 568, 5391, 2271, 1228, 7236, 825, 227, 699, 12>>,
   <<3074, 47, 2425, 4772, 5726, 6275, 3175, 1003, 3886, 7105, 5359, 3606, 6270, 6986, 844, 6388, 7135, 4427, 8138, 27>>,
   <<5584, 1269, 2324, 2680, 1137, 5667, 2832, 7737, 1696, 4356, 2077, 3634, 1322, 1959, 419, 1833, 7240, 696, 6475, 29>>,
   <<5545, 6402, 7312, 6243, 3738, 5629, 5048, 5199, 6105, 6870, 6743, 8004, 4949, 2258, 2283, 5552, 7899, 3450, 7041, 22>>,
   <<7818, 7419, 4178, 5837, 887, 2548, 550, 665, 3244, 681, 2144, 1024, 97, 3203, 4617, 2430, 4100, 5211, 341, 25>>,
   <<2346, 6951, 255, 3995, 835, 7403, 5766, 5797, 4957, 862, 6784, 3974, 7664, 7576, 2508, 2146, 5330, 6474, 4852, 34>>,
   <<1410, 939, 2259, 6630, 6193, 6292, 7344, 7707, 6594, 6010, 4886, 7434, 6068, 3322, 4198, 6292, 1412, 7359, 7600, 5>>,
   <<614, 7748, 749, 4926, 1098, 2847, 4334, 370, 3387, 4647, 7273, 7073, 7168, 3667, 795, 7817, 3370, 1692, 7156, 65>>,
   <<7287, 467, 7637, 5849, 2285, 1003, 4040, 3957, 2246, 910, 4011, 7901, 4622, 3582, 6791, 4085, 1597, 7875, 6007, 1>>,
   <<1560, 5771, 8038, 6420, 8029, 7224, 8108, 5945, 5160, 63, 41, 1083, 3138, 5389, 7712, 1234, 5208, 3368, 7597, 1>>,
   <<5873, 4479, 7010, 6702, 5123, 3240, 908, 7726, 2577, 5196, 5591, 5003, 3494, 4558, 6715, 3444, 1856, 5237, 1543, 44>>,
   <<1836, 3549, 6858, 1974, 4309, 5110, 1010, 5109, 5343, 4684, 7565, 1555, 3768, 267, 831, 1732, 1602, 5636, 2618, 68>>,
   <<1309, 5402, 7997, 4209, 3404, 5532, 2491, 1162, 3252, 3095, 976, 1363, 1894, 3603, 5768, 1786, 1347, 5574, 3500, 92>>,
   <<2972, 2571, 1895, 5973, 1595, 1763, 2877, 3233, 7868, 426, 6487, 5486, 1430, 1025, 3957, 2569, 1434, 2170, 3256, 15>>,
   <<237, 5876, 3314, 5326, 960, 603, 6017, 5899, 2966, 4932, 1165, 5817, 6782, 8039, 6551, 1748, 6673, 7362, 3284, 32>>,
   <<3472, 6718, 7034, 4060, 7270, 6045, 3508, 4023, 2869, 2668, 495, 1731, 4093, 4515, 6067, 5343, 7593, 2673, 6970, 89>>,
   <<4099, 4589, 6485, 2265, 6890, 1631, 3676, 3924, 4070, 7875, 7481, 6338, 657, 677, 8121, 1896, 1036, 1746, 4683, 44>>,
   <<4052, 1559, 4711, 6870, 1511, 120, 3283, 3748, 2769, 8004, 5467, 5503, 5932, 6298, 5139, 7347, 1613, 7095, 4430, 33>>,
   <<3905, 6323, 5842, 7900, 1554, 6353, 3651, 7380, 87, 6215, 3739, 6149, 3523, 7841, 4514, 2440, 1460, 8067, 348, 31>>,
   <<2731, 3561, 87, 6151, 3421, 454, 545, 7226, 1837, 2060, 6317, 6729, 390, 1374, 2775, 2127, 3089, 2960, 5089, 41>>,
   <<1001, 1954, 4413, 7955, 5101, 719, 413, 3047, 2908, 5762, 4676, 1621, 8015, 4497, 31, 3558, 6717, 7065, 3519, 0>>,
   <<6536, 3031, 2408, 2424, 5665, 4089, 2035, 5343, 6902, 6594, 211, 4920, 1328, 5343, 6118, 5284, 3422, 7999, 6325, 43>>,
   <<3505, 4042, 7195, 222, 1745, 3566, 5705, 5705, 5305, 2874, 856, 4957, 820, 6484, 3726, 6869, 397, 6742, 5035, 90>>,
   <<4065, 3685, 3276, 4976, 1264, 6632, 3301, 3617, 1434, 2337, 6631, 433, 1006, 531, 1140, 4912, 3953, 1269, 5163, 16>>,
   <<4999, 6014, 5198, 1464, 2787, 7811, 6375, 3987, 210, 3612, 6505, 8105, 2688, 3798, 5380, 7431, 1399, 2716, 6585, 6>>,
   <<297, 1250, 2828, 6199, 7132, 6531, 6796, 5072, 7736, 7602, 1099, 3289, 4476, 696, 7684, 6567, 1133, 6262, 242, 61>>,
   <<5158, 6215, 3640, 7401, 6224, 1974, 7393, 853, 1190, 789, 6949, 6527, 5422, 5126, 5947, 274, 7841, 5911, 3703, 65>>,
   <<3870, 3759, 6443, 7056, 6879, 7761, 2984, 134, 6419, 3363, 7404, 7010, 7969, 3563, 744, 7647, 7709, 8144, 6917, 56>>,
   <<3406, 207, 728, 1741, 6707, 2642, 7008, 3157, 3425, 4705, 5164, 6819, 697, 5895, 1812, 232, 987, 1294, 2801, 13>>,
   <<969, 4306, 5, 1512, 7805, 6945, 2701, 398, 5802, 1317, 8072, 6992, 820, 6059, 2293, 2163, 2875, 7139, 7586, 27>>>>

FrArk(i) == ArkConst[i]
FrXArr(i) == XConst[i]
FrYArr(i) == YConst[i]
================================================================================
