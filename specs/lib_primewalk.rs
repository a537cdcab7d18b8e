// generated by tools; each chunk is decided by symbolic evaluation of the table extracted from /repo
pub proof fn lemma_walk_2() ensures walk(2, 514, 0) == 97 { assert(walk(2, 514, 0) == 97) by(compute_only); }
pub proof fn lemma_upto_514() ensures tab_in(2, 514, 0, 97), pcount(514) == 97
{ lemma_walk_2(); assert(pcount(2) == 0); lemma_np(); lemma_walk(2, 514, 0); }
pub proof fn lemma_walk_514() ensures walk(514, 1026, 97) == 172 { assert(walk(514, 1026, 97) == 172) by(compute_only); }
pub proof fn lemma_upto_1026() ensures tab_in(2, 1026, 0, 172), pcount(1026) == 172
{ lemma_walk_514(); lemma_upto_514(); lemma_np(); lemma_walk(514, 1026, 97); lemma_tab_join(2, 514, 1026, 0, 97, 172); }
pub proof fn lemma_walk_1026() ensures walk(1026, 1538, 172) == 242 { assert(walk(1026, 1538, 172) == 242) by(compute_only); }
pub proof fn lemma_upto_1538() ensures tab_in(2, 1538, 0, 242), pcount(1538) == 242
{ lemma_walk_1026(); lemma_upto_1026(); lemma_np(); lemma_walk(1026, 1538, 172); lemma_tab_join(2, 1026, 1538, 0, 172, 242); }
pub proof fn lemma_walk_1538() ensures walk(1538, 2050, 242) == 309 { assert(walk(1538, 2050, 242) == 309) by(compute_only); }
pub proof fn lemma_upto_2050() ensures tab_in(2, 2050, 0, 309), pcount(2050) == 309
{ lemma_walk_1538(); lemma_upto_1538(); lemma_np(); lemma_walk(1538, 2050, 242); lemma_tab_join(2, 1538, 2050, 0, 242, 309); }
pub proof fn lemma_walk_2050() ensures walk(2050, 2562, 309) == 375 { assert(walk(2050, 2562, 309) == 375) by(compute_only); }
pub proof fn lemma_upto_2562() ensures tab_in(2, 2562, 0, 375), pcount(2562) == 375
{ lemma_walk_2050(); lemma_upto_2050(); lemma_np(); lemma_walk(2050, 2562, 309); lemma_tab_join(2, 2050, 2562, 0, 309, 375); }
pub proof fn lemma_walk_2562() ensures walk(2562, 3074, 375) == 439 { assert(walk(2562, 3074, 375) == 439) by(compute_only); }
pub proof fn lemma_upto_3074() ensures tab_in(2, 3074, 0, 439), pcount(3074) == 439
{ lemma_walk_2562(); lemma_upto_2562(); lemma_np(); lemma_walk(2562, 3074, 375); lemma_tab_join(2, 2562, 3074, 0, 375, 439); }
pub proof fn lemma_walk_3074() ensures walk(3074, 3586, 439) == 502 { assert(walk(3074, 3586, 439) == 502) by(compute_only); }
pub proof fn lemma_upto_3586() ensures tab_in(2, 3586, 0, 502), pcount(3586) == 502
{ lemma_walk_3074(); lemma_upto_3074(); lemma_np(); lemma_walk(3074, 3586, 439); lemma_tab_join(2, 3074, 3586, 0, 439, 502); }
pub proof fn lemma_walk_3586() ensures walk(3586, 4098, 502) == 564 { assert(walk(3586, 4098, 502) == 564) by(compute_only); }
pub proof fn lemma_upto_4098() ensures tab_in(2, 4098, 0, 564), pcount(4098) == 564
{ lemma_walk_3586(); lemma_upto_3586(); lemma_np(); lemma_walk(3586, 4098, 502); lemma_tab_join(2, 3586, 4098, 0, 502, 564); }
pub proof fn lemma_walk_4098() ensures walk(4098, 4610, 564) == 623 { assert(walk(4098, 4610, 564) == 623) by(compute_only); }
pub proof fn lemma_upto_4610() ensures tab_in(2, 4610, 0, 623), pcount(4610) == 623
{ lemma_walk_4098(); lemma_upto_4098(); lemma_np(); lemma_walk(4098, 4610, 564); lemma_tab_join(2, 4098, 4610, 0, 564, 623); }
pub proof fn lemma_walk_4610() ensures walk(4610, 5122, 623) == 685 { assert(walk(4610, 5122, 623) == 685) by(compute_only); }
pub proof fn lemma_upto_5122() ensures tab_in(2, 5122, 0, 685), pcount(5122) == 685
{ lemma_walk_4610(); lemma_upto_4610(); lemma_np(); lemma_walk(4610, 5122, 623); lemma_tab_join(2, 4610, 5122, 0, 623, 685); }
pub proof fn lemma_walk_5122() ensures walk(5122, 5634, 685) == 739 { assert(walk(5122, 5634, 685) == 739) by(compute_only); }
pub proof fn lemma_upto_5634() ensures tab_in(2, 5634, 0, 739), pcount(5634) == 739
{ lemma_walk_5122(); lemma_upto_5122(); lemma_np(); lemma_walk(5122, 5634, 685); lemma_tab_join(2, 5122, 5634, 0, 685, 739); }
pub proof fn lemma_walk_5634() ensures walk(5634, 6146, 739) == 801 { assert(walk(5634, 6146, 739) == 801) by(compute_only); }
pub proof fn lemma_upto_6146() ensures tab_in(2, 6146, 0, 801), pcount(6146) == 801
{ lemma_walk_5634(); lemma_upto_5634(); lemma_np(); lemma_walk(5634, 6146, 739); lemma_tab_join(2, 5634, 6146, 0, 739, 801); }
pub proof fn lemma_walk_6146() ensures walk(6146, 6658, 801) == 857 { assert(walk(6146, 6658, 801) == 857) by(compute_only); }
pub proof fn lemma_upto_6658() ensures tab_in(2, 6658, 0, 857), pcount(6658) == 857
{ lemma_walk_6146(); lemma_upto_6146(); lemma_np(); lemma_walk(6146, 6658, 801); lemma_tab_join(2, 6146, 6658, 0, 801, 857); }
pub proof fn lemma_walk_6658() ensures walk(6658, 7170, 857) == 916 { assert(walk(6658, 7170, 857) == 916) by(compute_only); }
pub proof fn lemma_upto_7170() ensures tab_in(2, 7170, 0, 916), pcount(7170) == 916
{ lemma_walk_6658(); lemma_upto_6658(); lemma_np(); lemma_walk(6658, 7170, 857); lemma_tab_join(2, 6658, 7170, 0, 857, 916); }
pub proof fn lemma_walk_7170() ensures walk(7170, 7682, 916) == 974 { assert(walk(7170, 7682, 916) == 974) by(compute_only); }
pub proof fn lemma_upto_7682() ensures tab_in(2, 7682, 0, 974), pcount(7682) == 974
{ lemma_walk_7170(); lemma_upto_7170(); lemma_np(); lemma_walk(7170, 7682, 916); lemma_tab_join(2, 7170, 7682, 0, 916, 974); }
pub proof fn lemma_walk_7682() ensures walk(7682, 8194, 974) == 1028 { assert(walk(7682, 8194, 974) == 1028) by(compute_only); }
pub proof fn lemma_upto_8194() ensures tab_in(2, 8194, 0, 1028), pcount(8194) == 1028
{ lemma_walk_7682(); lemma_upto_7682(); lemma_np(); lemma_walk(7682, 8194, 974); lemma_tab_join(2, 7682, 8194, 0, 974, 1028); }
pub proof fn lemma_walk_8194() ensures walk(8194, 8706, 1028) == 1084 { assert(walk(8194, 8706, 1028) == 1084) by(compute_only); }
pub proof fn lemma_upto_8706() ensures tab_in(2, 8706, 0, 1084), pcount(8706) == 1084
{ lemma_walk_8194(); lemma_upto_8194(); lemma_np(); lemma_walk(8194, 8706, 1028); lemma_tab_join(2, 8194, 8706, 0, 1028, 1084); }
pub proof fn lemma_walk_8706() ensures walk(8706, 9218, 1084) == 1142 { assert(walk(8706, 9218, 1084) == 1142) by(compute_only); }
pub proof fn lemma_upto_9218() ensures tab_in(2, 9218, 0, 1142), pcount(9218) == 1142
{ lemma_walk_8706(); lemma_upto_8706(); lemma_np(); lemma_walk(8706, 9218, 1084); lemma_tab_join(2, 8706, 9218, 0, 1084, 1142); }
pub proof fn lemma_walk_9218() ensures walk(9218, 9730, 1142) == 1199 { assert(walk(9218, 9730, 1142) == 1199) by(compute_only); }
pub proof fn lemma_upto_9730() ensures tab_in(2, 9730, 0, 1199), pcount(9730) == 1199
{ lemma_walk_9218(); lemma_upto_9218(); lemma_np(); lemma_walk(9218, 9730, 1142); lemma_tab_join(2, 9218, 9730, 0, 1142, 1199); }
pub proof fn lemma_walk_9730() ensures walk(9730, 10242, 1199) == 1254 { assert(walk(9730, 10242, 1199) == 1254) by(compute_only); }
pub proof fn lemma_upto_10242() ensures tab_in(2, 10242, 0, 1254), pcount(10242) == 1254
{ lemma_walk_9730(); lemma_upto_9730(); lemma_np(); lemma_walk(9730, 10242, 1199); lemma_tab_join(2, 9730, 10242, 0, 1199, 1254); }
pub proof fn lemma_walk_10242() ensures walk(10242, 10754, 1254) == 1311 { assert(walk(10242, 10754, 1254) == 1311) by(compute_only); }
pub proof fn lemma_upto_10754() ensures tab_in(2, 10754, 0, 1311), pcount(10754) == 1311
{ lemma_walk_10242(); lemma_upto_10242(); lemma_np(); lemma_walk(10242, 10754, 1254); lemma_tab_join(2, 10242, 10754, 0, 1254, 1311); }
pub proof fn lemma_walk_10754() ensures walk(10754, 11266, 1311) == 1362 { assert(walk(10754, 11266, 1311) == 1362) by(compute_only); }
pub proof fn lemma_upto_11266() ensures tab_in(2, 11266, 0, 1362), pcount(11266) == 1362
{ lemma_walk_10754(); lemma_upto_10754(); lemma_np(); lemma_walk(10754, 11266, 1311); lemma_tab_join(2, 10754, 11266, 0, 1311, 1362); }
pub proof fn lemma_walk_11266() ensures walk(11266, 11778, 1362) == 1410 { assert(walk(11266, 11778, 1362) == 1410) by(compute_only); }
pub proof fn lemma_upto_11778() ensures tab_in(2, 11778, 0, 1410), pcount(11778) == 1410
{ lemma_walk_11266(); lemma_upto_11266(); lemma_np(); lemma_walk(11266, 11778, 1362); lemma_tab_join(2, 11266, 11778, 0, 1362, 1410); }
pub proof fn lemma_walk_11778() ensures walk(11778, 12290, 1410) == 1470 { assert(walk(11778, 12290, 1410) == 1470) by(compute_only); }
pub proof fn lemma_upto_12290() ensures tab_in(2, 12290, 0, 1470), pcount(12290) == 1470
{ lemma_walk_11778(); lemma_upto_11778(); lemma_np(); lemma_walk(11778, 12290, 1410); lemma_tab_join(2, 11778, 12290, 0, 1410, 1470); }
pub proof fn lemma_walk_12290() ensures walk(12290, 12802, 1470) == 1526 { assert(walk(12290, 12802, 1470) == 1526) by(compute_only); }
pub proof fn lemma_upto_12802() ensures tab_in(2, 12802, 0, 1526), pcount(12802) == 1526
{ lemma_walk_12290(); lemma_upto_12290(); lemma_np(); lemma_walk(12290, 12802, 1470); lemma_tab_join(2, 12290, 12802, 0, 1470, 1526); }
pub proof fn lemma_walk_12802() ensures walk(12802, 13314, 1526) == 1581 { assert(walk(12802, 13314, 1526) == 1581) by(compute_only); }
pub proof fn lemma_upto_13314() ensures tab_in(2, 13314, 0, 1581), pcount(13314) == 1581
{ lemma_walk_12802(); lemma_upto_12802(); lemma_np(); lemma_walk(12802, 13314, 1526); lemma_tab_join(2, 12802, 13314, 0, 1526, 1581); }
pub proof fn lemma_walk_13314() ensures walk(13314, 13826, 1581) == 1633 { assert(walk(13314, 13826, 1581) == 1633) by(compute_only); }
pub proof fn lemma_upto_13826() ensures tab_in(2, 13826, 0, 1633), pcount(13826) == 1633
{ lemma_walk_13314(); lemma_upto_13314(); lemma_np(); lemma_walk(13314, 13826, 1581); lemma_tab_join(2, 13314, 13826, 0, 1581, 1633); }
pub proof fn lemma_walk_13826() ensures walk(13826, 14338, 1633) == 1681 { assert(walk(13826, 14338, 1633) == 1681) by(compute_only); }
pub proof fn lemma_upto_14338() ensures tab_in(2, 14338, 0, 1681), pcount(14338) == 1681
{ lemma_walk_13826(); lemma_upto_13826(); lemma_np(); lemma_walk(13826, 14338, 1633); lemma_tab_join(2, 13826, 14338, 0, 1633, 1681); }
pub proof fn lemma_walk_14338() ensures walk(14338, 14850, 1681) == 1739 { assert(walk(14338, 14850, 1681) == 1739) by(compute_only); }
pub proof fn lemma_upto_14850() ensures tab_in(2, 14850, 0, 1739), pcount(14850) == 1739
{ lemma_walk_14338(); lemma_upto_14338(); lemma_np(); lemma_walk(14338, 14850, 1681); lemma_tab_join(2, 14338, 14850, 0, 1681, 1739); }
pub proof fn lemma_walk_14850() ensures walk(14850, 15362, 1739) == 1795 { assert(walk(14850, 15362, 1739) == 1795) by(compute_only); }
pub proof fn lemma_upto_15362() ensures tab_in(2, 15362, 0, 1795), pcount(15362) == 1795
{ lemma_walk_14850(); lemma_upto_14850(); lemma_np(); lemma_walk(14850, 15362, 1739); lemma_tab_join(2, 14850, 15362, 0, 1739, 1795); }
pub proof fn lemma_walk_15362() ensures walk(15362, 15874, 1795) == 1848 { assert(walk(15362, 15874, 1795) == 1848) by(compute_only); }
pub proof fn lemma_upto_15874() ensures tab_in(2, 15874, 0, 1848), pcount(15874) == 1848
{ lemma_walk_15362(); lemma_upto_15362(); lemma_np(); lemma_walk(15362, 15874, 1795); lemma_tab_join(2, 15362, 15874, 0, 1795, 1848); }
pub proof fn lemma_walk_15874() ensures walk(15874, 16386, 1848) == 1900 { assert(walk(15874, 16386, 1848) == 1900) by(compute_only); }
pub proof fn lemma_upto_16386() ensures tab_in(2, 16386, 0, 1900), pcount(16386) == 1900
{ lemma_walk_15874(); lemma_upto_15874(); lemma_np(); lemma_walk(15874, 16386, 1848); lemma_tab_join(2, 15874, 16386, 0, 1848, 1900); }
pub proof fn lemma_walk_16386() ensures walk(16386, 16898, 1900) == 1948 { assert(walk(16386, 16898, 1900) == 1948) by(compute_only); }
pub proof fn lemma_upto_16898() ensures tab_in(2, 16898, 0, 1948), pcount(16898) == 1948
{ lemma_walk_16386(); lemma_upto_16386(); lemma_np(); lemma_walk(16386, 16898, 1900); lemma_tab_join(2, 16386, 16898, 0, 1900, 1948); }
pub proof fn lemma_walk_16898() ensures walk(16898, 17410, 1948) == 2002 { assert(walk(16898, 17410, 1948) == 2002) by(compute_only); }
pub proof fn lemma_upto_17410() ensures tab_in(2, 17410, 0, 2002), pcount(17410) == 2002
{ lemma_walk_16898(); lemma_upto_16898(); lemma_np(); lemma_walk(16898, 17410, 1948); lemma_tab_join(2, 16898, 17410, 0, 1948, 2002); }
pub proof fn lemma_walk_17410() ensures walk(17410, 17922, 2002) == 2054 { assert(walk(17410, 17922, 2002) == 2054) by(compute_only); }
pub proof fn lemma_upto_17922() ensures tab_in(2, 17922, 0, 2054), pcount(17922) == 2054
{ lemma_walk_17410(); lemma_upto_17410(); lemma_np(); lemma_walk(17410, 17922, 2002); lemma_tab_join(2, 17410, 17922, 0, 2002, 2054); }
pub proof fn lemma_walk_17922() ensures walk(17922, 18434, 2054) == 2111 { assert(walk(17922, 18434, 2054) == 2111) by(compute_only); }
pub proof fn lemma_upto_18434() ensures tab_in(2, 18434, 0, 2111), pcount(18434) == 2111
{ lemma_walk_17922(); lemma_upto_17922(); lemma_np(); lemma_walk(17922, 18434, 2054); lemma_tab_join(2, 17922, 18434, 0, 2054, 2111); }
pub proof fn lemma_walk_18434() ensures walk(18434, 18946, 2111) == 2154 { assert(walk(18434, 18946, 2111) == 2154) by(compute_only); }
pub proof fn lemma_upto_18946() ensures tab_in(2, 18946, 0, 2154), pcount(18946) == 2154
{ lemma_walk_18434(); lemma_upto_18434(); lemma_np(); lemma_walk(18434, 18946, 2111); lemma_tab_join(2, 18434, 18946, 0, 2111, 2154); }
pub proof fn lemma_walk_18946() ensures walk(18946, 19458, 2154) == 2206 { assert(walk(18946, 19458, 2154) == 2206) by(compute_only); }
pub proof fn lemma_upto_19458() ensures tab_in(2, 19458, 0, 2206), pcount(19458) == 2206
{ lemma_walk_18946(); lemma_upto_18946(); lemma_np(); lemma_walk(18946, 19458, 2154); lemma_tab_join(2, 18946, 19458, 0, 2154, 2206); }
pub proof fn lemma_walk_19458() ensures walk(19458, 19970, 2206) == 2257 { assert(walk(19458, 19970, 2206) == 2257) by(compute_only); }
pub proof fn lemma_upto_19970() ensures tab_in(2, 19970, 0, 2257), pcount(19970) == 2257
{ lemma_walk_19458(); lemma_upto_19458(); lemma_np(); lemma_walk(19458, 19970, 2206); lemma_tab_join(2, 19458, 19970, 0, 2206, 2257); }
pub proof fn lemma_walk_19970() ensures walk(19970, 20482, 2257) == 2312 { assert(walk(19970, 20482, 2257) == 2312) by(compute_only); }
pub proof fn lemma_upto_20482() ensures tab_in(2, 20482, 0, 2312), pcount(20482) == 2312
{ lemma_walk_19970(); lemma_upto_19970(); lemma_np(); lemma_walk(19970, 20482, 2257); lemma_tab_join(2, 19970, 20482, 0, 2257, 2312); }
pub proof fn lemma_walk_20482() ensures walk(20482, 20994, 2312) == 2360 { assert(walk(20482, 20994, 2312) == 2360) by(compute_only); }
pub proof fn lemma_upto_20994() ensures tab_in(2, 20994, 0, 2360), pcount(20994) == 2360
{ lemma_walk_20482(); lemma_upto_20482(); lemma_np(); lemma_walk(20482, 20994, 2312); lemma_tab_join(2, 20482, 20994, 0, 2312, 2360); }
pub proof fn lemma_walk_20994() ensures walk(20994, 21506, 2360) == 2413 { assert(walk(20994, 21506, 2360) == 2413) by(compute_only); }
pub proof fn lemma_upto_21506() ensures tab_in(2, 21506, 0, 2413), pcount(21506) == 2413
{ lemma_walk_20994(); lemma_upto_20994(); lemma_np(); lemma_walk(20994, 21506, 2360); lemma_tab_join(2, 20994, 21506, 0, 2360, 2413); }
pub proof fn lemma_walk_21506() ensures walk(21506, 22018, 2413) == 2466 { assert(walk(21506, 22018, 2413) == 2466) by(compute_only); }
pub proof fn lemma_upto_22018() ensures tab_in(2, 22018, 0, 2466), pcount(22018) == 2466
{ lemma_walk_21506(); lemma_upto_21506(); lemma_np(); lemma_walk(21506, 22018, 2413); lemma_tab_join(2, 21506, 22018, 0, 2413, 2466); }
pub proof fn lemma_walk_22018() ensures walk(22018, 22530, 2466) == 2517 { assert(walk(22018, 22530, 2466) == 2517) by(compute_only); }
pub proof fn lemma_upto_22530() ensures tab_in(2, 22530, 0, 2517), pcount(22530) == 2517
{ lemma_walk_22018(); lemma_upto_22018(); lemma_np(); lemma_walk(22018, 22530, 2466); lemma_tab_join(2, 22018, 22530, 0, 2466, 2517); }
pub proof fn lemma_walk_22530() ensures walk(22530, 23042, 2517) == 2572 { assert(walk(22530, 23042, 2517) == 2572) by(compute_only); }
pub proof fn lemma_upto_23042() ensures tab_in(2, 23042, 0, 2572), pcount(23042) == 2572
{ lemma_walk_22530(); lemma_upto_22530(); lemma_np(); lemma_walk(22530, 23042, 2517); lemma_tab_join(2, 22530, 23042, 0, 2517, 2572); }
pub proof fn lemma_walk_23042() ensures walk(23042, 23554, 2572) == 2618 { assert(walk(23042, 23554, 2572) == 2618) by(compute_only); }
pub proof fn lemma_upto_23554() ensures tab_in(2, 23554, 0, 2618), pcount(23554) == 2618
{ lemma_walk_23042(); lemma_upto_23042(); lemma_np(); lemma_walk(23042, 23554, 2572); lemma_tab_join(2, 23042, 23554, 0, 2572, 2618); }
pub proof fn lemma_walk_23554() ensures walk(23554, 24066, 2618) == 2676 { assert(walk(23554, 24066, 2618) == 2676) by(compute_only); }
pub proof fn lemma_upto_24066() ensures tab_in(2, 24066, 0, 2676), pcount(24066) == 2676
{ lemma_walk_23554(); lemma_upto_23554(); lemma_np(); lemma_walk(23554, 24066, 2618); lemma_tab_join(2, 23554, 24066, 0, 2618, 2676); }
pub proof fn lemma_walk_24066() ensures walk(24066, 24578, 2676) == 2725 { assert(walk(24066, 24578, 2676) == 2725) by(compute_only); }
pub proof fn lemma_upto_24578() ensures tab_in(2, 24578, 0, 2725), pcount(24578) == 2725
{ lemma_walk_24066(); lemma_upto_24066(); lemma_np(); lemma_walk(24066, 24578, 2676); lemma_tab_join(2, 24066, 24578, 0, 2676, 2725); }
pub proof fn lemma_walk_24578() ensures walk(24578, 25090, 2725) == 2769 { assert(walk(24578, 25090, 2725) == 2769) by(compute_only); }
pub proof fn lemma_upto_25090() ensures tab_in(2, 25090, 0, 2769), pcount(25090) == 2769
{ lemma_walk_24578(); lemma_upto_24578(); lemma_np(); lemma_walk(24578, 25090, 2725); lemma_tab_join(2, 24578, 25090, 0, 2725, 2769); }
pub proof fn lemma_walk_25090() ensures walk(25090, 25602, 2769) == 2819 { assert(walk(25090, 25602, 2769) == 2819) by(compute_only); }
pub proof fn lemma_upto_25602() ensures tab_in(2, 25602, 0, 2819), pcount(25602) == 2819
{ lemma_walk_25090(); lemma_upto_25090(); lemma_np(); lemma_walk(25090, 25602, 2769); lemma_tab_join(2, 25090, 25602, 0, 2769, 2819); }
pub proof fn lemma_walk_25602() ensures walk(25602, 26114, 2819) == 2871 { assert(walk(25602, 26114, 2819) == 2871) by(compute_only); }
pub proof fn lemma_upto_26114() ensures tab_in(2, 26114, 0, 2871), pcount(26114) == 2871
{ lemma_walk_25602(); lemma_upto_25602(); lemma_np(); lemma_walk(25602, 26114, 2819); lemma_tab_join(2, 25602, 26114, 0, 2819, 2871); }
pub proof fn lemma_walk_26114() ensures walk(26114, 26626, 2871) == 2918 { assert(walk(26114, 26626, 2871) == 2918) by(compute_only); }
pub proof fn lemma_upto_26626() ensures tab_in(2, 26626, 0, 2918), pcount(26626) == 2918
{ lemma_walk_26114(); lemma_upto_26114(); lemma_np(); lemma_walk(26114, 26626, 2871); lemma_tab_join(2, 26114, 26626, 0, 2871, 2918); }
pub proof fn lemma_walk_26626() ensures walk(26626, 27138, 2918) == 2975 { assert(walk(26626, 27138, 2918) == 2975) by(compute_only); }
pub proof fn lemma_upto_27138() ensures tab_in(2, 27138, 0, 2975), pcount(27138) == 2975
{ lemma_walk_26626(); lemma_upto_26626(); lemma_np(); lemma_walk(26626, 27138, 2918); lemma_tab_join(2, 26626, 27138, 0, 2918, 2975); }
pub proof fn lemma_walk_27138() ensures walk(27138, 27650, 2975) == 3016 { assert(walk(27138, 27650, 2975) == 3016) by(compute_only); }
pub proof fn lemma_upto_27650() ensures tab_in(2, 27650, 0, 3016), pcount(27650) == 3016
{ lemma_walk_27138(); lemma_upto_27138(); lemma_np(); lemma_walk(27138, 27650, 2975); lemma_tab_join(2, 27138, 27650, 0, 2975, 3016); }
pub proof fn lemma_walk_27650() ensures walk(27650, 28162, 3016) == 3070 { assert(walk(27650, 28162, 3016) == 3070) by(compute_only); }
pub proof fn lemma_upto_28162() ensures tab_in(2, 28162, 0, 3070), pcount(28162) == 3070
{ lemma_walk_27650(); lemma_upto_27650(); lemma_np(); lemma_walk(27650, 28162, 3016); lemma_tab_join(2, 27650, 28162, 0, 3016, 3070); }
pub proof fn lemma_walk_28162() ensures walk(28162, 28674, 3070) == 3124 { assert(walk(28162, 28674, 3070) == 3124) by(compute_only); }
pub proof fn lemma_upto_28674() ensures tab_in(2, 28674, 0, 3124), pcount(28674) == 3124
{ lemma_walk_28162(); lemma_upto_28162(); lemma_np(); lemma_walk(28162, 28674, 3070); lemma_tab_join(2, 28162, 28674, 0, 3070, 3124); }
pub proof fn lemma_walk_28674() ensures walk(28674, 29186, 3124) == 3172 { assert(walk(28674, 29186, 3124) == 3172) by(compute_only); }
pub proof fn lemma_upto_29186() ensures tab_in(2, 29186, 0, 3172), pcount(29186) == 3172
{ lemma_walk_28674(); lemma_upto_28674(); lemma_np(); lemma_walk(28674, 29186, 3124); lemma_tab_join(2, 28674, 29186, 0, 3124, 3172); }
pub proof fn lemma_walk_29186() ensures walk(29186, 29698, 3172) == 3221 { assert(walk(29186, 29698, 3172) == 3221) by(compute_only); }
pub proof fn lemma_upto_29698() ensures tab_in(2, 29698, 0, 3221), pcount(29698) == 3221
{ lemma_walk_29186(); lemma_upto_29186(); lemma_np(); lemma_walk(29186, 29698, 3172); lemma_tab_join(2, 29186, 29698, 0, 3172, 3221); }
pub proof fn lemma_walk_29698() ensures walk(29698, 30210, 3221) == 3267 { assert(walk(29698, 30210, 3221) == 3267) by(compute_only); }
pub proof fn lemma_upto_30210() ensures tab_in(2, 30210, 0, 3267), pcount(30210) == 3267
{ lemma_walk_29698(); lemma_upto_29698(); lemma_np(); lemma_walk(29698, 30210, 3221); lemma_tab_join(2, 29698, 30210, 0, 3221, 3267); }
pub proof fn lemma_walk_30210() ensures walk(30210, 30722, 3267) == 3314 { assert(walk(30210, 30722, 3267) == 3314) by(compute_only); }
pub proof fn lemma_upto_30722() ensures tab_in(2, 30722, 0, 3314), pcount(30722) == 3314
{ lemma_walk_30210(); lemma_upto_30210(); lemma_np(); lemma_walk(30210, 30722, 3267); lemma_tab_join(2, 30210, 30722, 0, 3267, 3314); }
pub proof fn lemma_walk_30722() ensures walk(30722, 31234, 3314) == 3365 { assert(walk(30722, 31234, 3314) == 3365) by(compute_only); }
pub proof fn lemma_upto_31234() ensures tab_in(2, 31234, 0, 3365), pcount(31234) == 3365
{ lemma_walk_30722(); lemma_upto_30722(); lemma_np(); lemma_walk(30722, 31234, 3314); lemma_tab_join(2, 30722, 31234, 0, 3314, 3365); }
pub proof fn lemma_walk_31234() ensures walk(31234, 31746, 3365) == 3414 { assert(walk(31234, 31746, 3365) == 3414) by(compute_only); }
pub proof fn lemma_upto_31746() ensures tab_in(2, 31746, 0, 3414), pcount(31746) == 3414
{ lemma_walk_31234(); lemma_upto_31234(); lemma_np(); lemma_walk(31234, 31746, 3365); lemma_tab_join(2, 31234, 31746, 0, 3365, 3414); }
pub proof fn lemma_walk_31746() ensures walk(31746, 32258, 3414) == 3460 { assert(walk(31746, 32258, 3414) == 3460) by(compute_only); }
pub proof fn lemma_upto_32258() ensures tab_in(2, 32258, 0, 3460), pcount(32258) == 3460
{ lemma_walk_31746(); lemma_upto_31746(); lemma_np(); lemma_walk(31746, 32258, 3414); lemma_tab_join(2, 31746, 32258, 0, 3414, 3460); }
pub proof fn lemma_walk_32258() ensures walk(32258, 32770, 3460) == 3512 { assert(walk(32258, 32770, 3460) == 3512) by(compute_only); }
pub proof fn lemma_upto_32770() ensures tab_in(2, 32770, 0, 3512), pcount(32770) == 3512
{ lemma_walk_32258(); lemma_upto_32258(); lemma_np(); lemma_walk(32258, 32770, 3460); lemma_tab_join(2, 32258, 32770, 0, 3460, 3512); }
pub proof fn lemma_walk_32770() ensures walk(32770, 33282, 3512) == 3562 { assert(walk(32770, 33282, 3512) == 3562) by(compute_only); }
pub proof fn lemma_upto_33282() ensures tab_in(2, 33282, 0, 3562), pcount(33282) == 3562
{ lemma_walk_32770(); lemma_upto_32770(); lemma_np(); lemma_walk(32770, 33282, 3512); lemma_tab_join(2, 32770, 33282, 0, 3512, 3562); }
pub proof fn lemma_walk_33282() ensures walk(33282, 33794, 3562) == 3619 { assert(walk(33282, 33794, 3562) == 3619) by(compute_only); }
pub proof fn lemma_upto_33794() ensures tab_in(2, 33794, 0, 3619), pcount(33794) == 3619
{ lemma_walk_33282(); lemma_upto_33282(); lemma_np(); lemma_walk(33282, 33794, 3562); lemma_tab_join(2, 33282, 33794, 0, 3562, 3619); }
pub proof fn lemma_walk_33794() ensures walk(33794, 34306, 3619) == 3666 { assert(walk(33794, 34306, 3619) == 3666) by(compute_only); }
pub proof fn lemma_upto_34306() ensures tab_in(2, 34306, 0, 3666), pcount(34306) == 3666
{ lemma_walk_33794(); lemma_upto_33794(); lemma_np(); lemma_walk(33794, 34306, 3619); lemma_tab_join(2, 33794, 34306, 0, 3619, 3666); }
pub proof fn lemma_walk_34306() ensures walk(34306, 34818, 3666) == 3716 { assert(walk(34306, 34818, 3666) == 3716) by(compute_only); }
pub proof fn lemma_upto_34818() ensures tab_in(2, 34818, 0, 3716), pcount(34818) == 3716
{ lemma_walk_34306(); lemma_upto_34306(); lemma_np(); lemma_walk(34306, 34818, 3666); lemma_tab_join(2, 34306, 34818, 0, 3666, 3716); }
pub proof fn lemma_walk_34818() ensures walk(34818, 35330, 3716) == 3764 { assert(walk(34818, 35330, 3716) == 3764) by(compute_only); }
pub proof fn lemma_upto_35330() ensures tab_in(2, 35330, 0, 3764), pcount(35330) == 3764
{ lemma_walk_34818(); lemma_upto_34818(); lemma_np(); lemma_walk(34818, 35330, 3716); lemma_tab_join(2, 34818, 35330, 0, 3716, 3764); }
pub proof fn lemma_walk_35330() ensures walk(35330, 35842, 3764) == 3808 { assert(walk(35330, 35842, 3764) == 3808) by(compute_only); }
pub proof fn lemma_upto_35842() ensures tab_in(2, 35842, 0, 3808), pcount(35842) == 3808
{ lemma_walk_35330(); lemma_upto_35330(); lemma_np(); lemma_walk(35330, 35842, 3764); lemma_tab_join(2, 35330, 35842, 0, 3764, 3808); }
pub proof fn lemma_walk_35842() ensures walk(35842, 36354, 3808) == 3858 { assert(walk(35842, 36354, 3808) == 3858) by(compute_only); }
pub proof fn lemma_upto_36354() ensures tab_in(2, 36354, 0, 3858), pcount(36354) == 3858
{ lemma_walk_35842(); lemma_upto_35842(); lemma_np(); lemma_walk(35842, 36354, 3808); lemma_tab_join(2, 35842, 36354, 0, 3808, 3858); }
pub proof fn lemma_walk_36354() ensures walk(36354, 36866, 3858) == 3908 { assert(walk(36354, 36866, 3858) == 3908) by(compute_only); }
pub proof fn lemma_upto_36866() ensures tab_in(2, 36866, 0, 3908), pcount(36866) == 3908
{ lemma_walk_36354(); lemma_upto_36354(); lemma_np(); lemma_walk(36354, 36866, 3858); lemma_tab_join(2, 36354, 36866, 0, 3858, 3908); }
pub proof fn lemma_walk_36866() ensures walk(36866, 37378, 3908) == 3958 { assert(walk(36866, 37378, 3908) == 3958) by(compute_only); }
pub proof fn lemma_upto_37378() ensures tab_in(2, 37378, 0, 3958), pcount(37378) == 3958
{ lemma_walk_36866(); lemma_upto_36866(); lemma_np(); lemma_walk(36866, 37378, 3908); lemma_tab_join(2, 36866, 37378, 0, 3908, 3958); }
pub proof fn lemma_walk_37378() ensures walk(37378, 37890, 3958) == 4007 { assert(walk(37378, 37890, 3958) == 4007) by(compute_only); }
pub proof fn lemma_upto_37890() ensures tab_in(2, 37890, 0, 4007), pcount(37890) == 4007
{ lemma_walk_37378(); lemma_upto_37378(); lemma_np(); lemma_walk(37378, 37890, 3958); lemma_tab_join(2, 37378, 37890, 0, 3958, 4007); }
pub proof fn lemma_walk_37890() ensures walk(37890, 38402, 4007) == 4052 { assert(walk(37890, 38402, 4007) == 4052) by(compute_only); }
pub proof fn lemma_upto_38402() ensures tab_in(2, 38402, 0, 4052), pcount(38402) == 4052
{ lemma_walk_37890(); lemma_upto_37890(); lemma_np(); lemma_walk(37890, 38402, 4007); lemma_tab_join(2, 37890, 38402, 0, 4007, 4052); }
pub proof fn lemma_walk_38402() ensures walk(38402, 38914, 4052) == 4098 { assert(walk(38402, 38914, 4052) == 4098) by(compute_only); }
pub proof fn lemma_upto_38914() ensures tab_in(2, 38914, 0, 4098), pcount(38914) == 4098
{ lemma_walk_38402(); lemma_upto_38402(); lemma_np(); lemma_walk(38402, 38914, 4052); lemma_tab_join(2, 38402, 38914, 0, 4052, 4098); }
pub proof fn lemma_walk_38914() ensures walk(38914, 39426, 4098) == 4150 { assert(walk(38914, 39426, 4098) == 4150) by(compute_only); }
pub proof fn lemma_upto_39426() ensures tab_in(2, 39426, 0, 4150), pcount(39426) == 4150
{ lemma_walk_38914(); lemma_upto_38914(); lemma_np(); lemma_walk(38914, 39426, 4098); lemma_tab_join(2, 38914, 39426, 0, 4098, 4150); }
pub proof fn lemma_walk_39426() ensures walk(39426, 39938, 4150) == 4198 { assert(walk(39426, 39938, 4150) == 4198) by(compute_only); }
pub proof fn lemma_upto_39938() ensures tab_in(2, 39938, 0, 4198), pcount(39938) == 4198
{ lemma_walk_39426(); lemma_upto_39426(); lemma_np(); lemma_walk(39426, 39938, 4150); lemma_tab_join(2, 39426, 39938, 0, 4150, 4198); }
pub proof fn lemma_walk_39938() ensures walk(39938, 40450, 4198) == 4240 { assert(walk(39938, 40450, 4198) == 4240) by(compute_only); }
pub proof fn lemma_upto_40450() ensures tab_in(2, 40450, 0, 4240), pcount(40450) == 4240
{ lemma_walk_39938(); lemma_upto_39938(); lemma_np(); lemma_walk(39938, 40450, 4198); lemma_tab_join(2, 39938, 40450, 0, 4198, 4240); }
pub proof fn lemma_walk_40450() ensures walk(40450, 40962, 4240) == 4289 { assert(walk(40450, 40962, 4240) == 4289) by(compute_only); }
pub proof fn lemma_upto_40962() ensures tab_in(2, 40962, 0, 4289), pcount(40962) == 4289
{ lemma_walk_40450(); lemma_upto_40450(); lemma_np(); lemma_walk(40450, 40962, 4240); lemma_tab_join(2, 40450, 40962, 0, 4240, 4289); }
pub proof fn lemma_walk_40962() ensures walk(40962, 41474, 4289) == 4337 { assert(walk(40962, 41474, 4289) == 4337) by(compute_only); }
pub proof fn lemma_upto_41474() ensures tab_in(2, 41474, 0, 4337), pcount(41474) == 4337
{ lemma_walk_40962(); lemma_upto_40962(); lemma_np(); lemma_walk(40962, 41474, 4289); lemma_tab_join(2, 40962, 41474, 0, 4289, 4337); }
pub proof fn lemma_walk_41474() ensures walk(41474, 41986, 4337) == 4391 { assert(walk(41474, 41986, 4337) == 4391) by(compute_only); }
pub proof fn lemma_upto_41986() ensures tab_in(2, 41986, 0, 4391), pcount(41986) == 4391
{ lemma_walk_41474(); lemma_upto_41474(); lemma_np(); lemma_walk(41474, 41986, 4337); lemma_tab_join(2, 41474, 41986, 0, 4337, 4391); }
pub proof fn lemma_walk_41986() ensures walk(41986, 42498, 4391) == 4446 { assert(walk(41986, 42498, 4391) == 4446) by(compute_only); }
pub proof fn lemma_upto_42498() ensures tab_in(2, 42498, 0, 4446), pcount(42498) == 4446
{ lemma_walk_41986(); lemma_upto_41986(); lemma_np(); lemma_walk(41986, 42498, 4391); lemma_tab_join(2, 41986, 42498, 0, 4391, 4446); }
pub proof fn lemma_walk_42498() ensures walk(42498, 43010, 4446) == 4495 { assert(walk(42498, 43010, 4446) == 4495) by(compute_only); }
pub proof fn lemma_upto_43010() ensures tab_in(2, 43010, 0, 4495), pcount(43010) == 4495
{ lemma_walk_42498(); lemma_upto_42498(); lemma_np(); lemma_walk(42498, 43010, 4446); lemma_tab_join(2, 42498, 43010, 0, 4446, 4495); }
pub proof fn lemma_walk_43010() ensures walk(43010, 43522, 4495) == 4535 { assert(walk(43010, 43522, 4495) == 4535) by(compute_only); }
pub proof fn lemma_upto_43522() ensures tab_in(2, 43522, 0, 4535), pcount(43522) == 4535
{ lemma_walk_43010(); lemma_upto_43010(); lemma_np(); lemma_walk(43010, 43522, 4495); lemma_tab_join(2, 43010, 43522, 0, 4495, 4535); }
pub proof fn lemma_walk_43522() ensures walk(43522, 44034, 4535) == 4583 { assert(walk(43522, 44034, 4535) == 4583) by(compute_only); }
pub proof fn lemma_upto_44034() ensures tab_in(2, 44034, 0, 4583), pcount(44034) == 4583
{ lemma_walk_43522(); lemma_upto_43522(); lemma_np(); lemma_walk(43522, 44034, 4535); lemma_tab_join(2, 43522, 44034, 0, 4535, 4583); }
pub proof fn lemma_walk_44034() ensures walk(44034, 44546, 4583) == 4631 { assert(walk(44034, 44546, 4583) == 4631) by(compute_only); }
pub proof fn lemma_upto_44546() ensures tab_in(2, 44546, 0, 4631), pcount(44546) == 4631
{ lemma_walk_44034(); lemma_upto_44034(); lemma_np(); lemma_walk(44034, 44546, 4583); lemma_tab_join(2, 44034, 44546, 0, 4583, 4631); }
pub proof fn lemma_walk_44546() ensures walk(44546, 45058, 4631) == 4678 { assert(walk(44546, 45058, 4631) == 4678) by(compute_only); }
pub proof fn lemma_upto_45058() ensures tab_in(2, 45058, 0, 4678), pcount(45058) == 4678
{ lemma_walk_44546(); lemma_upto_44546(); lemma_np(); lemma_walk(44546, 45058, 4631); lemma_tab_join(2, 44546, 45058, 0, 4631, 4678); }
pub proof fn lemma_walk_45058() ensures walk(45058, 45570, 4678) == 4724 { assert(walk(45058, 45570, 4678) == 4724) by(compute_only); }
pub proof fn lemma_upto_45570() ensures tab_in(2, 45570, 0, 4724), pcount(45570) == 4724
{ lemma_walk_45058(); lemma_upto_45058(); lemma_np(); lemma_walk(45058, 45570, 4678); lemma_tab_join(2, 45058, 45570, 0, 4678, 4724); }
pub proof fn lemma_walk_45570() ensures walk(45570, 46082, 4724) == 4767 { assert(walk(45570, 46082, 4724) == 4767) by(compute_only); }
pub proof fn lemma_upto_46082() ensures tab_in(2, 46082, 0, 4767), pcount(46082) == 4767
{ lemma_walk_45570(); lemma_upto_45570(); lemma_np(); lemma_walk(45570, 46082, 4724); lemma_tab_join(2, 45570, 46082, 0, 4724, 4767); }
pub proof fn lemma_walk_46082() ensures walk(46082, 46594, 4767) == 4815 { assert(walk(46082, 46594, 4767) == 4815) by(compute_only); }
pub proof fn lemma_upto_46594() ensures tab_in(2, 46594, 0, 4815), pcount(46594) == 4815
{ lemma_walk_46082(); lemma_upto_46082(); lemma_np(); lemma_walk(46082, 46594, 4767); lemma_tab_join(2, 46082, 46594, 0, 4767, 4815); }
pub proof fn lemma_walk_46594() ensures walk(46594, 47106, 4815) == 4858 { assert(walk(46594, 47106, 4815) == 4858) by(compute_only); }
pub proof fn lemma_upto_47106() ensures tab_in(2, 47106, 0, 4858), pcount(47106) == 4858
{ lemma_walk_46594(); lemma_upto_46594(); lemma_np(); lemma_walk(46594, 47106, 4815); lemma_tab_join(2, 46594, 47106, 0, 4815, 4858); }
pub proof fn lemma_walk_47106() ensures walk(47106, 47618, 4858) == 4908 { assert(walk(47106, 47618, 4858) == 4908) by(compute_only); }
pub proof fn lemma_upto_47618() ensures tab_in(2, 47618, 0, 4908), pcount(47618) == 4908
{ lemma_walk_47106(); lemma_upto_47106(); lemma_np(); lemma_walk(47106, 47618, 4858); lemma_tab_join(2, 47106, 47618, 0, 4858, 4908); }
pub proof fn lemma_walk_47618() ensures walk(47618, 48130, 4908) == 4956 { assert(walk(47618, 48130, 4908) == 4956) by(compute_only); }
pub proof fn lemma_upto_48130() ensures tab_in(2, 48130, 0, 4956), pcount(48130) == 4956
{ lemma_walk_47618(); lemma_upto_47618(); lemma_np(); lemma_walk(47618, 48130, 4908); lemma_tab_join(2, 47618, 48130, 0, 4908, 4956); }
pub proof fn lemma_walk_48130() ensures walk(48130, 48642, 4956) == 5002 { assert(walk(48130, 48642, 4956) == 5002) by(compute_only); }
pub proof fn lemma_upto_48642() ensures tab_in(2, 48642, 0, 5002), pcount(48642) == 5002
{ lemma_walk_48130(); lemma_upto_48130(); lemma_np(); lemma_walk(48130, 48642, 4956); lemma_tab_join(2, 48130, 48642, 0, 4956, 5002); }
pub proof fn lemma_walk_48642() ensures walk(48642, 49154, 5002) == 5051 { assert(walk(48642, 49154, 5002) == 5051) by(compute_only); }
pub proof fn lemma_upto_49154() ensures tab_in(2, 49154, 0, 5051), pcount(49154) == 5051
{ lemma_walk_48642(); lemma_upto_48642(); lemma_np(); lemma_walk(48642, 49154, 5002); lemma_tab_join(2, 48642, 49154, 0, 5002, 5051); }
pub proof fn lemma_walk_49154() ensures walk(49154, 49666, 5051) == 5100 { assert(walk(49154, 49666, 5051) == 5100) by(compute_only); }
pub proof fn lemma_upto_49666() ensures tab_in(2, 49666, 0, 5100), pcount(49666) == 5100
{ lemma_walk_49154(); lemma_upto_49154(); lemma_np(); lemma_walk(49154, 49666, 5051); lemma_tab_join(2, 49154, 49666, 0, 5051, 5100); }
pub proof fn lemma_walk_49666() ensures walk(49666, 50178, 5100) == 5153 { assert(walk(49666, 50178, 5100) == 5153) by(compute_only); }
pub proof fn lemma_upto_50178() ensures tab_in(2, 50178, 0, 5153), pcount(50178) == 5153
{ lemma_walk_49666(); lemma_upto_49666(); lemma_np(); lemma_walk(49666, 50178, 5100); lemma_tab_join(2, 49666, 50178, 0, 5100, 5153); }
pub proof fn lemma_walk_50178() ensures walk(50178, 50690, 5153) == 5196 { assert(walk(50178, 50690, 5153) == 5196) by(compute_only); }
pub proof fn lemma_upto_50690() ensures tab_in(2, 50690, 0, 5196), pcount(50690) == 5196
{ lemma_walk_50178(); lemma_upto_50178(); lemma_np(); lemma_walk(50178, 50690, 5153); lemma_tab_join(2, 50178, 50690, 0, 5153, 5196); }
pub proof fn lemma_walk_50690() ensures walk(50690, 51202, 5196) == 5239 { assert(walk(50690, 51202, 5196) == 5239) by(compute_only); }
pub proof fn lemma_upto_51202() ensures tab_in(2, 51202, 0, 5239), pcount(51202) == 5239
{ lemma_walk_50690(); lemma_upto_50690(); lemma_np(); lemma_walk(50690, 51202, 5196); lemma_tab_join(2, 50690, 51202, 0, 5196, 5239); }
pub proof fn lemma_walk_51202() ensures walk(51202, 51714, 5239) == 5292 { assert(walk(51202, 51714, 5239) == 5292) by(compute_only); }
pub proof fn lemma_upto_51714() ensures tab_in(2, 51714, 0, 5292), pcount(51714) == 5292
{ lemma_walk_51202(); lemma_upto_51202(); lemma_np(); lemma_walk(51202, 51714, 5239); lemma_tab_join(2, 51202, 51714, 0, 5239, 5292); }
pub proof fn lemma_walk_51714() ensures walk(51714, 52226, 5292) == 5339 { assert(walk(51714, 52226, 5292) == 5339) by(compute_only); }
pub proof fn lemma_upto_52226() ensures tab_in(2, 52226, 0, 5339), pcount(52226) == 5339
{ lemma_walk_51714(); lemma_upto_51714(); lemma_np(); lemma_walk(51714, 52226, 5292); lemma_tab_join(2, 51714, 52226, 0, 5292, 5339); }
pub proof fn lemma_walk_52226() ensures walk(52226, 52738, 5339) == 5384 { assert(walk(52226, 52738, 5339) == 5384) by(compute_only); }
pub proof fn lemma_upto_52738() ensures tab_in(2, 52738, 0, 5384), pcount(52738) == 5384
{ lemma_walk_52226(); lemma_upto_52226(); lemma_np(); lemma_walk(52226, 52738, 5339); lemma_tab_join(2, 52226, 52738, 0, 5339, 5384); }
pub proof fn lemma_walk_52738() ensures walk(52738, 53250, 5384) == 5432 { assert(walk(52738, 53250, 5384) == 5432) by(compute_only); }
pub proof fn lemma_upto_53250() ensures tab_in(2, 53250, 0, 5432), pcount(53250) == 5432
{ lemma_walk_52738(); lemma_upto_52738(); lemma_np(); lemma_walk(52738, 53250, 5384); lemma_tab_join(2, 52738, 53250, 0, 5384, 5432); }
pub proof fn lemma_walk_53250() ensures walk(53250, 53762, 5432) == 5477 { assert(walk(53250, 53762, 5432) == 5477) by(compute_only); }
pub proof fn lemma_upto_53762() ensures tab_in(2, 53762, 0, 5477), pcount(53762) == 5477
{ lemma_walk_53250(); lemma_upto_53250(); lemma_np(); lemma_walk(53250, 53762, 5432); lemma_tab_join(2, 53250, 53762, 0, 5432, 5477); }
pub proof fn lemma_walk_53762() ensures walk(53762, 54274, 5477) == 5520 { assert(walk(53762, 54274, 5477) == 5520) by(compute_only); }
pub proof fn lemma_upto_54274() ensures tab_in(2, 54274, 0, 5520), pcount(54274) == 5520
{ lemma_walk_53762(); lemma_upto_53762(); lemma_np(); lemma_walk(53762, 54274, 5477); lemma_tab_join(2, 53762, 54274, 0, 5477, 5520); }
pub proof fn lemma_walk_54274() ensures walk(54274, 54786, 5520) == 5573 { assert(walk(54274, 54786, 5520) == 5573) by(compute_only); }
pub proof fn lemma_upto_54786() ensures tab_in(2, 54786, 0, 5573), pcount(54786) == 5573
{ lemma_walk_54274(); lemma_upto_54274(); lemma_np(); lemma_walk(54274, 54786, 5520); lemma_tab_join(2, 54274, 54786, 0, 5520, 5573); }
pub proof fn lemma_walk_54786() ensures walk(54786, 55298, 5573) == 5616 { assert(walk(54786, 55298, 5573) == 5616) by(compute_only); }
pub proof fn lemma_upto_55298() ensures tab_in(2, 55298, 0, 5616), pcount(55298) == 5616
{ lemma_walk_54786(); lemma_upto_54786(); lemma_np(); lemma_walk(54786, 55298, 5573); lemma_tab_join(2, 54786, 55298, 0, 5573, 5616); }
pub proof fn lemma_walk_55298() ensures walk(55298, 55810, 5616) == 5662 { assert(walk(55298, 55810, 5616) == 5662) by(compute_only); }
pub proof fn lemma_upto_55810() ensures tab_in(2, 55810, 0, 5662), pcount(55810) == 5662
{ lemma_walk_55298(); lemma_upto_55298(); lemma_np(); lemma_walk(55298, 55810, 5616); lemma_tab_join(2, 55298, 55810, 0, 5616, 5662); }
pub proof fn lemma_walk_55810() ensures walk(55810, 56322, 5662) == 5711 { assert(walk(55810, 56322, 5662) == 5711) by(compute_only); }
pub proof fn lemma_upto_56322() ensures tab_in(2, 56322, 0, 5711), pcount(56322) == 5711
{ lemma_walk_55810(); lemma_upto_55810(); lemma_np(); lemma_walk(55810, 56322, 5662); lemma_tab_join(2, 55810, 56322, 0, 5662, 5711); }
pub proof fn lemma_walk_56322() ensures walk(56322, 56834, 5711) == 5763 { assert(walk(56322, 56834, 5711) == 5763) by(compute_only); }
pub proof fn lemma_upto_56834() ensures tab_in(2, 56834, 0, 5763), pcount(56834) == 5763
{ lemma_walk_56322(); lemma_upto_56322(); lemma_np(); lemma_walk(56322, 56834, 5711); lemma_tab_join(2, 56322, 56834, 0, 5711, 5763); }
pub proof fn lemma_walk_56834() ensures walk(56834, 57346, 5763) == 5814 { assert(walk(56834, 57346, 5763) == 5814) by(compute_only); }
pub proof fn lemma_upto_57346() ensures tab_in(2, 57346, 0, 5814), pcount(57346) == 5814
{ lemma_walk_56834(); lemma_upto_56834(); lemma_np(); lemma_walk(56834, 57346, 5763); lemma_tab_join(2, 56834, 57346, 0, 5763, 5814); }
pub proof fn lemma_walk_57346() ensures walk(57346, 57858, 5814) == 5862 { assert(walk(57346, 57858, 5814) == 5862) by(compute_only); }
pub proof fn lemma_upto_57858() ensures tab_in(2, 57858, 0, 5862), pcount(57858) == 5862
{ lemma_walk_57346(); lemma_upto_57346(); lemma_np(); lemma_walk(57346, 57858, 5814); lemma_tab_join(2, 57346, 57858, 0, 5814, 5862); }
pub proof fn lemma_walk_57858() ensures walk(57858, 58370, 5862) == 5909 { assert(walk(57858, 58370, 5862) == 5909) by(compute_only); }
pub proof fn lemma_upto_58370() ensures tab_in(2, 58370, 0, 5909), pcount(58370) == 5909
{ lemma_walk_57858(); lemma_upto_57858(); lemma_np(); lemma_walk(57858, 58370, 5862); lemma_tab_join(2, 57858, 58370, 0, 5862, 5909); }
pub proof fn lemma_walk_58370() ensures walk(58370, 58882, 5909) == 5949 { assert(walk(58370, 58882, 5909) == 5949) by(compute_only); }
pub proof fn lemma_upto_58882() ensures tab_in(2, 58882, 0, 5949), pcount(58882) == 5949
{ lemma_walk_58370(); lemma_upto_58370(); lemma_np(); lemma_walk(58370, 58882, 5909); lemma_tab_join(2, 58370, 58882, 0, 5909, 5949); }
pub proof fn lemma_walk_58882() ensures walk(58882, 59394, 5949) == 6004 { assert(walk(58882, 59394, 5949) == 6004) by(compute_only); }
pub proof fn lemma_upto_59394() ensures tab_in(2, 59394, 0, 6004), pcount(59394) == 6004
{ lemma_walk_58882(); lemma_upto_58882(); lemma_np(); lemma_walk(58882, 59394, 5949); lemma_tab_join(2, 58882, 59394, 0, 5949, 6004); }
pub proof fn lemma_walk_59394() ensures walk(59394, 59906, 6004) == 6050 { assert(walk(59394, 59906, 6004) == 6050) by(compute_only); }
pub proof fn lemma_upto_59906() ensures tab_in(2, 59906, 0, 6050), pcount(59906) == 6050
{ lemma_walk_59394(); lemma_upto_59394(); lemma_np(); lemma_walk(59394, 59906, 6004); lemma_tab_join(2, 59394, 59906, 0, 6004, 6050); }
pub proof fn lemma_walk_59906() ensures walk(59906, 60418, 6050) == 6094 { assert(walk(59906, 60418, 6050) == 6094) by(compute_only); }
pub proof fn lemma_upto_60418() ensures tab_in(2, 60418, 0, 6094), pcount(60418) == 6094
{ lemma_walk_59906(); lemma_upto_59906(); lemma_np(); lemma_walk(59906, 60418, 6050); lemma_tab_join(2, 59906, 60418, 0, 6050, 6094); }
pub proof fn lemma_walk_60418() ensures walk(60418, 60930, 6094) == 6141 { assert(walk(60418, 60930, 6094) == 6141) by(compute_only); }
pub proof fn lemma_upto_60930() ensures tab_in(2, 60930, 0, 6141), pcount(60930) == 6141
{ lemma_walk_60418(); lemma_upto_60418(); lemma_np(); lemma_walk(60418, 60930, 6094); lemma_tab_join(2, 60418, 60930, 0, 6094, 6141); }
pub proof fn lemma_walk_60930() ensures walk(60930, 61442, 6141) == 6180 { assert(walk(60930, 61442, 6141) == 6180) by(compute_only); }
pub proof fn lemma_upto_61442() ensures tab_in(2, 61442, 0, 6180), pcount(61442) == 6180
{ lemma_walk_60930(); lemma_upto_60930(); lemma_np(); lemma_walk(60930, 61442, 6141); lemma_tab_join(2, 60930, 61442, 0, 6141, 6180); }
pub proof fn lemma_walk_61442() ensures walk(61442, 61954, 6180) == 6226 { assert(walk(61442, 61954, 6180) == 6226) by(compute_only); }
pub proof fn lemma_upto_61954() ensures tab_in(2, 61954, 0, 6226), pcount(61954) == 6226
{ lemma_walk_61442(); lemma_upto_61442(); lemma_np(); lemma_walk(61442, 61954, 6180); lemma_tab_join(2, 61442, 61954, 0, 6180, 6226); }
pub proof fn lemma_walk_61954() ensures walk(61954, 62466, 6226) == 6270 { assert(walk(61954, 62466, 6226) == 6270) by(compute_only); }
pub proof fn lemma_upto_62466() ensures tab_in(2, 62466, 0, 6270), pcount(62466) == 6270
{ lemma_walk_61954(); lemma_upto_61954(); lemma_np(); lemma_walk(61954, 62466, 6226); lemma_tab_join(2, 61954, 62466, 0, 6226, 6270); }
pub proof fn lemma_walk_62466() ensures walk(62466, 62978, 6270) == 6316 { assert(walk(62466, 62978, 6270) == 6316) by(compute_only); }
pub proof fn lemma_upto_62978() ensures tab_in(2, 62978, 0, 6316), pcount(62978) == 6316
{ lemma_walk_62466(); lemma_upto_62466(); lemma_np(); lemma_walk(62466, 62978, 6270); lemma_tab_join(2, 62466, 62978, 0, 6270, 6316); }
pub proof fn lemma_walk_62978() ensures walk(62978, 63490, 6316) == 6363 { assert(walk(62978, 63490, 6316) == 6363) by(compute_only); }
pub proof fn lemma_upto_63490() ensures tab_in(2, 63490, 0, 6363), pcount(63490) == 6363
{ lemma_walk_62978(); lemma_upto_62978(); lemma_np(); lemma_walk(62978, 63490, 6316); lemma_tab_join(2, 62978, 63490, 0, 6316, 6363); }
pub proof fn lemma_walk_63490() ensures walk(63490, 64002, 6363) == 6413 { assert(walk(63490, 64002, 6363) == 6413) by(compute_only); }
pub proof fn lemma_upto_64002() ensures tab_in(2, 64002, 0, 6413), pcount(64002) == 6413
{ lemma_walk_63490(); lemma_upto_63490(); lemma_np(); lemma_walk(63490, 64002, 6363); lemma_tab_join(2, 63490, 64002, 0, 6363, 6413); }
pub proof fn lemma_walk_64002() ensures walk(64002, 64514, 6413) == 6454 { assert(walk(64002, 64514, 6413) == 6454) by(compute_only); }
pub proof fn lemma_upto_64514() ensures tab_in(2, 64514, 0, 6454), pcount(64514) == 6454
{ lemma_walk_64002(); lemma_upto_64002(); lemma_np(); lemma_walk(64002, 64514, 6413); lemma_tab_join(2, 64002, 64514, 0, 6413, 6454); }
pub proof fn lemma_walk_64514() ensures walk(64514, 65026, 6454) == 6495 { assert(walk(64514, 65026, 6454) == 6495) by(compute_only); }
pub proof fn lemma_upto_65026() ensures tab_in(2, 65026, 0, 6495), pcount(65026) == 6495
{ lemma_walk_64514(); lemma_upto_64514(); lemma_np(); lemma_walk(64514, 65026, 6454); lemma_tab_join(2, 64514, 65026, 0, 6454, 6495); }
pub proof fn lemma_walk_65026() ensures walk(65026, 65536, 6495) == 6542 { assert(walk(65026, 65536, 6495) == 6542) by(compute_only); }
pub proof fn lemma_upto_65536() ensures tab_in(2, 65536, 0, 6542), pcount(65536) == 6542
{ lemma_walk_65026(); lemma_upto_65026(); lemma_np(); lemma_walk(65026, 65536, 6495); lemma_tab_join(2, 65026, 65536, 0, 6495, 6542); }
pub proof fn lemma_np() ensures np() == 6542 { }
