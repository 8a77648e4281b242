---------------------------- MODULE CosTable ----------------------------
(* CosTab[k+1] = round(10^6 cos(2 pi k / 4096)), k = 0..4096.  The table is
   data; Num.tla states (ASSUME) the identities that pin it down. *)
EXTENDS Integers

CosTab == <<
  1000000, 999999, 999995, 999989, 999981, 999971, 999958, 999942, 999925, 999905, 999882, 999858,
  999831, 999801, 999769, 999735, 999699, 999660, 999619, 999575, 999529, 999481, 999431, 999378,
  999322, 999265, 999205, 999142, 999078, 999011, 998941, 998870, 998795, 998719, 998640, 998559,
  998476, 998390, 998302, 998211, 998118, 998023, 997925, 997825, 997723, 997618, 997511, 997402,
  997290, 997176, 997060, 996941, 996820, 996697, 996571, 996443, 996313, 996180, 996045, 995907,
  995767, 995625, 995481, 995334, 995185, 995033, 994879, 994723, 994565, 994404, 994240, 994075,
  993907, 993737, 993564, 993389, 993212, 993032, 992850, 992666, 992480, 992291, 992099, 991906,
  991710, 991511, 991311, 991108, 990903, 990695, 990485, 990273, 990058, 989841, 989622, 989400,
  989177, 988950, 988722, 988491, 988258, 988022, 987784, 987544, 987301, 987057, 986809, 986560,
  986308, 986054, 985798, 985539, 985278, 985014, 984749, 984480, 984210, 983937, 983662, 983385,
  983105, 982824, 982539, 982253, 981964, 981673, 981379, 981083, 980785, 980485, 980182, 979877,
  979570, 979260, 978948, 978634, 978317, 977999, 977677, 977354, 977028, 976700, 976370, 976037,
  975702, 975365, 975025, 974684, 974339, 973993, 973644, 973293, 972940, 972584, 972226, 971866,
  971504, 971139, 970772, 970403, 970031, 969657, 969281, 968903, 968522, 968139, 967754, 967366,
  966976, 966584, 966190, 965793, 965394, 964993, 964590, 964184, 963776, 963366, 962953, 962538,
  962121, 961702, 961280, 960857, 960431, 960002, 959572, 959139, 958703, 958266, 957826, 957385,
  956940, 956494, 956045, 955594, 955141, 954686, 954228, 953768, 953306, 952842, 952375, 951906,
  951435, 950962, 950486, 950008, 949528, 949046, 948561, 948075, 947586, 947094, 946601, 946105,
  945607, 945107, 944605, 944100, 943593, 943084, 942573, 942060, 941544, 941026, 940506, 939984,
  939459, 938932, 938404, 937872, 937339, 936803, 936266, 935726, 935184, 934639, 934093, 933544,
  932993, 932440, 931884, 931327, 930767, 930205, 929641, 929075, 928506, 927935, 927363, 926787,
  926210, 925631, 925049, 924465, 923880, 923291, 922701, 922109, 921514, 920917, 920318, 919717,
  919114, 918508, 917901, 917291, 916679, 916065, 915449, 914830, 914210, 913587, 912962, 912335,
  911706, 911075, 910441, 909806, 909168, 908528, 907886, 907242, 906596, 905947, 905297, 904644,
  903989, 903332, 902673, 902012, 901349, 900683, 900016, 899346, 898674, 898001, 897325, 896646,
  895966, 895284, 894599, 893913, 893224, 892534, 891841, 891146, 890449, 889750, 889048, 888345,
  887640, 886932, 886223, 885511, 884797, 884081, 883363, 882643, 881921, 881197, 880471, 879743,
  879012, 878280, 877545, 876809, 876070, 875329, 874587, 873842, 873095, 872346, 871595, 870842,
  870087, 869330, 868571, 867809, 867046, 866281, 865514, 864744, 863973, 863199, 862424, 861646,
  860867, 860085, 859302, 858516, 857729, 856939, 856147, 855354, 854558, 853760, 852961, 852159,
  851355, 850549, 849742, 848932, 848120, 847307, 846491, 845673, 844854, 844032, 843208, 842383,
  841555, 840725, 839894, 839060, 838225, 837387, 836548, 835706, 834863, 834018, 833170, 832321,
  831470, 830616, 829761, 828904, 828045, 827184, 826321, 825456, 824589, 823721, 822850, 821977,
  821103, 820226, 819348, 818467, 817585, 816701, 815814, 814926, 814036, 813144, 812251, 811355,
  810457, 809558, 808656, 807753, 806848, 805940, 805031, 804120, 803208, 802293, 801376, 800458,
  799537, 798615, 797691, 796765, 795837, 794907, 793975, 793042, 792107, 791169, 790230, 789289,
  788346, 787402, 786455, 785507, 784557, 783605, 782651, 781695, 780737, 779778, 778817, 777853,
  776888, 775922, 774953, 773983, 773010, 772036, 771061, 770083, 769103, 768122, 767139, 766154,
  765167, 764179, 763188, 762196, 761202, 760207, 759209, 758210, 757209, 756206, 755201, 754195,
  753187, 752177, 751165, 750152, 749136, 748119, 747101, 746080, 745058, 744034, 743008, 741980,
  740951, 739920, 738887, 737853, 736817, 735779, 734739, 733697, 732654, 731609, 730563, 729514,
  728464, 727413, 726359, 725304, 724247, 723188, 722128, 721066, 720003, 718937, 717870, 716801,
  715731, 714659, 713585, 712509, 711432, 710353, 709273, 708191, 707107, 706021, 704934, 703845,
  702755, 701663, 700569, 699473, 698376, 697278, 696177, 695075, 693971, 692866, 691759, 690651,
  689541, 688429, 687315, 686200, 685084, 683965, 682846, 681724, 680601, 679476, 678350, 677222,
  676093, 674962, 673829, 672695, 671559, 670422, 669283, 668142, 667000, 665856, 664711, 663564,
  662416, 661266, 660114, 658961, 657807, 656651, 655493, 654334, 653173, 652011, 650847, 649681,
  648514, 647346, 646176, 645005, 643832, 642657, 641481, 640303, 639124, 637944, 636762, 635578,
  634393, 633207, 632019, 630829, 629638, 628446, 627252, 626056, 624859, 623661, 622461, 621260,
  620057, 618853, 617647, 616440, 615232, 614022, 612810, 611597, 610383, 609167, 607950, 606731,
  605511, 604290, 603067, 601842, 600616, 599389, 598161, 596931, 595699, 594466, 593232, 591997,
  590760, 589521, 588282, 587040, 585798, 584554, 583309, 582062, 580814, 579565, 578314, 577062,
  575808, 574553, 573297, 572040, 570781, 569521, 568259, 566996, 565732, 564466, 563199, 561931,
  560662, 559391, 558119, 556845, 555570, 554294, 553017, 551738, 550458, 549177, 547894, 546610,
  545325, 544039, 542751, 541462, 540171, 538880, 537587, 536293, 534998, 533701, 532403, 531104,
  529804, 528502, 527199, 525895, 524590, 523283, 521975, 520666, 519356, 518045, 516732, 515418,
  514103, 512786, 511469, 510150, 508830, 507509, 506187, 504863, 503538, 502212, 500885, 499557,
  498228, 496897, 495565, 494232, 492898, 491563, 490226, 488889, 487550, 486210, 484869, 483527,
  482184, 480839, 479494, 478147, 476799, 475450, 474100, 472749, 471397, 470043, 468689, 467333,
  465976, 464619, 463260, 461900, 460539, 459177, 457813, 456449, 455084, 453717, 452350, 450981,
  449611, 448241, 446869, 445496, 444122, 442747, 441371, 439994, 438616, 437237, 435857, 434476,
  433094, 431711, 430326, 428941, 427555, 426168, 424780, 423390, 422000, 420609, 419217, 417824,
  416430, 415034, 413638, 412241, 410843, 409444, 408044, 406643, 405241, 403838, 402435, 401030,
  399624, 398218, 396810, 395401, 393992, 392582, 391170, 389758, 388345, 386931, 385516, 384100,
  382683, 381266, 379847, 378428, 377007, 375586, 374164, 372741, 371317, 369892, 368467, 367040,
  365613, 364185, 362756, 361326, 359895, 358463, 357031, 355598, 354164, 352729, 351293, 349856,
  348419, 346980, 345541, 344101, 342661, 341219, 339777, 338334, 336890, 335445, 334000, 332553,
  331106, 329658, 328210, 326760, 325310, 323859, 322408, 320955, 319502, 318048, 316593, 315138,
  313682, 312225, 310767, 309309, 307850, 306390, 304929, 303468, 302006, 300543, 299080, 297616,
  296151, 294685, 293219, 291752, 290285, 288816, 287347, 285878, 284408, 282937, 281465, 279993,
  278520, 277046, 275572, 274097, 272621, 271145, 269668, 268191, 266713, 265234, 263755, 262275,
  260794, 259313, 257831, 256349, 254866, 253382, 251898, 250413, 248928, 247442, 245955, 244468,
  242980, 241492, 240003, 238514, 237024, 235533, 234042, 232550, 231058, 229565, 228072, 226578,
  225084, 223589, 222094, 220598, 219101, 217604, 216107, 214609, 213110, 211611, 210112, 208612,
  207111, 205610, 204109, 202607, 201105, 199602, 198098, 196595, 195090, 193586, 192080, 190575,
  189069, 187562, 186055, 184548, 183040, 181532, 180023, 178514, 177004, 175494, 173984, 172473,
  170962, 169450, 167938, 166426, 164913, 163400, 161886, 160372, 158858, 157343, 155828, 154313,
  152797, 151281, 149765, 148248, 146730, 145213, 143695, 142177, 140658, 139139, 137620, 136101,
  134581, 133061, 131540, 130019, 128498, 126977, 125455, 123933, 122411, 120888, 119365, 117842,
  116319, 114795, 113271, 111747, 110222, 108697, 107172, 105647, 104122, 102596, 101070, 99544,
  98017, 96490, 94963, 93436, 91909, 90381, 88854, 87326, 85797, 84269, 82740, 81211,
  79682, 78153, 76624, 75094, 73565, 72035, 70505, 68974, 67444, 65913, 64383, 62852,
  61321, 59790, 58258, 56727, 55195, 53664, 52132, 50600, 49068, 47535, 46003, 44471,
  42938, 41406, 39873, 38340, 36807, 35274, 33741, 32208, 30675, 29142, 27608, 26075,
  24541, 23008, 21474, 19940, 18407, 16873, 15339, 13805, 12272, 10738, 9204, 7670,
  6136, 4602, 3068, 1534, 0, -1534, -3068, -4602, -6136, -7670, -9204, -10738,
  -12272, -13805, -15339, -16873, -18407, -19940, -21474, -23008, -24541, -26075, -27608, -29142,
  -30675, -32208, -33741, -35274, -36807, -38340, -39873, -41406, -42938, -44471, -46003, -47535,
  -49068, -50600, -52132, -53664, -55195, -56727, -58258, -59790, -61321, -62852, -64383, -65913,
  -67444, -68974, -70505, -72035, -73565, -75094, -76624, -78153, -79682, -81211, -82740, -84269,
  -85797, -87326, -88854, -90381, -91909, -93436, -94963, -96490, -98017, -99544, -101070, -102596,
  -104122, -105647, -107172, -108697, -110222, -111747, -113271, -114795, -116319, -117842, -119365, -120888,
  -122411, -123933, -125455, -126977, -128498, -130019, -131540, -133061, -134581, -136101, -137620, -139139,
  -140658, -142177, -143695, -145213, -146730, -148248, -149765, -151281, -152797, -154313, -155828, -157343,
  -158858, -160372, -161886, -163400, -164913, -166426, -167938, -169450, -170962, -172473, -173984, -175494,
  -177004, -178514, -180023, -181532, -183040, -184548, -186055, -187562, -189069, -190575, -192080, -193586,
  -195090, -196595, -198098, -199602, -201105, -202607, -204109, -205610, -207111, -208612, -210112, -211611,
  -213110, -214609, -216107, -217604, -219101, -220598, -222094, -223589, -225084, -226578, -228072, -229565,
  -231058, -232550, -234042, -235533, -237024, -238514, -240003, -241492, -242980, -244468, -245955, -247442,
  -248928, -250413, -251898, -253382, -254866, -256349, -257831, -259313, -260794, -262275, -263755, -265234,
  -266713, -268191, -269668, -271145, -272621, -274097, -275572, -277046, -278520, -279993, -281465, -282937,
  -284408, -285878, -287347, -288816, -290285, -291752, -293219, -294685, -296151, -297616, -299080, -300543,
  -302006, -303468, -304929, -306390, -307850, -309309, -310767, -312225, -313682, -315138, -316593, -318048,
  -319502, -320955, -322408, -323859, -325310, -326760, -328210, -329658, -331106, -332553, -334000, -335445,
  -336890, -338334, -339777, -341219, -342661, -344101, -345541, -346980, -348419, -349856, -351293, -352729,
  -354164, -355598, -357031, -358463, -359895, -361326, -362756, -364185, -365613, -367040, -368467, -369892,
  -371317, -372741, -374164, -375586, -377007, -378428, -379847, -381266, -382683, -384100, -385516, -386931,
  -388345, -389758, -391170, -392582, -393992, -395401, -396810, -398218, -399624, -401030, -402435, -403838,
  -405241, -406643, -408044, -409444, -410843, -412241, -413638, -415034, -416430, -417824, -419217, -420609,
  -422000, -423390, -424780, -426168, -427555, -428941, -430326, -431711, -433094, -434476, -435857, -437237,
  -438616, -439994, -441371, -442747, -444122, -445496, -446869, -448241, -449611, -450981, -452350, -453717,
  -455084, -456449, -457813, -459177, -460539, -461900, -463260, -464619, -465976, -467333, -468689, -470043,
  -471397, -472749, -474100, -475450, -476799, -478147, -479494, -480839, -482184, -483527, -484869, -486210,
  -487550, -488889, -490226, -491563, -492898, -494232, -495565, -496897, -498228, -499557, -500885, -502212,
  -503538, -504863, -506187, -507509, -508830, -510150, -511469, -512786, -514103, -515418, -516732, -518045,
  -519356, -520666, -521975, -523283, -524590, -525895, -527199, -528502, -529804, -531104, -532403, -533701,
  -534998, -536293, -537587, -538880, -540171, -541462, -542751, -544039, -545325, -546610, -547894, -549177,
  -550458, -551738, -553017, -554294, -555570, -556845, -558119, -559391, -560662, -561931, -563199, -564466,
  -565732, -566996, -568259, -569521, -570781, -572040, -573297, -574553, -575808, -577062, -578314, -579565,
  -580814, -582062, -583309, -584554, -585798, -587040, -588282, -589521, -590760, -591997, -593232, -594466,
  -595699, -596931, -598161, -599389, -600616, -601842, -603067, -604290, -605511, -606731, -607950, -609167,
  -610383, -611597, -612810, -614022, -615232, -616440, -617647, -618853, -620057, -621260, -622461, -623661,
  -624859, -626056, -627252, -628446, -629638, -630829, -632019, -633207, -634393, -635578, -636762, -637944,
  -639124, -640303, -641481, -642657, -643832, -645005, -646176, -647346, -648514, -649681, -650847, -652011,
  -653173, -654334, -655493, -656651, -657807, -658961, -660114, -661266, -662416, -663564, -664711, -665856,
  -667000, -668142, -669283, -670422, -671559, -672695, -673829, -674962, -676093, -677222, -678350, -679476,
  -680601, -681724, -682846, -683965, -685084, -686200, -687315, -688429, -689541, -690651, -691759, -692866,
  -693971, -695075, -696177, -697278, -698376, -699473, -700569, -701663, -702755, -703845, -704934, -706021,
  -707107, -708191, -709273, -710353, -711432, -712509, -713585, -714659, -715731, -716801, -717870, -718937,
  -720003, -721066, -722128, -723188, -724247, -725304, -726359, -727413, -728464, -729514, -730563, -731609,
  -732654, -733697, -734739, -735779, -736817, -737853, -738887, -739920, -740951, -741980, -743008, -744034,
  -745058, -746080, -747101, -748119, -749136, -750152, -751165, -752177, -753187, -754195, -755201, -756206,
  -757209, -758210, -759209, -760207, -761202, -762196, -763188, -764179, -765167, -766154, -767139, -768122,
  -769103, -770083, -771061, -772036, -773010, -773983, -774953, -775922, -776888, -777853, -778817, -779778,
  -780737, -781695, -782651, -783605, -784557, -785507, -786455, -787402, -788346, -789289, -790230, -791169,
  -792107, -793042, -793975, -794907, -795837, -796765, -797691, -798615, -799537, -800458, -801376, -802293,
  -803208, -804120, -805031, -805940, -806848, -807753, -808656, -809558, -810457, -811355, -812251, -813144,
  -814036, -814926, -815814, -816701, -817585, -818467, -819348, -820226, -821103, -821977, -822850, -823721,
  -824589, -825456, -826321, -827184, -828045, -828904, -829761, -830616, -831470, -832321, -833170, -834018,
  -834863, -835706, -836548, -837387, -838225, -839060, -839894, -840725, -841555, -842383, -843208, -844032,
  -844854, -845673, -846491, -847307, -848120, -848932, -849742, -850549, -851355, -852159, -852961, -853760,
  -854558, -855354, -856147, -856939, -857729, -858516, -859302, -860085, -860867, -861646, -862424, -863199,
  -863973, -864744, -865514, -866281, -867046, -867809, -868571, -869330, -870087, -870842, -871595, -872346,
  -873095, -873842, -874587, -875329, -876070, -876809, -877545, -878280, -879012, -879743, -880471, -881197,
  -881921, -882643, -883363, -884081, -884797, -885511, -886223, -886932, -887640, -888345, -889048, -889750,
  -890449, -891146, -891841, -892534, -893224, -893913, -894599, -895284, -895966, -896646, -897325, -898001,
  -898674, -899346, -900016, -900683, -901349, -902012, -902673, -903332, -903989, -904644, -905297, -905947,
  -906596, -907242, -907886, -908528, -909168, -909806, -910441, -911075, -911706, -912335, -912962, -913587,
  -914210, -914830, -915449, -916065, -916679, -917291, -917901, -918508, -919114, -919717, -920318, -920917,
  -921514, -922109, -922701, -923291, -923880, -924465, -925049, -925631, -926210, -926787, -927363, -927935,
  -928506, -929075, -929641, -930205, -930767, -931327, -931884, -932440, -932993, -933544, -934093, -934639,
  -935184, -935726, -936266, -936803, -937339, -937872, -938404, -938932, -939459, -939984, -940506, -941026,
  -941544, -942060, -942573, -943084, -943593, -944100, -944605, -945107, -945607, -946105, -946601, -947094,
  -947586, -948075, -948561, -949046, -949528, -950008, -950486, -950962, -951435, -951906, -952375, -952842,
  -953306, -953768, -954228, -954686, -955141, -955594, -956045, -956494, -956940, -957385, -957826, -958266,
  -958703, -959139, -959572, -960002, -960431, -960857, -961280, -961702, -962121, -962538, -962953, -963366,
  -963776, -964184, -964590, -964993, -965394, -965793, -966190, -966584, -966976, -967366, -967754, -968139,
  -968522, -968903, -969281, -969657, -970031, -970403, -970772, -971139, -971504, -971866, -972226, -972584,
  -972940, -973293, -973644, -973993, -974339, -974684, -975025, -975365, -975702, -976037, -976370, -976700,
  -977028, -977354, -977677, -977999, -978317, -978634, -978948, -979260, -979570, -979877, -980182, -980485,
  -980785, -981083, -981379, -981673, -981964, -982253, -982539, -982824, -983105, -983385, -983662, -983937,
  -984210, -984480, -984749, -985014, -985278, -985539, -985798, -986054, -986308, -986560, -986809, -987057,
  -987301, -987544, -987784, -988022, -988258, -988491, -988722, -988950, -989177, -989400, -989622, -989841,
  -990058, -990273, -990485, -990695, -990903, -991108, -991311, -991511, -991710, -991906, -992099, -992291,
  -992480, -992666, -992850, -993032, -993212, -993389, -993564, -993737, -993907, -994075, -994240, -994404,
  -994565, -994723, -994879, -995033, -995185, -995334, -995481, -995625, -995767, -995907, -996045, -996180,
  -996313, -996443, -996571, -996697, -996820, -996941, -997060, -997176, -997290, -997402, -997511, -997618,
  -997723, -997825, -997925, -998023, -998118, -998211, -998302, -998390, -998476, -998559, -998640, -998719,
  -998795, -998870, -998941, -999011, -999078, -999142, -999205, -999265, -999322, -999378, -999431, -999481,
  -999529, -999575, -999619, -999660, -999699, -999735, -999769, -999801, -999831, -999858, -999882, -999905,
  -999925, -999942, -999958, -999971, -999981, -999989, -999995, -999999, -1000000, -999999, -999995, -999989,
  -999981, -999971, -999958, -999942, -999925, -999905, -999882, -999858, -999831, -999801, -999769, -999735,
  -999699, -999660, -999619, -999575, -999529, -999481, -999431, -999378, -999322, -999265, -999205, -999142,
  -999078, -999011, -998941, -998870, -998795, -998719, -998640, -998559, -998476, -998390, -998302, -998211,
  -998118, -998023, -997925, -997825, -997723, -997618, -997511, -997402, -997290, -997176, -997060, -996941,
  -996820, -996697, -996571, -996443, -996313, -996180, -996045, -995907, -995767, -995625, -995481, -995334,
  -995185, -995033, -994879, -994723, -994565, -994404, -994240, -994075, -993907, -993737, -993564, -993389,
  -993212, -993032, -992850, -992666, -992480, -992291, -992099, -991906, -991710, -991511, -991311, -991108,
  -990903, -990695, -990485, -990273, -990058, -989841, -989622, -989400, -989177, -988950, -988722, -988491,
  -988258, -988022, -987784, -987544, -987301, -987057, -986809, -986560, -986308, -986054, -985798, -985539,
  -985278, -985014, -984749, -984480, -984210, -983937, -983662, -983385, -983105, -982824, -982539, -982253,
  -981964, -981673, -981379, -981083, -980785, -980485, -980182, -979877, -979570, -979260, -978948, -978634,
  -978317, -977999, -977677, -977354, -977028, -976700, -976370, -976037, -975702, -975365, -975025, -974684,
  -974339, -973993, -973644, -973293, -972940, -972584, -972226, -971866, -971504, -971139, -970772, -970403,
  -970031, -969657, -969281, -968903, -968522, -968139, -967754, -967366, -966976, -966584, -966190, -965793,
  -965394, -964993, -964590, -964184, -963776, -963366, -962953, -962538, -962121, -961702, -961280, -960857,
  -960431, -960002, -959572, -959139, -958703, -958266, -957826, -957385, -956940, -956494, -956045, -955594,
  -955141, -954686, -954228, -953768, -953306, -952842, -952375, -951906, -951435, -950962, -950486, -950008,
  -949528, -949046, -948561, -948075, -947586, -947094, -946601, -946105, -945607, -945107, -944605, -944100,
  -943593, -943084, -942573, -942060, -941544, -941026, -940506, -939984, -939459, -938932, -938404, -937872,
  -937339, -936803, -936266, -935726, -935184, -934639, -934093, -933544, -932993, -932440, -931884, -931327,
  -930767, -930205, -929641, -929075, -928506, -927935, -927363, -926787, -926210, -925631, -925049, -924465,
  -923880, -923291, -922701, -922109, -921514, -920917, -920318, -919717, -919114, -918508, -917901, -917291,
  -916679, -916065, -915449, -914830, -914210, -913587, -912962, -912335, -911706, -911075, -910441, -909806,
  -909168, -908528, -907886, -907242, -906596, -905947, -905297, -904644, -903989, -903332, -902673, -902012,
  -901349, -900683, -900016, -899346, -898674, -898001, -897325, -896646, -895966, -895284, -894599, -893913,
  -893224, -892534, -891841, -891146, -890449, -889750, -889048, -888345, -887640, -886932, -886223, -885511,
  -884797, -884081, -883363, -882643, -881921, -881197, -880471, -879743, -879012, -878280, -877545, -876809,
  -876070, -875329, -874587, -873842, -873095, -872346, -871595, -870842, -870087, -869330, -868571, -867809,
  -867046, -866281, -865514, -864744, -863973, -863199, -862424, -861646, -860867, -860085, -859302, -858516,
  -857729, -856939, -856147, -855354, -854558, -853760, -852961, -852159, -851355, -850549, -849742, -848932,
  -848120, -847307, -846491, -845673, -844854, -844032, -843208, -842383, -841555, -840725, -839894, -839060,
  -838225, -837387, -836548, -835706, -834863, -834018, -833170, -832321, -831470, -830616, -829761, -828904,
  -828045, -827184, -826321, -825456, -824589, -823721, -822850, -821977, -821103, -820226, -819348, -818467,
  -817585, -816701, -815814, -814926, -814036, -813144, -812251, -811355, -810457, -809558, -808656, -807753,
  -806848, -805940, -805031, -804120, -803208, -802293, -801376, -800458, -799537, -798615, -797691, -796765,
  -795837, -794907, -793975, -793042, -792107, -791169, -790230, -789289, -788346, -787402, -786455, -785507,
  -784557, -783605, -782651, -781695, -780737, -779778, -778817, -777853, -776888, -775922, -774953, -773983,
  -773010, -772036, -771061, -770083, -769103, -768122, -767139, -766154, -765167, -764179, -763188, -762196,
  -761202, -760207, -759209, -758210, -757209, -756206, -755201, -754195, -753187, -752177, -751165, -750152,
  -749136, -748119, -747101, -746080, -745058, -744034, -743008, -741980, -740951, -739920, -738887, -737853,
  -736817, -735779, -734739, -733697, -732654, -731609, -730563, -729514, -728464, -727413, -726359, -725304,
  -724247, -723188, -722128, -721066, -720003, -718937, -717870, -716801, -715731, -714659, -713585, -712509,
  -711432, -710353, -709273, -708191, -707107, -706021, -704934, -703845, -702755, -701663, -700569, -699473,
  -698376, -697278, -696177, -695075, -693971, -692866, -691759, -690651, -689541, -688429, -687315, -686200,
  -685084, -683965, -682846, -681724, -680601, -679476, -678350, -677222, -676093, -674962, -673829, -672695,
  -671559, -670422, -669283, -668142, -667000, -665856, -664711, -663564, -662416, -661266, -660114, -658961,
  -657807, -656651, -655493, -654334, -653173, -652011, -650847, -649681, -648514, -647346, -646176, -645005,
  -643832, -642657, -641481, -640303, -639124, -637944, -636762, -635578, -634393, -633207, -632019, -630829,
  -629638, -628446, -627252, -626056, -624859, -623661, -622461, -621260, -620057, -618853, -617647, -616440,
  -615232, -614022, -612810, -611597, -610383, -609167, -607950, -606731, -605511, -604290, -603067, -601842,
  -600616, -599389, -598161, -596931, -595699, -594466, -593232, -591997, -590760, -589521, -588282, -587040,
  -585798, -584554, -583309, -582062, -580814, -579565, -578314, -577062, -575808, -574553, -573297, -572040,
  -570781, -569521, -568259, -566996, -565732, -564466, -563199, -561931, -560662, -559391, -558119, -556845,
  -555570, -554294, -553017, -551738, -550458, -549177, -547894, -546610, -545325, -544039, -542751, -541462,
  -540171, -538880, -537587, -536293, -534998, -533701, -532403, -531104, -529804, -528502, -527199, -525895,
  -524590, -523283, -521975, -520666, -519356, -518045, -516732, -515418, -514103, -512786, -511469, -510150,
  -508830, -507509, -506187, -504863, -503538, -502212, -500885, -499557, -498228, -496897, -495565, -494232,
  -492898, -491563, -490226, -488889, -487550, -486210, -484869, -483527, -482184, -480839, -479494, -478147,
  -476799, -475450, -474100, -472749, -471397, -470043, -468689, -467333, -465976, -464619, -463260, -461900,
  -460539, -459177, -457813, -456449, -455084, -453717, -452350, -450981, -449611, -448241, -446869, -445496,
  -444122, -442747, -441371, -439994, -438616, -437237, -435857, -434476, -433094, -431711, -430326, -428941,
  -427555, -426168, -424780, -423390, -422000, -420609, -419217, -417824, -416430, -415034, -413638, -412241,
  -410843, -409444, -408044, -406643, -405241, -403838, -402435, -401030, -399624, -398218, -396810, -395401,
  -393992, -392582, -391170, -389758, -388345, -386931, -385516, -384100, -382683, -381266, -379847, -378428,
  -377007, -375586, -374164, -372741, -371317, -369892, -368467, -367040, -365613, -364185, -362756, -361326,
  -359895, -358463, -357031, -355598, -354164, -352729, -351293, -349856, -348419, -346980, -345541, -344101,
  -342661, -341219, -339777, -338334, -336890, -335445, -334000, -332553, -331106, -329658, -328210, -326760,
  -325310, -323859, -322408, -320955, -319502, -318048, -316593, -315138, -313682, -312225, -310767, -309309,
  -307850, -306390, -304929, -303468, -302006, -300543, -299080, -297616, -296151, -294685, -293219, -291752,
  -290285, -288816, -287347, -285878, -284408, -282937, -281465, -279993, -278520, -277046, -275572, -274097,
  -272621, -271145, -269668, -268191, -266713, -265234, -263755, -262275, -260794, -259313, -257831, -256349,
  -254866, -253382, -251898, -250413, -248928, -247442, -245955, -244468, -242980, -241492, -240003, -238514,
  -237024, -235533, -234042, -232550, -231058, -229565, -228072, -226578, -225084, -223589, -222094, -220598,
  -219101, -217604, -216107, -214609, -213110, -211611, -210112, -208612, -207111, -205610, -204109, -202607,
  -201105, -199602, -198098, -196595, -195090, -193586, -192080, -190575, -189069, -187562, -186055, -184548,
  -183040, -181532, -180023, -178514, -177004, -175494, -173984, -172473, -170962, -169450, -167938, -166426,
  -164913, -163400, -161886, -160372, -158858, -157343, -155828, -154313, -152797, -151281, -149765, -148248,
  -146730, -145213, -143695, -142177, -140658, -139139, -137620, -136101, -134581, -133061, -131540, -130019,
  -128498, -126977, -125455, -123933, -122411, -120888, -119365, -117842, -116319, -114795, -113271, -111747,
  -110222, -108697, -107172, -105647, -104122, -102596, -101070, -99544, -98017, -96490, -94963, -93436,
  -91909, -90381, -88854, -87326, -85797, -84269, -82740, -81211, -79682, -78153, -76624, -75094,
  -73565, -72035, -70505, -68974, -67444, -65913, -64383, -62852, -61321, -59790, -58258, -56727,
  -55195, -53664, -52132, -50600, -49068, -47535, -46003, -44471, -42938, -41406, -39873, -38340,
  -36807, -35274, -33741, -32208, -30675, -29142, -27608, -26075, -24541, -23008, -21474, -19940,
  -18407, -16873, -15339, -13805, -12272, -10738, -9204, -7670, -6136, -4602, -3068, -1534,
  0, 1534, 3068, 4602, 6136, 7670, 9204, 10738, 12272, 13805, 15339, 16873,
  18407, 19940, 21474, 23008, 24541, 26075, 27608, 29142, 30675, 32208, 33741, 35274,
  36807, 38340, 39873, 41406, 42938, 44471, 46003, 47535, 49068, 50600, 52132, 53664,
  55195, 56727, 58258, 59790, 61321, 62852, 64383, 65913, 67444, 68974, 70505, 72035,
  73565, 75094, 76624, 78153, 79682, 81211, 82740, 84269, 85797, 87326, 88854, 90381,
  91909, 93436, 94963, 96490, 98017, 99544, 101070, 102596, 104122, 105647, 107172, 108697,
  110222, 111747, 113271, 114795, 116319, 117842, 119365, 120888, 122411, 123933, 125455, 126977,
  128498, 130019, 131540, 133061, 134581, 136101, 137620, 139139, 140658, 142177, 143695, 145213,
  146730, 148248, 149765, 151281, 152797, 154313, 155828, 157343, 158858, 160372, 161886, 163400,
  164913, 166426, 167938, 169450, 170962, 172473, 173984, 175494, 177004, 178514, 180023, 181532,
  183040, 184548, 186055, 187562, 189069, 190575, 192080, 193586, 195090, 196595, 198098, 199602,
  201105, 202607, 204109, 205610, 207111, 208612, 210112, 211611, 213110, 214609, 216107, 217604,
  219101, 220598, 222094, 223589, 225084, 226578, 228072, 229565, 231058, 232550, 234042, 235533,
  237024, 238514, 240003, 241492, 242980, 244468, 245955, 247442, 248928, 250413, 251898, 253382,
  254866, 256349, 257831, 259313, 260794, 262275, 263755, 265234, 266713, 268191, 269668, 271145,
  272621, 274097, 275572, 277046, 278520, 279993, 281465, 282937, 284408, 285878, 287347, 288816,
  290285, 291752, 293219, 294685, 296151, 297616, 299080, 300543, 302006, 303468, 304929, 306390,
  307850, 309309, 310767, 312225, 313682, 315138, 316593, 318048, 319502, 320955, 322408, 323859,
  325310, 326760, 328210, 329658, 331106, 332553, 334000, 335445, 336890, 338334, 339777, 341219,
  342661, 344101, 345541, 346980, 348419, 349856, 351293, 352729, 354164, 355598, 357031, 358463,
  359895, 361326, 362756, 364185, 365613, 367040, 368467, 369892, 371317, 372741, 374164, 375586,
  377007, 378428, 379847, 381266, 382683, 384100, 385516, 386931, 388345, 389758, 391170, 392582,
  393992, 395401, 396810, 398218, 399624, 401030, 402435, 403838, 405241, 406643, 408044, 409444,
  410843, 412241, 413638, 415034, 416430, 417824, 419217, 420609, 422000, 423390, 424780, 426168,
  427555, 428941, 430326, 431711, 433094, 434476, 435857, 437237, 438616, 439994, 441371, 442747,
  444122, 445496, 446869, 448241, 449611, 450981, 452350, 453717, 455084, 456449, 457813, 459177,
  460539, 461900, 463260, 464619, 465976, 467333, 468689, 470043, 471397, 472749, 474100, 475450,
  476799, 478147, 479494, 480839, 482184, 483527, 484869, 486210, 487550, 488889, 490226, 491563,
  492898, 494232, 495565, 496897, 498228, 499557, 500885, 502212, 503538, 504863, 506187, 507509,
  508830, 510150, 511469, 512786, 514103, 515418, 516732, 518045, 519356, 520666, 521975, 523283,
  524590, 525895, 527199, 528502, 529804, 531104, 532403, 533701, 534998, 536293, 537587, 538880,
  540171, 541462, 542751, 544039, 545325, 546610, 547894, 549177, 550458, 551738, 553017, 554294,
  555570, 556845, 558119, 559391, 560662, 561931, 563199, 564466, 565732, 566996, 568259, 569521,
  570781, 572040, 573297, 574553, 575808, 577062, 578314, 579565, 580814, 582062, 583309, 584554,
  585798, 587040, 588282, 589521, 590760, 591997, 593232, 594466, 595699, 596931, 598161, 599389,
  600616, 601842, 603067, 604290, 605511, 606731, 607950, 609167, 610383, 611597, 612810, 614022,
  615232, 616440, 617647, 618853, 620057, 621260, 622461, 623661, 624859, 626056, 627252, 628446,
  629638, 630829, 632019, 633207, 634393, 635578, 636762, 637944, 639124, 640303, 641481, 642657,
  643832, 645005, 646176, 647346, 648514, 649681, 650847, 652011, 653173, 654334, 655493, 656651,
  657807, 658961, 660114, 661266, 662416, 663564, 664711, 665856, 667000, 668142, 669283, 670422,
  671559, 672695, 673829, 674962, 676093, 677222, 678350, 679476, 680601, 681724, 682846, 683965,
  685084, 686200, 687315, 688429, 689541, 690651, 691759, 692866, 693971, 695075, 696177, 697278,
  698376, 699473, 700569, 701663, 702755, 703845, 704934, 706021, 707107, 708191, 709273, 710353,
  711432, 712509, 713585, 714659, 715731, 716801, 717870, 718937, 720003, 721066, 722128, 723188,
  724247, 725304, 726359, 727413, 728464, 729514, 730563, 731609, 732654, 733697, 734739, 735779,
  736817, 737853, 738887, 739920, 740951, 741980, 743008, 744034, 745058, 746080, 747101, 748119,
  749136, 750152, 751165, 752177, 753187, 754195, 755201, 756206, 757209, 758210, 759209, 760207,
  761202, 762196, 763188, 764179, 765167, 766154, 767139, 768122, 769103, 770083, 771061, 772036,
  773010, 773983, 774953, 775922, 776888, 777853, 778817, 779778, 780737, 781695, 782651, 783605,
  784557, 785507, 786455, 787402, 788346, 789289, 790230, 791169, 792107, 793042, 793975, 794907,
  795837, 796765, 797691, 798615, 799537, 800458, 801376, 802293, 803208, 804120, 805031, 805940,
  806848, 807753, 808656, 809558, 810457, 811355, 812251, 813144, 814036, 814926, 815814, 816701,
  817585, 818467, 819348, 820226, 821103, 821977, 822850, 823721, 824589, 825456, 826321, 827184,
  828045, 828904, 829761, 830616, 831470, 832321, 833170, 834018, 834863, 835706, 836548, 837387,
  838225, 839060, 839894, 840725, 841555, 842383, 843208, 844032, 844854, 845673, 846491, 847307,
  848120, 848932, 849742, 850549, 851355, 852159, 852961, 853760, 854558, 855354, 856147, 856939,
  857729, 858516, 859302, 860085, 860867, 861646, 862424, 863199, 863973, 864744, 865514, 866281,
  867046, 867809, 868571, 869330, 870087, 870842, 871595, 872346, 873095, 873842, 874587, 875329,
  876070, 876809, 877545, 878280, 879012, 879743, 880471, 881197, 881921, 882643, 883363, 884081,
  884797, 885511, 886223, 886932, 887640, 888345, 889048, 889750, 890449, 891146, 891841, 892534,
  893224, 893913, 894599, 895284, 895966, 896646, 897325, 898001, 898674, 899346, 900016, 900683,
  901349, 902012, 902673, 903332, 903989, 904644, 905297, 905947, 906596, 907242, 907886, 908528,
  909168, 909806, 910441, 911075, 911706, 912335, 912962, 913587, 914210, 914830, 915449, 916065,
  916679, 917291, 917901, 918508, 919114, 919717, 920318, 920917, 921514, 922109, 922701, 923291,
  923880, 924465, 925049, 925631, 926210, 926787, 927363, 927935, 928506, 929075, 929641, 930205,
  930767, 931327, 931884, 932440, 932993, 933544, 934093, 934639, 935184, 935726, 936266, 936803,
  937339, 937872, 938404, 938932, 939459, 939984, 940506, 941026, 941544, 942060, 942573, 943084,
  943593, 944100, 944605, 945107, 945607, 946105, 946601, 947094, 947586, 948075, 948561, 949046,
  949528, 950008, 950486, 950962, 951435, 951906, 952375, 952842, 953306, 953768, 954228, 954686,
  955141, 955594, 956045, 956494, 956940, 957385, 957826, 958266, 958703, 959139, 959572, 960002,
  960431, 960857, 961280, 961702, 962121, 962538, 962953, 963366, 963776, 964184, 964590, 964993,
  965394, 965793, 966190, 966584, 966976, 967366, 967754, 968139, 968522, 968903, 969281, 969657,
  970031, 970403, 970772, 971139, 971504, 971866, 972226, 972584, 972940, 973293, 973644, 973993,
  974339, 974684, 975025, 975365, 975702, 976037, 976370, 976700, 977028, 977354, 977677, 977999,
  978317, 978634, 978948, 979260, 979570, 979877, 980182, 980485, 980785, 981083, 981379, 981673,
  981964, 982253, 982539, 982824, 983105, 983385, 983662, 983937, 984210, 984480, 984749, 985014,
  985278, 985539, 985798, 986054, 986308, 986560, 986809, 987057, 987301, 987544, 987784, 988022,
  988258, 988491, 988722, 988950, 989177, 989400, 989622, 989841, 990058, 990273, 990485, 990695,
  990903, 991108, 991311, 991511, 991710, 991906, 992099, 992291, 992480, 992666, 992850, 993032,
  993212, 993389, 993564, 993737, 993907, 994075, 994240, 994404, 994565, 994723, 994879, 995033,
  995185, 995334, 995481, 995625, 995767, 995907, 996045, 996180, 996313, 996443, 996571, 996697,
  996820, 996941, 997060, 997176, 997290, 997402, 997511, 997618, 997723, 997825, 997925, 998023,
  998118, 998211, 998302, 998390, 998476, 998559, 998640, 998719, 998795, 998870, 998941, 999011,
  999078, 999142, 999205, 999265, 999322, 999378, 999431, 999481, 999529, 999575, 999619, 999660,
  999699, 999735, 999769, 999801, 999831, 999858, 999882, 999905, 999925, 999942, 999958, 999971,
  999981, 999989, 999995, 999999, 1000000
>>
=============================================================================
