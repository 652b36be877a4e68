------------------------------- MODULE Tables -------------------------------
(* Generated by tools/gentables.py *)
EXTENDS Integers, Sequences

\* 10^6 * sin of i/1024 of a quarter turn
SinTab == <<
    0, 1534, 3068, 4602, 6136, 7670, 9204, 10738, 12272, 13805, 15339, 16873, 18407, 19940, 21474, 23008,
    24541, 26075, 27608, 29142, 30675, 32208, 33741, 35274, 36807, 38340, 39873, 41406, 42938, 44471, 46003, 47535,
    49068, 50600, 52132, 53664, 55195, 56727, 58258, 59790, 61321, 62852, 64383, 65913, 67444, 68974, 70505, 72035,
    73565, 75094, 76624, 78153, 79682, 81211, 82740, 84269, 85797, 87326, 88854, 90381, 91909, 93436, 94963, 96490,
    98017, 99544, 101070, 102596, 104122, 105647, 107172, 108697, 110222, 111747, 113271, 114795, 116319, 117842, 119365, 120888,
    122411, 123933, 125455, 126977, 128498, 130019, 131540, 133061, 134581, 136101, 137620, 139139, 140658, 142177, 143695, 145213,
    146730, 148248, 149765, 151281, 152797, 154313, 155828, 157343, 158858, 160372, 161886, 163400, 164913, 166426, 167938, 169450,
    170962, 172473, 173984, 175494, 177004, 178514, 180023, 181532, 183040, 184548, 186055, 187562, 189069, 190575, 192080, 193586,
    195090, 196595, 198098, 199602, 201105, 202607, 204109, 205610, 207111, 208612, 210112, 211611, 213110, 214609, 216107, 217604,
    219101, 220598, 222094, 223589, 225084, 226578, 228072, 229565, 231058, 232550, 234042, 235533, 237024, 238514, 240003, 241492,
    242980, 244468, 245955, 247442, 248928, 250413, 251898, 253382, 254866, 256349, 257831, 259313, 260794, 262275, 263755, 265234,
    266713, 268191, 269668, 271145, 272621, 274097, 275572, 277046, 278520, 279993, 281465, 282937, 284408, 285878, 287347, 288816,
    290285, 291752, 293219, 294685, 296151, 297616, 299080, 300543, 302006, 303468, 304929, 306390, 307850, 309309, 310767, 312225,
    313682, 315138, 316593, 318048, 319502, 320955, 322408, 323859, 325310, 326760, 328210, 329658, 331106, 332553, 334000, 335445,
    336890, 338334, 339777, 341219, 342661, 344101, 345541, 346980, 348419, 349856, 351293, 352729, 354164, 355598, 357031, 358463,
    359895, 361326, 362756, 364185, 365613, 367040, 368467, 369892, 371317, 372741, 374164, 375586, 377007, 378428, 379847, 381266,
    382683, 384100, 385516, 386931, 388345, 389758, 391170, 392582, 393992, 395401, 396810, 398218, 399624, 401030, 402435, 403838,
    405241, 406643, 408044, 409444, 410843, 412241, 413638, 415034, 416430, 417824, 419217, 420609, 422000, 423390, 424780, 426168,
    427555, 428941, 430326, 431711, 433094, 434476, 435857, 437237, 438616, 439994, 441371, 442747, 444122, 445496, 446869, 448241,
    449611, 450981, 452350, 453717, 455084, 456449, 457813, 459177, 460539, 461900, 463260, 464619, 465976, 467333, 468689, 470043,
    471397, 472749, 474100, 475450, 476799, 478147, 479494, 480839, 482184, 483527, 484869, 486210, 487550, 488889, 490226, 491563,
    492898, 494232, 495565, 496897, 498228, 499557, 500885, 502212, 503538, 504863, 506187, 507509, 508830, 510150, 511469, 512786,
    514103, 515418, 516732, 518045, 519356, 520666, 521975, 523283, 524590, 525895, 527199, 528502, 529804, 531104, 532403, 533701,
    534998, 536293, 537587, 538880, 540171, 541462, 542751, 544039, 545325, 546610, 547894, 549177, 550458, 551738, 553017, 554294,
    555570, 556845, 558119, 559391, 560662, 561931, 563199, 564466, 565732, 566996, 568259, 569521, 570781, 572040, 573297, 574553,
    575808, 577062, 578314, 579565, 580814, 582062, 583309, 584554, 585798, 587040, 588282, 589521, 590760, 591997, 593232, 594466,
    595699, 596931, 598161, 599389, 600616, 601842, 603067, 604290, 605511, 606731, 607950, 609167, 610383, 611597, 612810, 614022,
    615232, 616440, 617647, 618853, 620057, 621260, 622461, 623661, 624859, 626056, 627252, 628446, 629638, 630829, 632019, 633207,
    634393, 635578, 636762, 637944, 639124, 640303, 641481, 642657, 643832, 645005, 646176, 647346, 648514, 649681, 650847, 652011,
    653173, 654334, 655493, 656651, 657807, 658961, 660114, 661266, 662416, 663564, 664711, 665856, 667000, 668142, 669283, 670422,
    671559, 672695, 673829, 674962, 676093, 677222, 678350, 679476, 680601, 681724, 682846, 683965, 685084, 686200, 687315, 688429,
    689541, 690651, 691759, 692866, 693971, 695075, 696177, 697278, 698376, 699473, 700569, 701663, 702755, 703845, 704934, 706021,
    707107, 708191, 709273, 710353, 711432, 712509, 713585, 714659, 715731, 716801, 717870, 718937, 720003, 721066, 722128, 723188,
    724247, 725304, 726359, 727413, 728464, 729514, 730563, 731609, 732654, 733697, 734739, 735779, 736817, 737853, 738887, 739920,
    740951, 741980, 743008, 744034, 745058, 746080, 747101, 748119, 749136, 750152, 751165, 752177, 753187, 754195, 755201, 756206,
    757209, 758210, 759209, 760207, 761202, 762196, 763188, 764179, 765167, 766154, 767139, 768122, 769103, 770083, 771061, 772036,
    773010, 773983, 774953, 775922, 776888, 777853, 778817, 779778, 780737, 781695, 782651, 783605, 784557, 785507, 786455, 787402,
    788346, 789289, 790230, 791169, 792107, 793042, 793975, 794907, 795837, 796765, 797691, 798615, 799537, 800458, 801376, 802293,
    803208, 804120, 805031, 805940, 806848, 807753, 808656, 809558, 810457, 811355, 812251, 813144, 814036, 814926, 815814, 816701,
    817585, 818467, 819348, 820226, 821103, 821977, 822850, 823721, 824589, 825456, 826321, 827184, 828045, 828904, 829761, 830616,
    831470, 832321, 833170, 834018, 834863, 835706, 836548, 837387, 838225, 839060, 839894, 840725, 841555, 842383, 843208, 844032,
    844854, 845673, 846491, 847307, 848120, 848932, 849742, 850549, 851355, 852159, 852961, 853760, 854558, 855354, 856147, 856939,
    857729, 858516, 859302, 860085, 860867, 861646, 862424, 863199, 863973, 864744, 865514, 866281, 867046, 867809, 868571, 869330,
    870087, 870842, 871595, 872346, 873095, 873842, 874587, 875329, 876070, 876809, 877545, 878280, 879012, 879743, 880471, 881197,
    881921, 882643, 883363, 884081, 884797, 885511, 886223, 886932, 887640, 888345, 889048, 889750, 890449, 891146, 891841, 892534,
    893224, 893913, 894599, 895284, 895966, 896646, 897325, 898001, 898674, 899346, 900016, 900683, 901349, 902012, 902673, 903332,
    903989, 904644, 905297, 905947, 906596, 907242, 907886, 908528, 909168, 909806, 910441, 911075, 911706, 912335, 912962, 913587,
    914210, 914830, 915449, 916065, 916679, 917291, 917901, 918508, 919114, 919717, 920318, 920917, 921514, 922109, 922701, 923291,
    923880, 924465, 925049, 925631, 926210, 926787, 927363, 927935, 928506, 929075, 929641, 930205, 930767, 931327, 931884, 932440,
    932993, 933544, 934093, 934639, 935184, 935726, 936266, 936803, 937339, 937872, 938404, 938932, 939459, 939984, 940506, 941026,
    941544, 942060, 942573, 943084, 943593, 944100, 944605, 945107, 945607, 946105, 946601, 947094, 947586, 948075, 948561, 949046,
    949528, 950008, 950486, 950962, 951435, 951906, 952375, 952842, 953306, 953768, 954228, 954686, 955141, 955594, 956045, 956494,
    956940, 957385, 957826, 958266, 958703, 959139, 959572, 960002, 960431, 960857, 961280, 961702, 962121, 962538, 962953, 963366,
    963776, 964184, 964590, 964993, 965394, 965793, 966190, 966584, 966976, 967366, 967754, 968139, 968522, 968903, 969281, 969657,
    970031, 970403, 970772, 971139, 971504, 971866, 972226, 972584, 972940, 973293, 973644, 973993, 974339, 974684, 975025, 975365,
    975702, 976037, 976370, 976700, 977028, 977354, 977677, 977999, 978317, 978634, 978948, 979260, 979570, 979877, 980182, 980485,
    980785, 981083, 981379, 981673, 981964, 982253, 982539, 982824, 983105, 983385, 983662, 983937, 984210, 984480, 984749, 985014,
    985278, 985539, 985798, 986054, 986308, 986560, 986809, 987057, 987301, 987544, 987784, 988022, 988258, 988491, 988722, 988950,
    989177, 989400, 989622, 989841, 990058, 990273, 990485, 990695, 990903, 991108, 991311, 991511, 991710, 991906, 992099, 992291,
    992480, 992666, 992850, 993032, 993212, 993389, 993564, 993737, 993907, 994075, 994240, 994404, 994565, 994723, 994879, 995033,
    995185, 995334, 995481, 995625, 995767, 995907, 996045, 996180, 996313, 996443, 996571, 996697, 996820, 996941, 997060, 997176,
    997290, 997402, 997511, 997618, 997723, 997825, 997925, 998023, 998118, 998211, 998302, 998390, 998476, 998559, 998640, 998719,
    998795, 998870, 998941, 999011, 999078, 999142, 999205, 999265, 999322, 999378, 999431, 999481, 999529, 999575, 999619, 999660,
    999699, 999735, 999769, 999801, 999831, 999858, 999882, 999905, 999925, 999942, 999958, 999971, 999981, 999989, 999995, 999999,
    1000000 >>

\* 2^24 * 2^(i/1024)
ExpTab == <<
    16777216, 16788576, 16799944, 16811320, 16822704, 16834095, 16845494, 16856900, 16868315, 16879737, 16891166, 16902604, 16914049, 16925502, 16936963, 16948432,
    16959908, 16971392, 16982884, 16994383, 17005891, 17017406, 17028929, 17040460, 17051999, 17063545, 17075099, 17086661, 17098231, 17109809, 17121394, 17132988,
    17144589, 17156198, 17167815, 17179440, 17191073, 17202713, 17214362, 17226018, 17237683, 17249355, 17261035, 17272723, 17284419, 17296123, 17307834, 17319554,
    17331282, 17343017, 17354761, 17366512, 17378271, 17390039, 17401814, 17413597, 17425389, 17437188, 17448995, 17460810, 17472634, 17484465, 17496304, 17508152,
    17520007, 17531870, 17543742, 17555621, 17567508, 17579404, 17591307, 17603219, 17615139, 17627066, 17639002, 17650946, 17662898, 17674858, 17686826, 17698803,
    17710787, 17722780, 17734780, 17746789, 17758806, 17770831, 17782864, 17794906, 17806955, 17819013, 17831078, 17843152, 17855235, 17867325, 17879423, 17891530,
    17903645, 17915768, 17927899, 17940039, 17952187, 17964343, 17976507, 17988679, 18000860, 18013049, 18025246, 18037452, 18049665, 18061887, 18074118, 18086356,
    18098603, 18110858, 18123121, 18135393, 18147673, 18159962, 18172258, 18184563, 18196877, 18209198, 18221528, 18233867, 18246213, 18258568, 18270932, 18283304,
    18295684, 18308072, 18320469, 18332875, 18345288, 18357711, 18370141, 18382580, 18395028, 18407483, 18419948, 18432420, 18444902, 18457391, 18469889, 18482396,
    18494911, 18507434, 18519966, 18532507, 18545056, 18557613, 18570179, 18582753, 18595336, 18607928, 18620528, 18633136, 18645753, 18658379, 18671013, 18683656,
    18696307, 18708967, 18721635, 18734312, 18746998, 18759692, 18772395, 18785106, 18797826, 18810555, 18823292, 18836038, 18848792, 18861555, 18874327, 18887107,
    18899897, 18912694, 18925501, 18938316, 18951139, 18963972, 18976813, 18989663, 19002521, 19015388, 19028264, 19041149, 19054042, 19066944, 19079855, 19092775,
    19105703, 19118640, 19131586, 19144540, 19157504, 19170476, 19183457, 19196446, 19209445, 19222452, 19235468, 19248493, 19261527, 19274570, 19287621, 19300681,
    19313750, 19326828, 19339915, 19353011, 19366115, 19379229, 19392351, 19405482, 19418622, 19431771, 19444929, 19458096, 19471271, 19484456, 19497649, 19510852,
    19524063, 19537284, 19550513, 19563751, 19576998, 19590255, 19603520, 19616794, 19630077, 19643369, 19656670, 19669980, 19683300, 19696628, 19709965, 19723311,
    19736666, 19750031, 19763404, 19776786, 19790178, 19803578, 19816988, 19830407, 19843835, 19857271, 19870717, 19884172, 19897637, 19911110, 19924592, 19938084,
    19951585, 19965094, 19978613, 19992142, 20005679, 20019225, 20032781, 20046346, 20059920, 20073503, 20087095, 20100697, 20114308, 20127928, 20141557, 20155195,
    20168843, 20182500, 20196166, 20209842, 20223526, 20237220, 20250924, 20264636, 20278358, 20292089, 20305829, 20319579, 20333338, 20347107, 20360884, 20374671,
    20388467, 20402273, 20416088, 20429912, 20443746, 20457589, 20471442, 20485304, 20499175, 20513055, 20526945, 20540845, 20554754, 20568672, 20582600, 20596537,
    20610483, 20624439, 20638405, 20652380, 20666364, 20680358, 20694361, 20708374, 20722396, 20736428, 20750469, 20764520, 20778580, 20792650, 20806729, 20820818,
    20834917, 20849025, 20863142, 20877269, 20891406, 20905552, 20919708, 20933873, 20948048, 20962233, 20976427, 20990631, 21004844, 21019067, 21033300, 21047542,
    21061794, 21076056, 21090327, 21104608, 21118898, 21133199, 21147509, 21161828, 21176158, 21190497, 21204845, 21219204, 21233572, 21247950, 21262338, 21276735,
    21291142, 21305559, 21319986, 21334422, 21348868, 21363324, 21377790, 21392265, 21406751, 21421246, 21435751, 21450266, 21464790, 21479325, 21493869, 21508423,
    21522987, 21537561, 21552145, 21566739, 21581342, 21595955, 21610579, 21625212, 21639855, 21654508, 21669171, 21683844, 21698527, 21713219, 21727922, 21742635,
    21757357, 21772090, 21786832, 21801585, 21816348, 21831120, 21845903, 21860695, 21875498, 21890310, 21905133, 21919965, 21934808, 21949661, 21964524, 21979396,
    21994279, 22009172, 22024076, 22038989, 22053912, 22068845, 22083789, 22098742, 22113706, 22128680, 22143664, 22158658, 22173663, 22188677, 22203702, 22218736,
    22233781, 22248837, 22263902, 22278978, 22294063, 22309159, 22324266, 22339382, 22354509, 22369646, 22384793, 22399950, 22415118, 22430296, 22445484, 22460683,
    22475891, 22491111, 22506340, 22521580, 22536830, 22552090, 22567361, 22582642, 22597933, 22613235, 22628547, 22643870, 22659202, 22674546, 22689899, 22705263,
    22720638, 22736023, 22751418, 22766824, 22782240, 22797666, 22813103, 22828551, 22844009, 22859477, 22874956, 22890445, 22905945, 22921455, 22936976, 22952508,
    22968049, 22983602, 22999165, 23014738, 23030322, 23045917, 23061522, 23077137, 23092764, 23108400, 23124048, 23139706, 23155374, 23171054, 23186743, 23202444,
    23218155, 23233877, 23249609, 23265352, 23281106, 23296870, 23312645, 23328431, 23344227, 23360034, 23375852, 23391681, 23407520, 23423370, 23439231, 23455102,
    23470984, 23486877, 23502781, 23518695, 23534620, 23550556, 23566503, 23582461, 23598429, 23614408, 23630399, 23646399, 23662411, 23678434, 23694467, 23710511,
    23726566, 23742632, 23758709, 23774797, 23790896, 23807005, 23823126, 23839257, 23855399, 23871553, 23887717, 23903892, 23920078, 23936275, 23952483, 23968702,
    23984932, 24001173, 24017425, 24033688, 24049962, 24066246, 24082542, 24098850, 24115168, 24131497, 24147837, 24164188, 24180550, 24196924, 24213308, 24229704,
    24246111, 24262528, 24278957, 24295397, 24311848, 24328311, 24344784, 24361269, 24377765, 24394271, 24410790, 24427319, 24443859, 24460411, 24476974, 24493548,
    24510133, 24526730, 24543338, 24559957, 24576587, 24593229, 24609881, 24626546, 24643221, 24659908, 24676606, 24693315, 24710036, 24726767, 24743511, 24760265,
    24777031, 24793809, 24810597, 24827397, 24844209, 24861031, 24877866, 24894711, 24911568, 24928436, 24945316, 24962208, 24979110, 24996024, 25012950, 25029887,
    25046835, 25063795, 25080767, 25097750, 25114744, 25131750, 25148768, 25165797, 25182837, 25199889, 25216953, 25234028, 25251115, 25268213, 25285323, 25302445,
    25319578, 25336722, 25353879, 25371046, 25388226, 25405417, 25422620, 25439834, 25457060, 25474298, 25491548, 25508809, 25526081, 25543366, 25560662, 25577970,
    25595290, 25612621, 25629964, 25647319, 25664686, 25682064, 25699454, 25716856, 25734270, 25751695, 25769132, 25786581, 25804042, 25821515, 25839000, 25856496,
    25874004, 25891524, 25909056, 25926600, 25944156, 25961723, 25979303, 25996894, 26014497, 26032113, 26049740, 26067379, 26085030, 26102693, 26120368, 26138055,
    26155754, 26173464, 26191187, 26208922, 26226669, 26244428, 26262199, 26279982, 26297777, 26315584, 26333403, 26351234, 26369077, 26386933, 26404800, 26422679,
    26440571, 26458475, 26476391, 26494319, 26512259, 26530211, 26548175, 26566152, 26584141, 26602142, 26620155, 26638180, 26656218, 26674267, 26692329, 26710404,
    26728490, 26746589, 26764700, 26782823, 26800958, 26819106, 26837266, 26855438, 26873623, 26891820, 26910029, 26928251, 26946485, 26964731, 26982990, 27001261,
    27019544, 27037840, 27056148, 27074469, 27092802, 27111147, 27129505, 27147875, 27166258, 27184653, 27203060, 27221480, 27239913, 27258358, 27276815, 27295285,
    27313768, 27332263, 27350770, 27369290, 27387823, 27406368, 27424926, 27443496, 27462079, 27480674, 27499282, 27517903, 27536536, 27555182, 27573840, 27592511,
    27611195, 27629892, 27648601, 27667322, 27686057, 27704804, 27723564, 27742336, 27761121, 27779919, 27798730, 27817553, 27836389, 27855238, 27874100, 27892974,
    27911861, 27930761, 27949674, 27968600, 27987538, 28006489, 28025453, 28044430, 28063420, 28082423, 28101438, 28120466, 28139508, 28158562, 28177629, 28196709,
    28215802, 28234907, 28254026, 28273158, 28292302, 28311460, 28330631, 28349814, 28369011, 28388220, 28407443, 28426678, 28445927, 28465188, 28484463, 28503751,
    28523052, 28542365, 28561692, 28581032, 28600385, 28619752, 28639131, 28658523, 28677929, 28697348, 28716779, 28736224, 28755683, 28775154, 28794639, 28814136,
    28833647, 28853171, 28872709, 28892259, 28911823, 28931400, 28950991, 28970594, 28990211, 29009841, 29029485, 29049141, 29068811, 29088495, 29108192, 29127902,
    29147625, 29167362, 29187112, 29206875, 29226652, 29246443, 29266246, 29286063, 29305894, 29325738, 29345595, 29365466, 29385350, 29405248, 29425159, 29445084,
    29465022, 29484974, 29504939, 29524917, 29544910, 29564915, 29584935, 29604968, 29625014, 29645074, 29665148, 29685235, 29705336, 29725450, 29745578, 29765720,
    29785875, 29806044, 29826226, 29846423, 29866633, 29886856, 29907094, 29927345, 29947609, 29967888, 29988180, 30008486, 30028805, 30049139, 30069486, 30089847,
    30110222, 30130610, 30151013, 30171429, 30191859, 30212303, 30232760, 30253232, 30273717, 30294217, 30314730, 30335257, 30355798, 30376353, 30396921, 30417504,
    30438101, 30458711, 30479336, 30499974, 30520627, 30541293, 30561974, 30582668, 30603377, 30624099, 30644836, 30665586, 30686351, 30707129, 30727922, 30748729,
    30769550, 30790385, 30811234, 30832097, 30852975, 30873866, 30894772, 30915691, 30936625, 30957574, 30978536, 30999512, 31020503, 31041508, 31062527, 31083561,
    31104608, 31125670, 31146746, 31167837, 31188941, 31210060, 31231194, 31252341, 31273503, 31294679, 31315870, 31337075, 31358294, 31379528, 31400776, 31422038,
    31443315, 31464606, 31485912, 31507232, 31528567, 31549916, 31571279, 31592657, 31614049, 31635456, 31656877, 31678313, 31699764, 31721229, 31742708, 31764202,
    31785710, 31807234, 31828771, 31850323, 31871890, 31893472, 31915068, 31936678, 31958304, 31979944, 32001598, 32023268, 32044951, 32066650, 32088363, 32110091,
    32131834, 32153592, 32175364, 32197151, 32218952, 32240769, 32262600, 32284446, 32306307, 32328182, 32350073, 32371978, 32393898, 32415833, 32437783, 32459747,
    32481727, 32503721, 32525731, 32547755, 32569794, 32591848, 32613917, 32636001, 32658099, 32680213, 32702342, 32724486, 32746645, 32768818, 32791007, 32813211,
    32835430, 32857664, 32879913, 32902177, 32924456, 32946750, 32969059, 32991383, 33013723, 33036077, 33058447, 33080832, 33103232, 33125647, 33148078, 33170523,
    33192984, 33215460, 33237951, 33260458, 33282979, 33305516, 33328069, 33350636, 33373219, 33395817, 33418430, 33441059, 33463703, 33486362, 33509037, 33531727,
    33554432 >>

\* 2^18 * 10^(h/40) for h = -240 .. 48 half decibels
DbTab == <<
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2,
    2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4,
    4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 7, 8, 8, 9, 9, 10,
    10, 11, 12, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25,
    26, 28, 29, 31, 33, 35, 37, 39, 42, 44, 47, 49, 52, 55, 59, 62,
    66, 70, 74, 78, 83, 88, 93, 99, 104, 111, 117, 124, 131, 139, 147, 156,
    165, 175, 186, 197, 208, 221, 234, 247, 262, 278, 294, 312, 330, 350, 370, 392,
    415, 440, 466, 494, 523, 554, 587, 622, 658, 697, 739, 783, 829, 878, 930, 985,
    1044, 1105, 1171, 1240, 1314, 1392, 1474, 1561, 1654, 1752, 1856, 1966, 2082, 2206, 2336, 2475,
    2621, 2777, 2941, 3116, 3300, 3496, 3703, 3922, 4155, 4401, 4662, 4938, 5230, 5540, 5869, 6216,
    6585, 6975, 7388, 7826, 8290, 8781, 9301, 9852, 10436, 11055, 11710, 12403, 13138, 13917, 14741, 15615,
    16540, 17520, 18558, 19658, 20823, 22057, 23364, 24748, 26214, 27768, 29413, 31156, 33002, 34957, 37029, 39223,
    41547, 44009, 46617, 49379, 52305, 55404, 58687, 62164, 65848, 69749, 73882, 78260, 82897, 87809, 93012, 98524,
    104361, 110545, 117095, 124034, 131383, 139168, 147414, 156149, 165402, 175202, 185584, 196580, 208228, 220567, 233636, 247480,
    262144, 277677, 294130, 311559, 330020, 349575, 370288, 392229, 415470, 440088, 466165, 493787, 523046, 554038, 586867, 621641,
    658476, 697493, 738822, 782600, 828972, 878092, 930122, 985235, 1043614, 1105452, 1170954, 1240338, 1313832, 1391682, 1474144, 1561493,
    1654017, 1752023, 1855837, 1965803, 2082284, 2205667, 2336361, 2474799, 2621440, 2776770, 2941304, 3115587, 3300197, 3495746, 3702882, 3922292,
    4154702 >>

\* 2^20 * log2 of the odd numbers 1, 3, .. 127
LogTab == <<
    0, 1661954, 2434718, 2943725, 3323907, 3627477, 3880192, 4096672, 4286015, 4454275, 4605679, 4743299, 4869436, 4985861, 5093962, 5194851,
    5289431, 5378443, 5462508, 5542146, 5617800, 5689851, 5758625, 5824409, 5887450, 5947969, 6006160, 6062195, 6116228, 6168398, 6218829, 6267632,
    6314910, 6360756, 6405252, 6448477, 6490501, 6531390, 6571202, 6609993, 6647815, 6684713, 6720734, 6755916, 6790299, 6823917, 6856805, 6888993,
    6920510, 6951384, 6981641, 7011304, 7040397, 7068940, 7096956, 7124461, 7151476, 7178017, 7204100, 7229740, 7254954, 7279754, 7304154, 7328167 >>

=============================================================================
