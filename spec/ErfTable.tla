------------------------------ MODULE ErfTable ------------------------------
(***************************************************************************)
(* The error function.  ErfTab[k+1] = round(10^8 erf(k/256)) and            *)
(* SlopeTab[k+1] = round(10^8 erf'(k/256)), k = 0..1536, are data; the      *)
(* ASSUMEs below pin them down: erf' is the Gaussian bell (its logarithmic  *)
(* derivative is -2x), and erf is its integral (trapezoid with end          *)
(* correction).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

ErfTab == <<
  0, 440771, 881528, 1322259, 1762949, 2203585, 2644155, 3084643, 3525037, 3965324,
  4405490, 4845522, 5285406, 5725129, 6164677, 6604038, 7043198, 7482143, 7920861, 8359337,
  8797560, 9235515, 9673190, 10110570, 10547644, 10984398, 11420819, 11856894, 12292609, 12727953,
  13162911, 13597471, 14031620, 14465346, 14898635, 15331475, 15763852, 16195755, 16627170, 17058086,
  17488488, 17918366, 18347706, 18776497, 19204725, 19632378, 20059444, 20485912, 20911768, 21337000,
  21761598, 22185548, 22608838, 23031458, 23453394, 23874636, 24295171, 24714988, 25134076, 25552422,
  25970016, 26386846, 26802900, 27218168, 27632639, 28046301, 28459143, 28871154, 29282324, 29692642,
  30102096, 30510676, 30918373, 31325174, 31731070, 32136051, 32540106, 32943224, 33345397, 33746613,
  34146863, 34546138, 34944426, 35341719, 35738007, 36133280, 36527530, 36920746, 37312919, 37704041,
  38094102, 38483093, 38871005, 39257829, 39643558, 40028181, 40411691, 40794079, 41175337, 41555456,
  41934428, 42312246, 42688901, 43064385, 43438691, 43811811, 44183737, 44554462, 44923978, 45292279,
  45659356, 46025204, 46389814, 46753180, 47115295, 47476152, 47835745, 48194068, 48551113, 48906875,
  49261347, 49614524, 49966399, 50316966, 50666220, 51014154, 51360764, 51706044, 52049988, 52392591,
  52733848, 53073754, 53412303, 53749492, 54085315, 54419767, 54752845, 55084542, 55414856, 55743782,
  56071315, 56397452, 56722189, 57045521, 57367446, 57687959, 58007056, 58324735, 58640993, 58955825,
  59269228, 59581201, 59891739, 60200840, 60508501, 60814719, 61119492, 61422818, 61724694, 62025118,
  62324088, 62621602, 62917657, 63212252, 63505386, 63797056, 64087261, 64376000, 64663271, 64949073,
  65233404, 65516265, 65797653, 66077568, 66356009, 66632975, 66908466, 67182482, 67455021, 67726084,
  67995670, 68263780, 68530412, 68795568, 69059247, 69321449, 69582176, 69841426, 70099202, 70355503,
  70610329, 70863682, 71115563, 71365973, 71614911, 71862381, 72108382, 72352916, 72595984, 72837588,
  73077729, 73316409, 73553629, 73789392, 74023698, 74256551, 74487951, 74717901, 74946403, 75173459,
  75399071, 75623242, 75845975, 76067270, 76287133, 76505564, 76722566, 76938143, 77152297, 77365031,
  77576347, 77786250, 77994742, 78201826, 78407506, 78611785, 78814665, 79016151, 79216247, 79414954,
  79612278, 79808222, 80002789, 80195984, 80387810, 80578271, 80767370, 80955113, 81141503, 81326544,
  81510240, 81692596, 81873615, 82053303, 82231663, 82408699, 82584417, 82758821, 82931915, 83103704,
  83274193, 83443385, 83611287, 83777902, 83943236, 84107294, 84270079, 84431598, 84591855, 84750855,
  84908603, 85065105, 85220365, 85374389, 85527181, 85678747, 85829093, 85978223, 86126143, 86272857,
  86418373, 86562694, 86705827, 86847776, 86988548, 87128148, 87266581, 87403853, 87539969, 87674935,
  87808758, 87941441, 88072992, 88203415, 88332717, 88460903, 88587978, 88713950, 88838823, 88962604,
  89085297, 89206909, 89327447, 89446915, 89565319, 89682666, 89798961, 89914210, 90028420, 90141595,
  90253743, 90364868, 90474978, 90584077, 90692172, 90799269, 90905374, 91010492, 91114630, 91217794,
  91319990, 91421223, 91521500, 91620827, 91719210, 91816654, 91913167, 92008753, 92103418, 92197170,
  92290013, 92381954, 92472998, 92563153, 92652423, 92740815, 92828334, 92914987, 93000780, 93085718,
  93169807, 93253054, 93335465, 93417044, 93497799, 93577735, 93656857, 93735173, 93812687, 93889406,
  93965335, 94040481, 94114848, 94188444, 94261273, 94333341, 94404655, 94475220, 94545041, 94614125,
  94682476, 94750102, 94817007, 94883198, 94948679, 95013456, 95077536, 95140923, 95203623, 95265642,
  95326985, 95387658, 95447666, 95507015, 95565710, 95623757, 95681161, 95737927, 95794061, 95849568,
  95904453, 95958722, 96012380, 96065433, 96117885, 96169742, 96221008, 96271690, 96321792, 96371320,
  96420278, 96468671, 96516505, 96563784, 96610515, 96656700, 96702347, 96747458, 96792041, 96836098,
  96879635, 96922658, 96965170, 97007176, 97048682, 97089691, 97130209, 97170241, 97209790, 97248862,
  97287461, 97325592, 97363259, 97400467, 97437220, 97473522, 97509379, 97544794, 97579772, 97614317,
  97648434, 97682126, 97715399, 97748256, 97780701, 97812739, 97844373, 97875609, 97906450, 97936899,
  97966962, 97996642, 98025943, 98054869, 98083425, 98111613, 98139437, 98166903, 98194013, 98220771,
  98247181, 98273247, 98298972, 98324360, 98349415, 98374140, 98398539, 98422616, 98446374, 98469816,
  98492946, 98515768, 98538285, 98560500, 98582417, 98604039, 98625369, 98646410, 98667167, 98687642,
  98707838, 98727759, 98747407, 98766787, 98785900, 98804750, 98823340, 98841674, 98859753, 98877582,
  98895162, 98912498, 98929591, 98946445, 98963063, 98979446, 98995599, 99011524, 99027224, 99042701,
  99057958, 99072998, 99087823, 99102436, 99116840, 99131036, 99145029, 99158820, 99172411, 99185806,
  99199006, 99212014, 99224833, 99237464, 99249911, 99262175, 99274259, 99286165, 99297896, 99309453,
  99320839, 99332056, 99343106, 99353991, 99364714, 99375277, 99385681, 99395928, 99406022, 99415963,
  99425754, 99435397, 99444893, 99454246, 99463455, 99472524, 99481455, 99490248, 99498907, 99507432,
  99515826, 99524090, 99532227, 99540237, 99548123, 99555886, 99563528, 99571050, 99578455, 99585744,
  99592918, 99599979, 99606929, 99613769, 99620501, 99627126, 99633646, 99640062, 99646375, 99652588,
  99658701, 99664716, 99670634, 99676457, 99682186, 99687823, 99693368, 99698823, 99704189, 99709469,
  99714662, 99719770, 99724794, 99729736, 99734597, 99739378, 99744080, 99748704, 99753252, 99757724,
  99762122, 99766447, 99770700, 99774881, 99778993, 99783036, 99787010, 99790918, 99794760, 99798538,
  99802251, 99805901, 99809490, 99813017, 99816484, 99819893, 99823243, 99826535, 99829771, 99832952,
  99836077, 99839149, 99842168, 99845134, 99848049, 99850914, 99853728, 99856494, 99859211, 99861881,
  99864504, 99867081, 99869613, 99872100, 99874543, 99876943, 99879301, 99881617, 99883892, 99886126,
  99888321, 99890476, 99892593, 99894672, 99896713, 99898718, 99900687, 99902620, 99904519, 99906383,
  99908214, 99910011, 99911775, 99913508, 99915208, 99916878, 99918517, 99920127, 99921706, 99923257,
  99924779, 99926273, 99927739, 99929178, 99930591, 99931977, 99933338, 99934673, 99935983, 99937269,
  99938531, 99939769, 99940984, 99942176, 99943346, 99944493, 99945619, 99946724, 99947807, 99948870,
  99949913, 99950936, 99951940, 99952924, 99953889, 99954836, 99955765, 99956676, 99957569, 99958446,
  99959305, 99960147, 99960974, 99961784, 99962579, 99963358, 99964122, 99964870, 99965605, 99966325,
  99967031, 99967723, 99968401, 99969066, 99969718, 99970357, 99970983, 99971597, 99972199, 99972789,
  99973367, 99973933, 99974488, 99975032, 99975566, 99976088, 99976600, 99977102, 99977593, 99978075,
  99978547, 99979009, 99979462, 99979906, 99980341, 99980767, 99981184, 99981593, 99981993, 99982386,
  99982770, 99983146, 99983514, 99983875, 99984229, 99984575, 99984914, 99985246, 99985571, 99985889,
  99986201, 99986506, 99986805, 99987098, 99987384, 99987665, 99987940, 99988208, 99988472, 99988729,
  99988981, 99989228, 99989470, 99989706, 99989938, 99990164, 99990386, 99990603, 99990816, 99991023,
  99991227, 99991426, 99991621, 99991811, 99991998, 99992180, 99992359, 99992533, 99992704, 99992871,
  99993035, 99993195, 99993351, 99993505, 99993654, 99993801, 99993944, 99994084, 99994221, 99994355,
  99994486, 99994615, 99994740, 99994863, 99994983, 99995100, 99995215, 99995327, 99995436, 99995543,
  99995648, 99995751, 99995851, 99995949, 99996044, 99996138, 99996229, 99996319, 99996406, 99996492,
  99996575, 99996657, 99996736, 99996814, 99996891, 99996965, 99997038, 99997109, 99997178, 99997246,
  99997312, 99997377, 99997441, 99997502, 99997563, 99997622, 99997680, 99997736, 99997791, 99997845,
  99997897, 99997949, 99997999, 99998048, 99998095, 99998142, 99998188, 99998232, 99998276, 99998318,
  99998360, 99998400, 99998440, 99998478, 99998516, 99998553, 99998589, 99998624, 99998658, 99998691,
  99998724, 99998756, 99998787, 99998817, 99998847, 99998876, 99998904, 99998932, 99998958, 99998985,
  99999010, 99999035, 99999060, 99999083, 99999107, 99999129, 99999151, 99999173, 99999194, 99999215,
  99999235, 99999254, 99999273, 99999292, 99999310, 99999328, 99999345, 99999362, 99999378, 99999394,
  99999410, 99999425, 99999440, 99999454, 99999469, 99999482, 99999496, 99999509, 99999522, 99999534,
  99999546, 99999558, 99999570, 99999581, 99999592, 99999603, 99999613, 99999623, 99999633, 99999643,
  99999652, 99999661, 99999670, 99999679, 99999688, 99999696, 99999704, 99999712, 99999719, 99999727,
  99999734, 99999741, 99999748, 99999755, 99999762, 99999768, 99999774, 99999780, 99999786, 99999792,
  99999797, 99999803, 99999808, 99999813, 99999818, 99999823, 99999828, 99999833, 99999837, 99999842,
  99999846, 99999850, 99999854, 99999858, 99999862, 99999866, 99999870, 99999873, 99999877, 99999880,
  99999883, 99999887, 99999890, 99999893, 99999896, 99999899, 99999901, 99999904, 99999907, 99999909,
  99999912, 99999914, 99999917, 99999919, 99999921, 99999924, 99999926, 99999928, 99999930, 99999932,
  99999934, 99999936, 99999937, 99999939, 99999941, 99999943, 99999944, 99999946, 99999947, 99999949,
  99999950, 99999952, 99999953, 99999954, 99999956, 99999957, 99999958, 99999959, 99999960, 99999962,
  99999963, 99999964, 99999965, 99999966, 99999967, 99999968, 99999969, 99999970, 99999970, 99999971,
  99999972, 99999973, 99999974, 99999975, 99999975, 99999976, 99999977, 99999977, 99999978, 99999979,
  99999979, 99999980, 99999980, 99999981, 99999982, 99999982, 99999983, 99999983, 99999984, 99999984,
  99999985, 99999985, 99999986, 99999986, 99999986, 99999987, 99999987, 99999988, 99999988, 99999988,
  99999989, 99999989, 99999989, 99999990, 99999990, 99999990, 99999991, 99999991, 99999991, 99999991,
  99999992, 99999992, 99999992, 99999992, 99999993, 99999993, 99999993, 99999993, 99999993, 99999994,
  99999994, 99999994, 99999994, 99999994, 99999995, 99999995, 99999995, 99999995, 99999995, 99999995,
  99999995, 99999996, 99999996, 99999996, 99999996, 99999996, 99999996, 99999996, 99999996, 99999997,
  99999997, 99999997, 99999997, 99999997, 99999997, 99999997, 99999997, 99999997, 99999997, 99999998,
  99999998, 99999998, 99999998, 99999998, 99999998, 99999998, 99999998, 99999998, 99999998, 99999998,
  99999998, 99999998, 99999998, 99999998, 99999998, 99999999, 99999999, 99999999, 99999999, 99999999,
  99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999,
  99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999,
  99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000,
  100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000
>>

SlopeTab == <<
  112837917, 112836195, 112831030, 112822422, 112810372, 112794881, 112775950, 112753582, 112727777, 112698539,
  112665871, 112629775, 112590254, 112547312, 112500954, 112451183, 112398003, 112341421, 112281440, 112218067,
  112151306, 112081165, 112007650, 111930767, 111850523, 111766925, 111679982, 111589702, 111496091, 111399159,
  111298915, 111195368, 111088527, 110978402, 110865002, 110748339, 110628422, 110505262, 110378871, 110249260,
  110116441, 109980425, 109841226, 109698854, 109553324, 109404648, 109252840, 109097912, 108939880, 108778757,
  108614558, 108447297, 108276989, 108103650, 107927294, 107747937, 107565596, 107380287, 107192026, 107000829,
  106806713, 106609697, 106409796, 106207029, 106001413, 105792967, 105581708, 105367656, 105150829, 104931245,
  104708925, 104483887, 104256151, 104025737, 103792664, 103556953, 103318625, 103077699, 102834197, 102588139,
  102339547, 102088441, 101834844, 101578777, 101320262, 101059320, 100795975, 100530247, 100262161, 99991737,
  99719000, 99443972, 99166676, 98887136, 98605374, 98321415, 98035281, 97746997, 97456587, 97164074,
  96869483, 96572838, 96274163, 95973483, 95670822, 95366205, 95059658, 94751204, 94440868, 94128677,
  93814655, 93498826, 93181218, 92861854, 92540760, 92217963, 91893487, 91567359, 91239603, 90910246,
  90579314, 90246832, 89912827, 89577324, 89240349, 88901929, 88562090, 88220858, 87878258, 87534317,
  87189062, 86842518, 86494712, 86145670, 85795418, 85443983, 85091390, 84737667, 84382838, 84026931,
  83669972, 83311987, 82953002, 82593043, 82232136, 81870308, 81507584, 81143992, 80779556, 80414302,
  80048257, 79681447, 79313897, 78945633, 78576681, 78207067, 77836816, 77465954, 77094506, 76722497,
  76349954, 75976900, 75603363, 75229366, 74854934, 74480094, 74104869, 73729284, 73353364, 72977133,
  72600617, 72223839, 71846824, 71469596, 71092179, 70714597, 70336873, 69959033, 69581098, 69203093,
  68825042, 68446967, 68068891, 67690838, 67312830, 66934891, 66557042, 66179307, 65801707, 65424265,
  65047003, 64669943, 64293107, 63916516, 63540191, 63164155, 62788428, 62413031, 62037985, 61663311,
  61289029, 60915161, 60541725, 60168742, 59796233, 59424216, 59052711, 58681738, 58311316, 57941464,
  57572201, 57203545, 56835516, 56468131, 56101409, 55735367, 55370024, 55005397, 54641504, 54278361,
  53915987, 53554397, 53193609, 52833640, 52474505, 52116220, 51758802, 51402267, 51046630, 50691907,
  50338112, 49985261, 49633369, 49282450, 48932518, 48583589, 48235676, 47888793, 47542953, 47198171,
  46854459, 46511830, 46170298, 45829876, 45490575, 45152408, 44815387, 44479525, 44144832, 43811321,
  43479002, 43147887, 42817988, 42489313, 42161875, 41835684, 41510750, 41187082, 40864691, 40543586,
  40223777, 39905272, 39588082, 39272214, 38957677, 38644481, 38332632, 38022140, 37713011, 37405254,
  37098877, 36793886, 36490289, 36188093, 35887304, 35587929, 35289974, 34993446, 34698351, 34404695,
  34112482, 33821719, 33532412, 33244564, 32958182, 32673269, 32389831, 32107872, 31827396, 31548407,
  31270910, 30994907, 30720403, 30447401, 30175904, 29905916, 29637438, 29370474, 29105027, 28841099,
  28578692, 28317808, 28058450, 27800618, 27544315, 27289543, 27036301, 26784592, 26534417, 26285777,
  26038671, 25793102, 25549069, 25306572, 25065612, 24826188, 24588302, 24351951, 24117136, 23883857,
  23652112, 23421901, 23193223, 22966077, 22740462, 22516375, 22293817, 22072784, 21853276, 21635291,
  21418827, 21203881, 20990452, 20778537, 20568133, 20359239, 20151852, 19945968, 19741585, 19538700,
  19337310, 19137412, 18939002, 18742078, 18546635, 18352670, 18160179, 17969159, 17779605, 17591515,
  17404882, 17219705, 17035977, 16853696, 16672856, 16493453, 16315483, 16138941, 15963821, 15790120,
  15617832, 15446953, 15277477, 15109400, 14942715, 14777419, 14613505, 14450968, 14289803, 14130004,
  13971565, 13814482, 13658747, 13504357, 13351304, 13199583, 13049187, 12900112, 12752350, 12605897,
  12460745, 12316888, 12174321, 12033037, 11893029, 11754292, 11616818, 11480602, 11345637, 11211917,
  11079434, 10948183, 10818156, 10689348, 10561751, 10435358, 10310164, 10186160, 10063341, 9941699,
  9821228, 9701921, 9583770, 9466770, 9350912, 9236191, 9122598, 9010128, 8898773, 8788525,
  8679379, 8571327, 8464361, 8358475, 8253662, 8149915, 8047226, 7945588, 7844995, 7745439,
  7646913, 7549410, 7452922, 7357444, 7262967, 7169484, 7076988, 6985473, 6894930, 6805354,
  6716736, 6629070, 6542348, 6456564, 6371710, 6287780, 6204766, 6122661, 6041458, 5961150,
  5881730, 5803191, 5725526, 5648728, 5572790, 5497705, 5423466, 5350067, 5277500, 5205758,
  5134835, 5064723, 4995416, 4926908, 4859190, 4792258, 4726102, 4660718, 4596099, 4532236,
  4469125, 4406758, 4345129, 4284231, 4224058, 4164602, 4105858, 4047820, 3990480, 3933832,
  3877870, 3822587, 3767977, 3714035, 3660753, 3608125, 3556145, 3504807, 3454105, 3404032,
  3354583, 3305751, 3257531, 3209916, 3162901, 3116479, 3070645, 3025392, 2980715, 2936609,
  2893067, 2850084, 2807653, 2765770, 2724428, 2683623, 2643348, 2603598, 2564367, 2525651,
  2487443, 2449738, 2412531, 2375817, 2339590, 2303846, 2268578, 2233782, 2199452, 2165584,
  2132172, 2099212, 2066699, 2034626, 2002991, 1971787, 1941010, 1910655, 1880717, 1851192,
  1822075, 1793361, 1765046, 1737124, 1709593, 1682446, 1655680, 1629290, 1603271, 1577620,
  1552332, 1527403, 1502828, 1478604, 1454725, 1431189, 1407990, 1385125, 1362590, 1340381,
  1318493, 1296923, 1275667, 1254722, 1234082, 1213745, 1193707, 1173963, 1154511, 1135347,
  1116466, 1097867, 1079544, 1061494, 1043714, 1026201, 1008951, 991961, 975227, 958746,
  942515, 926530, 910789, 895287, 880023, 864992, 850193, 835621, 821273, 807148,
  793241, 779550, 766072, 752804, 739743, 726887, 714232, 701776, 689516, 677450,
  665575, 653888, 642386, 631068, 619930, 608970, 598185, 587574, 577133, 566861,
  556754, 546811, 537029, 527406, 517939, 508627, 499467, 490457, 481595, 472879,
  464306, 455875, 447583, 439428, 431409, 423524, 415770, 408145, 400648, 393276,
  386029, 378903, 371898, 365011, 358241, 351585, 345043, 338612, 332291, 326077,
  319971, 313969, 308070, 302273, 296575, 290977, 285475, 280069, 274757, 269537,
  264408, 259369, 254419, 249555, 244777, 240082, 235471, 230941, 226492, 222121,
  217828, 213612, 209471, 205404, 201409, 197486, 193634, 189851, 186137, 182489,
  178908, 175391, 171938, 168548, 165220, 161953, 158745, 155597, 152506, 149471,
  146493, 143570, 140701, 137885, 135121, 132408, 129746, 127134, 124570, 122055,
  119586, 117164, 114788, 112456, 110168, 107923, 105721, 103561, 101442, 99363,
  97324, 95324, 93361, 91437, 89550, 87698, 85883, 84102, 82356, 80644,
  78964, 77318, 75703, 74120, 72568, 71046, 69554, 68091, 66657, 65251,
  63873, 62522, 61198, 59900, 58628, 57381, 56158, 54961, 53787, 52636,
  51509, 50404, 49321, 48260, 47221, 46202, 45205, 44227, 43269, 42331,
  41411, 40511, 39628, 38764, 37918, 37088, 36276, 35481, 34702, 33939,
  33192, 32460, 31743, 31042, 30354, 29682, 29023, 28378, 27746, 27128,
  26523, 25930, 25350, 24782, 24226, 23682, 23149, 22628, 22117, 21618,
  21129, 20650, 20182, 19724, 19276, 18837, 18408, 17987, 17576, 17174,
  16781, 16396, 16019, 15651, 15290, 14938, 14593, 14255, 13925, 13603,
  13287, 12978, 12676, 12381, 12092, 11809, 11533, 11263, 10999, 10741,
  10488, 10241, 10000, 9764, 9533, 9308, 9087, 8872, 8661, 8455,
  8254, 8057, 7865, 7677, 7493, 7314, 7138, 6967, 6800, 6636,
  6476, 6320, 6167, 6018, 5872, 5730, 5590, 5454, 5322, 5192,
  5065, 4942, 4821, 4703, 4587, 4475, 4365, 4257, 4152, 4050,
  3950, 3852, 3757, 3664, 3573, 3484, 3397, 3313, 3230, 3149,
  3071, 2994, 2919, 2846, 2774, 2704, 2636, 2570, 2505, 2442,
  2380, 2320, 2261, 2204, 2148, 2093, 2040, 1988, 1937, 1887,
  1839, 1792, 1746, 1701, 1657, 1615, 1573, 1533, 1493, 1454,
  1417, 1380, 1344, 1309, 1275, 1242, 1210, 1178, 1147, 1117,
  1088, 1059, 1032, 1005, 978, 952, 927, 903, 879, 856,
  833, 811, 789, 768, 748, 728, 709, 690, 671, 653,
  636, 619, 602, 586, 570, 555, 540, 525, 511, 497,
  484, 471, 458, 446, 433, 422, 410, 399, 388, 377,
  367, 357, 347, 338, 328, 319, 311, 302, 294, 286,
  278, 270, 262, 255, 248, 241, 234, 228, 222, 215,
  209, 204, 198, 192, 187, 182, 176, 172, 167, 162,
  157, 153, 149, 144, 140, 136, 132, 129, 125, 121,
  118, 115, 111, 108, 105, 102, 99, 96, 93, 91,
  88, 86, 83, 81, 78, 76, 74, 72, 70, 68,
  66, 64, 62, 60, 58, 57, 55, 53, 52, 50,
  49, 47, 46, 45, 43, 42, 41, 40, 38, 37,
  36, 35, 34, 33, 32, 31, 30, 29, 28, 27,
  27, 26, 25, 24, 24, 23, 22, 22, 21, 20,
  20, 19, 18, 18, 17, 17, 16, 16, 15, 15,
  14, 14, 14, 13, 13, 12, 12, 12, 11, 11,
  11, 10, 10, 10, 9, 9, 9, 8, 8, 8,
  8, 7, 7, 7, 7, 7, 6, 6, 6, 6,
  6, 5, 5, 5, 5, 5, 5, 4, 4, 4,
  4, 4, 4, 4, 4, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 3, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0
>>

\* 10^8 erf(n / 65536): second order around the nearest point of the table (error < 1)
ErfPos(n) ==
  IF n >= 1536 * 256 THEN 100000000
  ELSE LET kk == (n + 128) \div 256
           m == n - 256 * kk                              \* |m| <= 128
           t == ((SlopeTab[kk + 1] \div 256) * m) \div 256
           u == ((t * kk) \div 256) * m
       IN ErfTab[kk + 1] + t - u \div 65536
Erf(n) == IF n >= 0 THEN ErfPos(n) ELSE -ErfPos(-n)

Dist(a, b) == IF a < b THEN b - a ELSE a - b
ASSUME Len(ErfTab) = 1537 /\ Len(SlopeTab) = 1537
ASSUME ErfTab[1] = 0 /\ SlopeTab[1] = 112837917 /\ ErfTab[1537] = 100000000
\* erf(x+h) - erf(x) = h (s(x)+s(x+h))/2 - h^2/12 (s'(x+h) - s'(x)), s' = -2 x s, h = 1/256
ASSUME \A k \in 0..1535 :
   Dist(1536 * (ErfTab[k + 2] - ErfTab[k + 1]),
        3 * (SlopeTab[k + 1] + SlopeTab[k + 2])
          + ((((k + 1) * (SlopeTab[k + 2] \div 64) - k * (SlopeTab[k + 1] \div 64)) \div 256) \div 4)) <= 1700
\* the bell: s(x+h) = s(x) e^(-h(2x+h)) to third order, h(2x+h) = (2k+1)/65536
ASSUME \A k \in 0..1535 :
   LET s == SlopeTab[k + 1]
       p == ((s \div 256) * (2 * k + 1)) \div 256        \* s a
       q == ((p \div 256) * (2 * k + 1)) \div 512        \* s a^2 / 2
       w == ((q \div 256) * (2 * k + 1)) \div 768        \* s a^3 / 6
   IN Dist(SlopeTab[k + 2], s - p + q - w) <= 30
=============================================================================
