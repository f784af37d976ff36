package main

// upper critical values of the chi-square distribution, in 1/100000
var critTable = [][]int{
	{1513671, 1082757, 663490, 384146, 270554, 45494},
	{1842068, 1381551, 921034, 599146, 460517, 138629},
	{2110751, 1626624, 1134487, 781473, 625139, 236597},
	{2351274, 1846683, 1327670, 948773, 777944, 335669},
	{2574483, 2051501, 1508627, 1107050, 923636, 435146},
	{2785634, 2245774, 1681189, 1259159, 1064464, 534812},
	{2987750, 2432189, 1847531, 1406714, 1201704, 634581},
	{3182763, 2612448, 2009024, 1550731, 1336157, 734412},
	{3371995, 2787716, 2166599, 1691898, 1468366, 834283},
	{3556401, 2958830, 2320925, 1830704, 1598718, 934182},
	{3736699, 3126413, 2472497, 1967514, 1727501, 1034100},
	{3913440, 3290949, 2621697, 2102607, 1854935, 1134032},
	{4087066, 3452818, 2768825, 2236203, 1981193, 1233976},
	{4257929, 3612327, 2914124, 2368479, 2106414, 1333927},
	{4426322, 3769730, 3057791, 2499579, 2230713, 1433886},
	{4592490, 3925235, 3199993, 2629623, 2354183, 1533850},
	{4756637, 4079022, 3340866, 2758711, 2476904, 1633818},
	{4918939, 4231240, 3480531, 2886930, 2598942, 1733790},
	{5079549, 4382020, 3619087, 3014353, 2720357, 1833765},
	{5238597, 4531475, 3756623, 3141043, 2841198, 1933743},
	{5396200, 4679704, 3893217, 3267057, 2961509, 2033723},
	{5552459, 4826794, 4028936, 3392444, 3081328, 2133704},
	{5707464, 4972823, 4163840, 3517246, 3200690, 2233688},
	{5861297, 5117860, 4297982, 3641503, 3319624, 2333673},
	{6014029, 5261966, 4431410, 3765248, 3438159, 2433659},
	{6165726, 5405196, 4564168, 3888514, 3556317, 2533646},
	{6316447, 5547602, 4696294, 4011327, 3674122, 2633634},
	{6466245, 5689229, 4827824, 4133714, 3791592, 2733623},
	{6615168, 5830117, 4958788, 4255697, 3908747, 2833613},
	{6763263, 5970306, 5089218, 4377297, 4025602, 2933603},
	{6910569, 6109831, 5219139, 4498534, 4142174, 3033594},
	{7057125, 6248722, 5348577, 4619426, 4258475, 3133586},
	{7202964, 6387010, 5477554, 4739988, 4374518, 3233578},
	{7348120, 6524722, 5606091, 4860237, 4490316, 3333571},
	{7492622, 6661883, 5734207, 4980185, 4605879, 3433564},
	{7636498, 6798517, 5861921, 5099846, 4721217, 3533557},
	{7779773, 6934645, 5989250, 5219232, 4836341, 3633551},
	{7922472, 7070289, 6116209, 5338354, 4951258, 3733545},
	{8064617, 7205466, 6242812, 5457223, 5065977, 3833540},
	{8206229, 7340196, 6369074, 5575848, 5180506, 3933534},
	{8347329, 7474494, 6495007, 5694239, 5294851, 4033529},
	{8487933, 7608376, 6620624, 5812404, 5409020, 4133525},
	{8628061, 7741858, 6745935, 5930351, 5523019, 4233520},
	{8767728, 7874952, 6870951, 6048089, 5636854, 4333516},
	{8906951, 8007673, 6995683, 6165623, 5750530, 4433512},
	{9045743, 8140033, 7120140, 6282962, 5864054, 4533508},
	{9184118, 8272042, 7244331, 6400111, 5977429, 4633504},
	{9322091, 8403713, 7368264, 6517077, 6090661, 4733500},
	{9459672, 8535056, 7491947, 6633865, 6203754, 4833497},
	{9596875, 8666082, 7615389, 6750481, 6316712, 4933494},
	{9733710, 8796798, 7738596, 6866929, 6429540, 5033490},
	{9870188, 8927215, 7861576, 6983216, 6542241, 5133487},
	{10006319, 9057341, 7984334, 7099345, 6654820, 5233484},
	{10142113, 9187185, 8106877, 7215322, 6767279, 5333482},
	{10277580, 9316753, 8229212, 7331149, 6879621, 5433479},
	{10412728, 9446054, 8351343, 7446832, 6991851, 5533476},
	{10547565, 9575095, 8473277, 7562375, 7103971, 5633474},
	{10682100, 9703883, 8595018, 7677780, 7215984, 5733471},
	{10816340, 9832423, 8716571, 7793052, 7327893, 5833469},
	{10950293, 9960723, 8837942, 7908194, 7439701, 5933467},
	{11083966, 10088789, 8959134, 8023210, 7551409, 6033464},
	{11217366, 10216625, 9080153, 8138102, 7663021, 6133462},
	{11350499, 10344238, 9201002, 8252873, 7774538, 6233460},
	{11483372, 10471633, 9321686, 8367526, 7885964, 6333458},
	{11615991, 10598814, 9442208, 8482065, 7997300, 6433456},
	{11748361, 10725788, 9562572, 8596491, 8108549, 6533454},
	{11880488, 10852558, 9682782, 8710807, 8219711, 6633453},
	{12012378, 10979130, 9802840, 8825016, 8330790, 6733451},
	{12144035, 11105507, 9922752, 8939121, 8441787, 6833449},
	{12275465, 11231693, 10042518, 9053123, 8552704, 6933447},
	{12406673, 11357694, 10162144, 9167024, 8663543, 7033446},
	{12537663, 11483512, 10281631, 9280827, 8774305, 7133444},
	{12668440, 11609151, 10400983, 9394534, 8884992, 7233443},
	{12799007, 11734616, 10520203, 9508147, 8995605, 7333441},
	{12929370, 11859909, 10639292, 9621667, 9106146, 7433440},
	{13059533, 11985035, 10758254, 9735097, 9216617, 7533438},
	{13189498, 12109996, 10877092, 9848438, 9327018, 7633437},
	{13319271, 12234795, 10995807, 9961693, 9437352, 7733436},
	{13448854, 12359437, 11114402, 10074862, 9547619, 7833434},
	{13578252, 12483922, 11232879, 10187947, 9657820, 7933433},
	{13707468, 12608256, 11351241, 10300951, 9767958, 8033432},
	{13836504, 12732440, 11469489, 10413874, 9878033, 8133431},
	{13965365, 12856477, 11587627, 10526718, 9988046, 8233429},
	{14094054, 12980369, 11705654, 10639484, 10097999, 8333428},
	{14222573, 13104120, 11823575, 10752174, 10207892, 8433427},
	{14350926, 13227732, 11941390, 10864789, 10317726, 8533426},
	{14479115, 13351207, 12059101, 10977331, 10427504, 8633425},
	{14607143, 13474548, 12176711, 11089800, 10537225, 8733424},
	{14735014, 13597757, 12294221, 11202199, 10646890, 8833423},
	{14862729, 13720835, 12411632, 11314527, 10756501, 8933422},
	{14990291, 13843786, 12528946, 11426787, 10866058, 9033421},
	{15117703, 13966612, 12646166, 11538979, 10975563, 9133420},
	{15244967, 14089313, 12763291, 11651105, 11085015, 9233419},
	{15372085, 14211894, 12880325, 11763165, 11194417, 9333418},
	{15499061, 14334354, 12997268, 11875161, 11303769, 9433417},
	{15625895, 14456697, 13114122, 11987094, 11413071, 9533416},
	{15752590, 14578923, 13230888, 12098964, 11522324, 9633415},
	{15879149, 14701036, 13347567, 12210773, 11631530, 9733415},
	{16005574, 14823036, 13464162, 12322522, 11740688, 9833414},
	{16131866, 14944925, 13580672, 12434211, 11849800, 9933413},
	{16258027, 15066706, 13697100, 12545842, 11958867, 10033412},
	{16384060, 15188378, 13813447, 12657415, 12067888, 10133411},
	{16509966, 15309945, 13929714, 12768931, 12176865, 10233411},
	{16635747, 15431408, 14045901, 12880391, 12285798, 10333410},
	{16761405, 15552768, 14162011, 12991796, 12394688, 10433409},
	{16886941, 15674026, 14278044, 13103146, 12503536, 10533408},
	{17012358, 15795185, 14394002, 13214442, 12612342, 10633408},
	{17137657, 15916244, 14509884, 13325686, 12721106, 10733407},
	{17262840, 16037207, 14625694, 13436878, 12829830, 10833406},
	{17387907, 16158074, 14741431, 13548018, 12938514, 10933406},
	{17512862, 16278846, 14857096, 13659107, 13047158, 11033405},
	{17637705, 16399525, 14972690, 13770146, 13155763, 11133404},
	{17762437, 16520112, 15088216, 13881136, 13264329, 11233404},
	{17887061, 16640609, 15203672, 13992077, 13372857, 11333403},
	{18011578, 16761015, 15319060, 14102970, 13481348, 11433402},
	{18135989, 16881333, 15434382, 14213816, 13589802, 11533402},
	{18260295, 17001564, 15549638, 14324615, 13698220, 11633401},
	{18384497, 17121709, 15664828, 14435367, 13806601, 11733401},
	{18508598, 17241768, 15779954, 14546074, 13914946, 11833400},
	{18632599, 17361744, 15895017, 14656736, 14023257, 11933400},
	{18756499, 17481636, 16010016, 14767353, 14131533, 12033399},
	{18880302, 17601447, 16124954, 14877926, 14239774, 12133398},
	{19004008, 17721176, 16239831, 14988456, 14347982, 12233398},
	{19127618, 17840826, 16354647, 15098943, 14456156, 12333397},
	{19251133, 17960397, 16469403, 15209388, 14564297, 12433397},
	{19374555, 18079889, 16584100, 15319790, 14672405, 12533396},
	{19497884, 18199305, 16698739, 15430152, 14780481, 12633396},
	{19621122, 18318644, 16813320, 15540472, 14888526, 12733395},
	{19744270, 18437908, 16927845, 15650752, 14996538, 12833395},
	{19867328, 18557097, 17042313, 15760992, 15104520, 12933394},
	{19990298, 18676213, 17156725, 15871193, 15212471, 13033394},
	{20113181, 18795256, 17271082, 15981355, 15320391, 13133394},
	{20235978, 18914227, 17385385, 16091478, 15428281, 13233393},
	{20358690, 19033127, 17499635, 16201563, 15536142, 13333393},
	{20481317, 19151957, 17613831, 16311610, 15643973, 13433392},
	{20603861, 19270717, 17727974, 16421620, 15751775, 13533392},
	{20726323, 19389408, 17842066, 16531593, 15859549, 13633391},
	{20848703, 19508032, 17956106, 16641530, 15967293, 13733391},
	{20971003, 19626588, 18070095, 16751430, 16075010, 13833390},
	{21093222, 19745077, 18184034, 16861295, 16182699, 13933390},
	{21215363, 19863501, 18297923, 16971125, 16290360, 14033390},
	{21337426, 19981859, 18411763, 17080920, 16397995, 14133389},
	{21459411, 20100153, 18525554, 17190680, 16505602, 14233389},
	{21581320, 20218383, 18639297, 17300406, 16613182, 14333388},
	{21703153, 20336550, 18752992, 17410098, 16720737, 14433388},
	{21824911, 20454655, 18866640, 17519757, 16828265, 14533388},
	{21946595, 20572697, 18980241, 17629382, 16935767, 14633387},
	{22068206, 20690679, 19093796, 17738975, 17043243, 14733387},
	{22189744, 20808600, 19207305, 17848535, 17150695, 14833387},
	{22311210, 20926460, 19320769, 17958063, 17258121, 14933386},
	{22432605, 21044262, 19434188, 18067560, 17365522, 15033386},
	{22553930, 21162005, 19547562, 18177025, 17472899, 15133386},
	{22675184, 21279689, 19660893, 18286458, 17580252, 15233385},
	{22796370, 21397316, 19774179, 18395861, 17687580, 15333385},
	{22917487, 21514886, 19887423, 18505233, 17794885, 15433385},
	{23038536, 21632399, 20000624, 18614575, 17902166, 15533384},
	{23159518, 21749856, 20113783, 18723887, 18009424, 15633384},
	{23280434, 21867258, 20226900, 18833169, 18116658, 15733384},
	{23401284, 21984605, 20339975, 18942422, 18223870, 15833383},
	{23522068, 22101897, 20453009, 19051646, 18331058, 15933383},
	{23642788, 22219135, 20566003, 19160840, 18438225, 16033383},
	{23763444, 22336321, 20678956, 19270007, 18545369, 16133382},
	{23884036, 22453453, 20791869, 19379144, 18652490, 16233382},
	{24004566, 22570532, 20904743, 19488254, 18759590, 16333382},
	{24125033, 22687560, 21017577, 19597336, 18866669, 16433381},
	{24245438, 22804536, 21130373, 19706391, 18973725, 16533381},
	{24365783, 22921462, 21243129, 19815418, 19080761, 16633381},
	{24486066, 23038336, 21355848, 19924418, 19187775, 16733381},
	{24606290, 23155161, 21468529, 20033391, 19294769, 16833380},
	{24726454, 23271936, 21581172, 20142337, 19401742, 16933380},
	{24846559, 23388662, 21693778, 20251258, 19508694, 17033380},
	{24966605, 23505338, 21806348, 20360152, 19615625, 17133379},
	{25086594, 23621967, 21918880, 20469020, 19722537, 17233379},
	{25206524, 23738548, 22031377, 20577863, 19829429, 17333379},
	{25326398, 23855081, 22143837, 20686680, 19936300, 17433379},
	{25446216, 23971567, 22256262, 20795472, 20043153, 17533378},
	{25565977, 24088006, 22368652, 20904239, 20149985, 17633378},
	{25685683, 24204399, 22481007, 21012981, 20256798, 17733378},
	{25805333, 24320745, 22593327, 21121698, 20363592, 17833378},
	{25924929, 24437047, 22705612, 21230391, 20470367, 17933377},
	{26044471, 24553303, 22817864, 21339060, 20577124, 18033377},
	{26163959, 24669514, 22930082, 21447705, 20683861, 18133377},
	{26283393, 24785681, 23042266, 21556326, 20790580, 18233377},
	{26402775, 24901804, 23154416, 21664924, 20897281, 18333376},
	{26522104, 25017883, 23266534, 21773498, 21003963, 18433376},
	{26641382, 25133919, 23378619, 21882049, 21110627, 18533376},
	{26760607, 25249911, 23490672, 21990577, 21217273, 18633376},
	{26879782, 25365861, 23602692, 22099082, 21323902, 18733376},
	{26998906, 25481769, 23714680, 22207565, 21430513, 18833375},
	{27117979, 25597635, 23826637, 22316025, 21537106, 18933375},
	{27237002, 25713459, 23938562, 22424462, 21643682, 19033375},
	{27355976, 25829242, 24050456, 22532878, 21750241, 19133375},
	{27474900, 25944983, 24162319, 22641272, 21856782, 19233374},
	{27593776, 26060684, 24274151, 22749644, 21963307, 19333374},
	{27712603, 26176345, 24385953, 22857994, 22069814, 19433374},
	{27831382, 26291965, 24497724, 22966323, 22176305, 19533374},
	{27950114, 26407546, 24609466, 23074630, 22282780, 19633374},
	{28068798, 26523087, 24721177, 23182917, 22389238, 19733373},
	{28187435, 26638590, 24832860, 23291182, 22495679, 19833373},
	{28306025, 26754053, 24944512, 23399427, 22602105, 19933373},
	{28424570, 26869477, 25056136, 23507651, 22708514, 20033373},
	{28543068, 26984864, 25167731, 23615855, 22814907, 20133373},
	{28661520, 27100212, 25279297, 23724038, 22921285, 20233372},
	{28779928, 27215523, 25390834, 23832201, 23027647, 20333372},
	{28898290, 27330796, 25502343, 23940344, 23133993, 20433372},
	{29016608, 27446032, 25613824, 24048467, 23240323, 20533372},
	{29134881, 27561231, 25725278, 24156571, 23346639, 20633372},
	{29253110, 27676393, 25836703, 24264654, 23452939, 20733371},
	{29371296, 27791520, 25948102, 24372719, 23559223, 20833371},
	{29489439, 27906609, 26059472, 24480764, 23665493, 20933371},
	{29607538, 28021664, 26170816, 24588790, 23771748, 21033371},
	{29725595, 28136682, 26282133, 24696797, 23877988, 21133371},
	{29843609, 28251665, 26393423, 24804784, 23984213, 21233371},
	{29961581, 28366613, 26504687, 24912754, 24090424, 21333370},
	{30079512, 28481526, 26615925, 25020704, 24196620, 21433370},
	{30197400, 28596405, 26727136, 25128636, 24302801, 21533370},
	{30315248, 28711249, 26838321, 25236550, 24408968, 21633370},
	{30433054, 28826059, 26949481, 25344445, 24515121, 21733370},
	{30550820, 28940835, 27060615, 25452322, 24621260, 21833370},
	{30668546, 29055578, 27171723, 25560182, 24727385, 21933369},
	{30786231, 29170287, 27282807, 25668023, 24833496, 22033369},
	{30903876, 29284962, 27393865, 25775847, 24939593, 22133369},
	{31021482, 29399605, 27504898, 25883653, 25045676, 22233369},
	{31139048, 29514215, 27615907, 25991441, 25151746, 22333369},
	{31256576, 29628793, 27726891, 26099212, 25257802, 22433369},
}
