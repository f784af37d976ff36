------------------------------ MODULE IndepTables ------------------------------
(* natural logarithms of 1..2000, and upper critical values of the chi-square  *)
(* distribution for up to 225 degrees of freedom and the significance levels   *)
(* 0.0001, 0.001, 0.01, 0.05, 0.1, 0.5, both in units of 1/100000 *)
Ln == <<0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906,
   270805, 277259, 283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584, 333220,
   336730, 340120, 343399, 346574, 349651, 352636, 355535, 358352, 361092, 363759, 366356, 368888, 371357, 373767,
   376120, 378419, 380666, 382864, 385015, 387120, 389182, 391202, 393183, 395124, 397029, 398898, 400733, 402535,
   404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888, 417439, 418965, 420469, 421951, 423411, 424850,
   426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945, 438203, 439445, 440672, 441884, 443082,
   444265, 445435, 446591, 447734, 448864, 449981, 451086, 452179, 453260, 454329, 455388, 456435, 457471, 458497,
   459512, 460517, 461512, 462497, 463473, 464439, 465396, 466344, 467283, 468213, 469135, 470048, 470953, 471850,
   472739, 473620, 474493, 475359, 476217, 477068, 477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628,
   484419, 485203, 485981, 486753, 487520, 488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164,
   494876, 495583, 496284, 496981, 497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695,
   504343, 504986, 505625, 506260, 506890, 507517, 508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396,
   512990, 513580, 514166, 514749, 515329, 515906, 516479, 517048, 517615, 518178, 518739, 519296, 519850, 520401,
   520949, 521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750, 526269, 526786, 527300, 527811,
   528320, 528827, 529330, 529832, 530330, 530827, 531321, 531812, 532301, 532788, 533272, 533754, 534233, 534711,
   535186, 535659, 536129, 536598, 537064, 537528, 537990, 538450, 538907, 539363, 539816, 540268, 540717, 541165,
   541610, 542053, 542495, 542935, 543372, 543808, 544242, 544674, 545104, 545532, 545959, 546383, 546806, 547227,
   547646, 548064, 548480, 548894, 549306, 549717, 550126, 550533, 550939, 551343, 551745, 552146, 552545, 552943,
   553339, 553733, 554126, 554518, 554908, 555296, 555683, 556068, 556452, 556834, 557215, 557595, 557973, 558350,
   558725, 559099, 559471, 559842, 560212, 560580, 560947, 561313, 561677, 562040, 562402, 562762, 563121, 563479,
   563835, 564191, 564545, 564897, 565249, 565599, 565948, 566296, 566643, 566988, 567332, 567675, 568017, 568358,
   568698, 569036, 569373, 569709, 570044, 570378, 570711, 571043, 571373, 571703, 572031, 572359, 572685, 573010,
   573334, 573657, 573979, 574300, 574620, 574939, 575257, 575574, 575890, 576205, 576519, 576832, 577144, 577455,
   577765, 578074, 578383, 578690, 578996, 579301, 579606, 579909, 580212, 580513, 580814, 581114, 581413, 581711,
   582008, 582305, 582600, 582895, 583188, 583481, 583773, 584064, 584354, 584644, 584932, 585220, 585507, 585793,
   586079, 586363, 586647, 586930, 587212, 587493, 587774, 588053, 588332, 588610, 588888, 589164, 589440, 589715,
   589990, 590263, 590536, 590808, 591080, 591350, 591620, 591889, 592158, 592426, 592693, 592959, 593225, 593489,
   593754, 594017, 594280, 594542, 594803, 595064, 595324, 595584, 595842, 596101, 596358, 596615, 596871, 597126,
   597381, 597635, 597889, 598141, 598394, 598645, 598896, 599146, 599396, 599645, 599894, 600141, 600389, 600635,
   600881, 601127, 601372, 601616, 601859, 602102, 602345, 602587, 602828, 603069, 603309, 603548, 603787, 604025,
   604263, 604501, 604737, 604973, 605209, 605444, 605678, 605912, 606146, 606379, 606611, 606843, 607074, 607304,
   607535, 607764, 607993, 608222, 608450, 608677, 608904, 609131, 609357, 609582, 609807, 610032, 610256, 610479,
   610702, 610925, 611147, 611368, 611589, 611810, 612030, 612249, 612468, 612687, 612905, 613123, 613340, 613556,
   613773, 613988, 614204, 614419, 614633, 614847, 615060, 615273, 615486, 615698, 615910, 616121, 616331, 616542,
   616752, 616961, 617170, 617379, 617587, 617794, 618002, 618208, 618415, 618621, 618826, 619032, 619236, 619441,
   619644, 619848, 620051, 620254, 620456, 620658, 620859, 621060, 621261, 621461, 621661, 621860, 622059, 622258,
   622456, 622654, 622851, 623048, 623245, 623441, 623637, 623832, 624028, 624222, 624417, 624611, 624804, 624998,
   625190, 625383, 625575, 625767, 625958, 626149, 626340, 626530, 626720, 626910, 627099, 627288, 627476, 627664,
   627852, 628040, 628227, 628413, 628600, 628786, 628972, 629157, 629342, 629527, 629711, 629895, 630079, 630262,
   630445, 630628, 630810, 630992, 631173, 631355, 631536, 631716, 631897, 632077, 632257, 632436, 632615, 632794,
   632972, 633150, 633328, 633505, 633683, 633859, 634036, 634212, 634388, 634564, 634739, 634914, 635089, 635263,
   635437, 635611, 635784, 635957, 636130, 636303, 636475, 636647, 636819, 636990, 637161, 637332, 637502, 637673,
   637843, 638012, 638182, 638351, 638519, 638688, 638856, 639024, 639192, 639359, 639526, 639693, 639859, 640026,
   640192, 640357, 640523, 640688, 640853, 641017, 641182, 641346, 641510, 641673, 641836, 641999, 642162, 642325,
   642487, 642649, 642811, 642972, 643133, 643294, 643455, 643615, 643775, 643935, 644095, 644254, 644413, 644572,
   644731, 644889, 645047, 645205, 645362, 645520, 645677, 645834, 645990, 646147, 646303, 646459, 646614, 646770,
   646925, 647080, 647235, 647389, 647543, 647697, 647851, 648004, 648158, 648311, 648464, 648616, 648768, 648920,
   649072, 649224, 649375, 649527, 649677, 649828, 649979, 650129, 650279, 650429, 650578, 650728, 650877, 651026,
   651175, 651323, 651471, 651619, 651767, 651915, 652062, 652209, 652356, 652503, 652649, 652796, 652942, 653088,
   653233, 653379, 653524, 653669, 653814, 653959, 654103, 654247, 654391, 654535, 654679, 654822, 654965, 655108,
   655251, 655393, 655536, 655678, 655820, 655962, 656103, 656244, 656386, 656526, 656667, 656808, 656948, 657088,
   657228, 657368, 657508, 657647, 657786, 657925, 658064, 658203, 658341, 658479, 658617, 658755, 658893, 659030,
   659167, 659304, 659441, 659578, 659715, 659851, 659987, 660123, 660259, 660394, 660530, 660665, 660800, 660935,
   661070, 661204, 661338, 661473, 661607, 661740, 661874, 662007, 662141, 662274, 662407, 662539, 662672, 662804,
   662936, 663068, 663200, 663332, 663463, 663595, 663726, 663857, 663988, 664118, 664249, 664379, 664509, 664639,
   664769, 664898, 665028, 665157, 665286, 665415, 665544, 665673, 665801, 665929, 666058, 666185, 666313, 666441,
   666568, 666696, 666823, 666950, 667077, 667203, 667330, 667456, 667582, 667708, 667834, 667960, 668085, 668211,
   668336, 668461, 668586, 668711, 668835, 668960, 669084, 669208, 669332, 669456, 669580, 669703, 669827, 669950,
   670073, 670196, 670319, 670441, 670564, 670686, 670808, 670930, 671052, 671174, 671296, 671417, 671538, 671659,
   671780, 671901, 672022, 672143, 672263, 672383, 672503, 672623, 672743, 672863, 672982, 673102, 673221, 673340,
   673459, 673578, 673697, 673815, 673934, 674052, 674170, 674288, 674406, 674524, 674641, 674759, 674876, 674993,
   675110, 675227, 675344, 675460, 675577, 675693, 675809, 675926, 676041, 676157, 676273, 676388, 676504, 676619,
   676734, 676849, 676964, 677079, 677194, 677308, 677422, 677537, 677651, 677765, 677878, 677992, 678106, 678219,
   678333, 678446, 678559, 678672, 678784, 678897, 679010, 679122, 679234, 679347, 679459, 679571, 679682, 679794,
   679906, 680017, 680128, 680239, 680351, 680461, 680572, 680683, 680793, 680904, 681014, 681124, 681235, 681344,
   681454, 681564, 681674, 681783, 681892, 682002, 682111, 682220, 682329, 682437, 682546, 682655, 682763, 682871,
   682979, 683087, 683195, 683303, 683411, 683518, 683626, 683733, 683841, 683948, 684055, 684162, 684268, 684375,
   684482, 684588, 684694, 684801, 684907, 685013, 685118, 685224, 685330, 685435, 685541, 685646, 685751, 685857,
   685961, 686066, 686171, 686276, 686380, 686485, 686589, 686693, 686797, 686901, 687005, 687109, 687213, 687316,
   687420, 687523, 687626, 687730, 687833, 687936, 688038, 688141, 688244, 688346, 688449, 688551, 688653, 688755,
   688857, 688959, 689061, 689163, 689264, 689366, 689467, 689568, 689669, 689770, 689871, 689972, 690073, 690174,
   690274, 690375, 690475, 690575, 690675, 690776, 690875, 690975, 691075, 691175, 691274, 691374, 691473, 691572,
   691672, 691771, 691870, 691968, 692067, 692166, 692264, 692363, 692461, 692560, 692658, 692756, 692854, 692952,
   693049, 693147, 693245, 693342, 693440, 693537, 693634, 693731, 693828, 693925, 694022, 694119, 694216, 694312,
   694409, 694505, 694601, 694698, 694794, 694890, 694986, 695081, 695177, 695273, 695368, 695464, 695559, 695655,
   695750, 695845, 695940, 696035, 696130, 696224, 696319, 696414, 696508, 696602, 696697, 696791, 696885, 696979,
   697073, 697167, 697261, 697354, 697448, 697541, 697635, 697728, 697821, 697915, 698008, 698101, 698193, 698286,
   698379, 698472, 698564, 698657, 698749, 698841, 698934, 699026, 699118, 699210, 699302, 699393, 699485, 699577,
   699668, 699760, 699851, 699942, 700033, 700125, 700216, 700307, 700397, 700488, 700579, 700670, 700760, 700851,
   700941, 701031, 701121, 701212, 701302, 701392, 701481, 701571, 701661, 701751, 701840, 701930, 702019, 702108,
   702198, 702287, 702376, 702465, 702554, 702643, 702731, 702820, 702909, 702997, 703086, 703174, 703262, 703351,
   703439, 703527, 703615, 703703, 703791, 703878, 703966, 704054, 704141, 704229, 704316, 704403, 704491, 704578,
   704665, 704752, 704839, 704925, 705012, 705099, 705186, 705272, 705359, 705445, 705531, 705618, 705704, 705790,
   705876, 705962, 706048, 706133, 706219, 706305, 706390, 706476, 706561, 706647, 706732, 706817, 706902, 706987,
   707072, 707157, 707242, 707327, 707412, 707496, 707581, 707665, 707750, 707834, 707918, 708003, 708087, 708171,
   708255, 708339, 708423, 708506, 708590, 708674, 708757, 708841, 708924, 709008, 709091, 709174, 709257, 709340,
   709423, 709506, 709589, 709672, 709755, 709838, 709920, 710003, 710085, 710168, 710250, 710332, 710414, 710497,
   710579, 710661, 710743, 710824, 710906, 710988, 711070, 711151, 711233, 711314, 711396, 711477, 711558, 711639,
   711721, 711802, 711883, 711964, 712044, 712125, 712206, 712287, 712367, 712448, 712528, 712609, 712689, 712769,
   712850, 712930, 713010, 713090, 713170, 713250, 713330, 713409, 713489, 713569, 713648, 713728, 713807, 713887,
   713966, 714045, 714125, 714204, 714283, 714362, 714441, 714520, 714598, 714677, 714756, 714835, 714913, 714992,
   715070, 715149, 715227, 715305, 715383, 715462, 715540, 715618, 715696, 715774, 715851, 715929, 716007, 716085,
   716162, 716240, 716317, 716395, 716472, 716549, 716627, 716704, 716781, 716858, 716935, 717012, 717089, 717166,
   717242, 717319, 717396, 717472, 717549, 717625, 717702, 717778, 717855, 717931, 718007, 718083, 718159, 718235,
   718311, 718387, 718463, 718539, 718614, 718690, 718766, 718841, 718917, 718992, 719068, 719143, 719218, 719293,
   719369, 719444, 719519, 719594, 719669, 719744, 719818, 719893, 719968, 720042, 720117, 720192, 720266, 720341,
   720415, 720489, 720564, 720638, 720712, 720786, 720860, 720934, 721008, 721082, 721156, 721229, 721303, 721377,
   721450, 721524, 721598, 721671, 721744, 721818, 721891, 721964, 722037, 722111, 722184, 722257, 722330, 722402,
   722475, 722548, 722621, 722694, 722766, 722839, 722911, 722984, 723056, 723129, 723201, 723273, 723346, 723418,
   723490, 723562, 723634, 723706, 723778, 723850, 723921, 723993, 724065, 724137, 724208, 724280, 724351, 724423,
   724494, 724566, 724637, 724708, 724779, 724850, 724922, 724993, 725064, 725134, 725205, 725276, 725347, 725418,
   725488, 725559, 725630, 725700, 725771, 725841, 725912, 725982, 726052, 726123, 726193, 726263, 726333, 726403,
   726473, 726543, 726613, 726683, 726753, 726822, 726892, 726962, 727031, 727101, 727170, 727240, 727309, 727379,
   727448, 727517, 727586, 727656, 727725, 727794, 727863, 727932, 728001, 728070, 728139, 728207, 728276, 728345,
   728413, 728482, 728551, 728619, 728688, 728756, 728824, 728893, 728961, 729029, 729097, 729166, 729234, 729302,
   729370, 729438, 729506, 729574, 729641, 729709, 729777, 729845, 729912, 729980, 730047, 730115, 730182, 730250,
   730317, 730384, 730452, 730519, 730586, 730653, 730720, 730787, 730854, 730921, 730988, 731055, 731122, 731189,
   731255, 731322, 731389, 731455, 731522, 731588, 731655, 731721, 731788, 731854, 731920, 731986, 732053, 732119,
   732185, 732251, 732317, 732383, 732449, 732515, 732581, 732647, 732712, 732778, 732844, 732909, 732975, 733041,
   733106, 733171, 733237, 733302, 733368, 733433, 733498, 733563, 733629, 733694, 733759, 733824, 733889, 733954,
   734019, 734084, 734148, 734213, 734278, 734343, 734407, 734472, 734536, 734601, 734666, 734730, 734794, 734859,
   734923, 734987, 735052, 735116, 735180, 735244, 735308, 735372, 735436, 735500, 735564, 735628, 735692, 735756,
   735819, 735883, 735947, 736010, 736074, 736138, 736201, 736265, 736328, 736391, 736455, 736518, 736581, 736645,
   736708, 736771, 736834, 736897, 736960, 737023, 737086, 737149, 737212, 737275, 737337, 737400, 737463, 737526,
   737588, 737651, 737713, 737776, 737838, 737901, 737963, 738026, 738088, 738150, 738212, 738275, 738337, 738399,
   738461, 738523, 738585, 738647, 738709, 738771, 738833, 738895, 738956, 739018, 739080, 739142, 739203, 739265,
   739326, 739388, 739449, 739511, 739572, 739634, 739695, 739756, 739817, 739879, 739940, 740001, 740062, 740123,
   740184, 740245, 740306, 740367, 740428, 740489, 740550, 740610, 740671, 740732, 740792, 740853, 740914, 740974,
   741035, 741095, 741156, 741216, 741276, 741337, 741397, 741457, 741518, 741578, 741638, 741698, 741758, 741818,
   741878, 741938, 741998, 742058, 742118, 742178, 742237, 742297, 742357, 742417, 742476, 742536, 742595, 742655,
   742714, 742774, 742833, 742893, 742952, 743011, 743071, 743130, 743189, 743248, 743308, 743367, 743426, 743485,
   743544, 743603, 743662, 743721, 743780, 743838, 743897, 743956, 744015, 744073, 744132, 744191, 744249, 744308,
   744366, 744425, 744483, 744542, 744600, 744659, 744717, 744775, 744833, 744892, 744950, 745008, 745066, 745124,
   745182, 745240, 745298, 745356, 745414, 745472, 745530, 745588, 745645, 745703, 745761, 745819, 745876, 745934,
   745991, 746049, 746107, 746164, 746221, 746279, 746336, 746394, 746451, 746508, 746566, 746623, 746680, 746737,
   746794, 746851, 746908, 746965, 747022, 747079, 747136, 747193, 747250, 747307, 747364, 747420, 747477, 747534,
   747591, 747647, 747704, 747760, 747817, 747873, 747930, 747986, 748043, 748099, 748156, 748212, 748268, 748324,
   748381, 748437, 748493, 748549, 748605, 748661, 748717, 748773, 748829, 748885, 748941, 748997, 749053, 749109,
   749165, 749220, 749276, 749332, 749387, 749443, 749499, 749554, 749610, 749665, 749721, 749776, 749832, 749887,
   749942, 749998, 750053, 750108, 750163, 750219, 750274, 750329, 750384, 750439, 750494, 750549, 750604, 750659,
   750714, 750769, 750824, 750879, 750934, 750988, 751043, 751098, 751152, 751207, 751262, 751316, 751371, 751425,
   751480, 751534, 751589, 751643, 751698, 751752, 751806, 751861, 751915, 751969, 752023, 752078, 752132, 752186,
   752240, 752294, 752348, 752402, 752456, 752510, 752564, 752618, 752672, 752726, 752779, 752833, 752887, 752941,
   752994, 753048, 753102, 753155, 753209, 753262, 753316, 753369, 753423, 753476, 753530, 753583, 753636, 753690,
   753743, 753796, 753849, 753903, 753956, 754009, 754062, 754115, 754168, 754221, 754274, 754327, 754380, 754433,
   754486, 754539, 754592, 754645, 754697, 754750, 754803, 754856, 754908, 754961, 755014, 755066, 755119, 755171,
   755224, 755276, 755329, 755381, 755433, 755486, 755538, 755591, 755643, 755695, 755747, 755799, 755852, 755904,
   755956, 756008, 756060, 756112, 756164, 756216, 756268, 756320, 756372, 756424, 756476, 756528, 756579, 756631,
   756683, 756735, 756786, 756838, 756890, 756941, 756993, 757044, 757096, 757147, 757199, 757250, 757302, 757353,
   757405, 757456, 757507, 757558, 757610, 757661, 757712, 757763, 757815, 757866, 757917, 757968, 758019, 758070,
   758121, 758172, 758223, 758274, 758325, 758376, 758426, 758477, 758528, 758579, 758630, 758680, 758731, 758782,
   758832, 758883, 758934, 758984, 759035, 759085, 759136, 759186, 759237, 759287, 759337, 759388, 759438, 759488,
   759539, 759589, 759639, 759689, 759740, 759790, 759840, 759890, 759940, 759990, 760040, 760090>>
(* significance levels, in units of 1/10000 *)
Levels == <<1, 10, 100, 500, 1000, 5000>>
(* Crit[df][level] *)
Crit == <<<<1513671, 1082757, 663490, 384146, 270554, 45494>>, <<1842068, 1381551, 921034, 599146, 460517, 138629>>,
   <<2110751, 1626624, 1134487, 781473, 625139, 236597>>, <<2351274, 1846683, 1327670, 948773, 777944, 335669>>,
   <<2574483, 2051501, 1508627, 1107050, 923636, 435146>>, <<2785634, 2245774, 1681189, 1259159, 1064464, 534812>>,
   <<2987750, 2432189, 1847531, 1406714, 1201704, 634581>>, <<3182763, 2612448, 2009024, 1550731, 1336157, 734412>>,
   <<3371995, 2787716, 2166599, 1691898, 1468366, 834283>>, <<3556401, 2958830, 2320925, 1830704, 1598718, 934182>>,
   <<3736699, 3126413, 2472497, 1967514, 1727501, 1034100>>, <<3913440, 3290949, 2621697, 2102607, 1854935, 1134032>>,
   <<4087066, 3452818, 2768825, 2236203, 1981193, 1233976>>, <<4257929, 3612327, 2914124, 2368479, 2106414, 1333927>>,
   <<4426322, 3769730, 3057791, 2499579, 2230713, 1433886>>, <<4592490, 3925235, 3199993, 2629623, 2354183, 1533850>>,
   <<4756637, 4079022, 3340866, 2758711, 2476904, 1633818>>, <<4918939, 4231240, 3480531, 2886930, 2598942, 1733790>>,
   <<5079549, 4382020, 3619087, 3014353, 2720357, 1833765>>, <<5238597, 4531475, 3756623, 3141043, 2841198, 1933743>>,
   <<5396200, 4679704, 3893217, 3267057, 2961509, 2033723>>, <<5552459, 4826794, 4028936, 3392444, 3081328, 2133704>>,
   <<5707464, 4972823, 4163840, 3517246, 3200690, 2233688>>, <<5861297, 5117860, 4297982, 3641503, 3319624, 2333673>>,
   <<6014029, 5261966, 4431410, 3765248, 3438159, 2433659>>, <<6165726, 5405196, 4564168, 3888514, 3556317, 2533646>>,
   <<6316447, 5547602, 4696294, 4011327, 3674122, 2633634>>, <<6466245, 5689229, 4827824, 4133714, 3791592, 2733623>>,
   <<6615168, 5830117, 4958788, 4255697, 3908747, 2833613>>, <<6763263, 5970306, 5089218, 4377297, 4025602, 2933603>>,
   <<6910569, 6109831, 5219139, 4498534, 4142174, 3033594>>, <<7057125, 6248722, 5348577, 4619426, 4258475, 3133586>>,
   <<7202964, 6387010, 5477554, 4739988, 4374518, 3233578>>, <<7348120, 6524722, 5606091, 4860237, 4490316, 3333571>>,
   <<7492622, 6661883, 5734207, 4980185, 4605879, 3433564>>, <<7636498, 6798517, 5861921, 5099846, 4721217, 3533557>>,
   <<7779773, 6934645, 5989250, 5219232, 4836341, 3633551>>, <<7922472, 7070289, 6116209, 5338354, 4951258, 3733545>>,
   <<8064617, 7205466, 6242812, 5457223, 5065977, 3833540>>, <<8206229, 7340196, 6369074, 5575848, 5180506, 3933534>>,
   <<8347329, 7474494, 6495007, 5694239, 5294851, 4033529>>, <<8487933, 7608376, 6620624, 5812404, 5409020, 4133525>>,
   <<8628061, 7741858, 6745935, 5930351, 5523019, 4233520>>, <<8767728, 7874952, 6870951, 6048089, 5636854, 4333516>>,
   <<8906951, 8007673, 6995683, 6165623, 5750530, 4433512>>, <<9045743, 8140033, 7120140, 6282962, 5864054, 4533508>>,
   <<9184118, 8272042, 7244331, 6400111, 5977429, 4633504>>, <<9322091, 8403713, 7368264, 6517077, 6090661, 4733500>>,
   <<9459672, 8535056, 7491947, 6633865, 6203754, 4833497>>, <<9596875, 8666082, 7615389, 6750481, 6316712, 4933494>>,
   <<9733710, 8796798, 7738596, 6866929, 6429540, 5033490>>, <<9870188, 8927215, 7861576, 6983216, 6542241, 5133487>>,
   <<10006319, 9057341, 7984334, 7099345, 6654820, 5233484>>, <<10142113, 9187185, 8106877, 7215322, 6767279, 5333482>>,
   <<10277580, 9316753, 8229212, 7331149, 6879621, 5433479>>, <<10412728, 9446054, 8351343, 7446832, 6991851, 5533476>>,
   <<10547565, 9575095, 8473277, 7562375, 7103971, 5633474>>, <<10682100, 9703883, 8595018, 7677780, 7215984, 5733471>>,
   <<10816340, 9832423, 8716571, 7793052, 7327893, 5833469>>, <<10950293, 9960723, 8837942, 7908194, 7439701, 5933467>>,
   <<11083966, 10088789, 8959134, 8023210, 7551409, 6033464>>, <<11217366, 10216625, 9080153, 8138102, 7663021, 6133462>>,
   <<11350499, 10344238, 9201002, 8252873, 7774538, 6233460>>, <<11483372, 10471633, 9321686, 8367526, 7885964, 6333458>>,
   <<11615991, 10598814, 9442208, 8482065, 7997300, 6433456>>, <<11748361, 10725788, 9562572, 8596491, 8108549, 6533454>>,
   <<11880488, 10852558, 9682782, 8710807, 8219711, 6633453>>, <<12012378, 10979130, 9802840, 8825016, 8330790, 6733451>>,
   <<12144035, 11105507, 9922752, 8939121, 8441787, 6833449>>, <<12275465, 11231693, 10042518, 9053123, 8552704, 6933447>>,
   <<12406673, 11357694, 10162144, 9167024, 8663543, 7033446>>, <<12537663, 11483512, 10281631, 9280827, 8774305, 7133444>>,
   <<12668440, 11609151, 10400983, 9394534, 8884992, 7233443>>, <<12799007, 11734616, 10520203, 9508147, 8995605, 7333441>>,
   <<12929370, 11859909, 10639292, 9621667, 9106146, 7433440>>, <<13059533, 11985035, 10758254, 9735097, 9216617, 7533438>>,
   <<13189498, 12109996, 10877092, 9848438, 9327018, 7633437>>, <<13319271, 12234795, 10995807, 9961693, 9437352, 7733436>>,
   <<13448854, 12359437, 11114402, 10074862, 9547619, 7833434>>, <<13578252, 12483922, 11232879, 10187947, 9657820, 7933433>>,
   <<13707468, 12608256, 11351241, 10300951, 9767958, 8033432>>, <<13836504, 12732440, 11469489, 10413874, 9878033, 8133431>>,
   <<13965365, 12856477, 11587627, 10526718, 9988046, 8233429>>, <<14094054, 12980369, 11705654, 10639484, 10097999, 8333428>>,
   <<14222573, 13104120, 11823575, 10752174, 10207892, 8433427>>, <<14350926, 13227732, 11941390, 10864789, 10317726, 8533426>>,
   <<14479115, 13351207, 12059101, 10977331, 10427504, 8633425>>, <<14607143, 13474548, 12176711, 11089800, 10537225, 8733424>>,
   <<14735014, 13597757, 12294221, 11202199, 10646890, 8833423>>, <<14862729, 13720835, 12411632, 11314527, 10756501, 8933422>>,
   <<14990291, 13843786, 12528946, 11426787, 10866058, 9033421>>, <<15117703, 13966612, 12646166, 11538979, 10975563, 9133420>>,
   <<15244967, 14089313, 12763291, 11651105, 11085015, 9233419>>, <<15372085, 14211894, 12880325, 11763165, 11194417, 9333418>>,
   <<15499061, 14334354, 12997268, 11875161, 11303769, 9433417>>, <<15625895, 14456697, 13114122, 11987094, 11413071, 9533416>>,
   <<15752590, 14578923, 13230888, 12098964, 11522324, 9633415>>, <<15879149, 14701036, 13347567, 12210773, 11631530, 9733415>>,
   <<16005574, 14823036, 13464162, 12322522, 11740688, 9833414>>, <<16131866, 14944925, 13580672, 12434211, 11849800, 9933413>>,
   <<16258027, 15066706, 13697100, 12545842, 11958867, 10033412>>, <<16384060, 15188378, 13813447, 12657415, 12067888, 10133411>>,
   <<16509966, 15309945, 13929714, 12768931, 12176865, 10233411>>, <<16635747, 15431408, 14045901, 12880391, 12285798, 10333410>>,
   <<16761405, 15552768, 14162011, 12991796, 12394688, 10433409>>, <<16886941, 15674026, 14278044, 13103146, 12503536, 10533408>>,
   <<17012358, 15795185, 14394002, 13214442, 12612342, 10633408>>, <<17137657, 15916244, 14509884, 13325686, 12721106, 10733407>>,
   <<17262840, 16037207, 14625694, 13436878, 12829830, 10833406>>, <<17387907, 16158074, 14741431, 13548018, 12938514, 10933406>>,
   <<17512862, 16278846, 14857096, 13659107, 13047158, 11033405>>, <<17637705, 16399525, 14972690, 13770146, 13155763, 11133404>>,
   <<17762437, 16520112, 15088216, 13881136, 13264329, 11233404>>, <<17887061, 16640609, 15203672, 13992077, 13372857, 11333403>>,
   <<18011578, 16761015, 15319060, 14102970, 13481348, 11433402>>, <<18135989, 16881333, 15434382, 14213816, 13589802, 11533402>>,
   <<18260295, 17001564, 15549638, 14324615, 13698220, 11633401>>, <<18384497, 17121709, 15664828, 14435367, 13806601, 11733401>>,
   <<18508598, 17241768, 15779954, 14546074, 13914946, 11833400>>, <<18632599, 17361744, 15895017, 14656736, 14023257, 11933400>>,
   <<18756499, 17481636, 16010016, 14767353, 14131533, 12033399>>, <<18880302, 17601447, 16124954, 14877926, 14239774, 12133398>>,
   <<19004008, 17721176, 16239831, 14988456, 14347982, 12233398>>, <<19127618, 17840826, 16354647, 15098943, 14456156, 12333397>>,
   <<19251133, 17960397, 16469403, 15209388, 14564297, 12433397>>, <<19374555, 18079889, 16584100, 15319790, 14672405, 12533396>>,
   <<19497884, 18199305, 16698739, 15430152, 14780481, 12633396>>, <<19621122, 18318644, 16813320, 15540472, 14888526, 12733395>>,
   <<19744270, 18437908, 16927845, 15650752, 14996538, 12833395>>, <<19867328, 18557097, 17042313, 15760992, 15104520, 12933394>>,
   <<19990298, 18676213, 17156725, 15871193, 15212471, 13033394>>, <<20113181, 18795256, 17271082, 15981355, 15320391, 13133394>>,
   <<20235978, 18914227, 17385385, 16091478, 15428281, 13233393>>, <<20358690, 19033127, 17499635, 16201563, 15536142, 13333393>>,
   <<20481317, 19151957, 17613831, 16311610, 15643973, 13433392>>, <<20603861, 19270717, 17727974, 16421620, 15751775, 13533392>>,
   <<20726323, 19389408, 17842066, 16531593, 15859549, 13633391>>, <<20848703, 19508032, 17956106, 16641530, 15967293, 13733391>>,
   <<20971003, 19626588, 18070095, 16751430, 16075010, 13833390>>, <<21093222, 19745077, 18184034, 16861295, 16182699, 13933390>>,
   <<21215363, 19863501, 18297923, 16971125, 16290360, 14033390>>, <<21337426, 19981859, 18411763, 17080920, 16397995, 14133389>>,
   <<21459411, 20100153, 18525554, 17190680, 16505602, 14233389>>, <<21581320, 20218383, 18639297, 17300406, 16613182, 14333388>>,
   <<21703153, 20336550, 18752992, 17410098, 16720737, 14433388>>, <<21824911, 20454655, 18866640, 17519757, 16828265, 14533388>>,
   <<21946595, 20572697, 18980241, 17629382, 16935767, 14633387>>, <<22068206, 20690679, 19093796, 17738975, 17043243, 14733387>>,
   <<22189744, 20808600, 19207305, 17848535, 17150695, 14833387>>, <<22311210, 20926460, 19320769, 17958063, 17258121, 14933386>>,
   <<22432605, 21044262, 19434188, 18067560, 17365522, 15033386>>, <<22553930, 21162005, 19547562, 18177025, 17472899, 15133386>>,
   <<22675184, 21279689, 19660893, 18286458, 17580252, 15233385>>, <<22796370, 21397316, 19774179, 18395861, 17687580, 15333385>>,
   <<22917487, 21514886, 19887423, 18505233, 17794885, 15433385>>, <<23038536, 21632399, 20000624, 18614575, 17902166, 15533384>>,
   <<23159518, 21749856, 20113783, 18723887, 18009424, 15633384>>, <<23280434, 21867258, 20226900, 18833169, 18116658, 15733384>>,
   <<23401284, 21984605, 20339975, 18942422, 18223870, 15833383>>, <<23522068, 22101897, 20453009, 19051646, 18331058, 15933383>>,
   <<23642788, 22219135, 20566003, 19160840, 18438225, 16033383>>, <<23763444, 22336321, 20678956, 19270007, 18545369, 16133382>>,
   <<23884036, 22453453, 20791869, 19379144, 18652490, 16233382>>, <<24004566, 22570532, 20904743, 19488254, 18759590, 16333382>>,
   <<24125033, 22687560, 21017577, 19597336, 18866669, 16433381>>, <<24245438, 22804536, 21130373, 19706391, 18973725, 16533381>>,
   <<24365783, 22921462, 21243129, 19815418, 19080761, 16633381>>, <<24486066, 23038336, 21355848, 19924418, 19187775, 16733381>>,
   <<24606290, 23155161, 21468529, 20033391, 19294769, 16833380>>, <<24726454, 23271936, 21581172, 20142337, 19401742, 16933380>>,
   <<24846559, 23388662, 21693778, 20251258, 19508694, 17033380>>, <<24966605, 23505338, 21806348, 20360152, 19615625, 17133379>>,
   <<25086594, 23621967, 21918880, 20469020, 19722537, 17233379>>, <<25206524, 23738548, 22031377, 20577863, 19829429, 17333379>>,
   <<25326398, 23855081, 22143837, 20686680, 19936300, 17433379>>, <<25446216, 23971567, 22256262, 20795472, 20043153, 17533378>>,
   <<25565977, 24088006, 22368652, 20904239, 20149985, 17633378>>, <<25685683, 24204399, 22481007, 21012981, 20256798, 17733378>>,
   <<25805333, 24320745, 22593327, 21121698, 20363592, 17833378>>, <<25924929, 24437047, 22705612, 21230391, 20470367, 17933377>>,
   <<26044471, 24553303, 22817864, 21339060, 20577124, 18033377>>, <<26163959, 24669514, 22930082, 21447705, 20683861, 18133377>>,
   <<26283393, 24785681, 23042266, 21556326, 20790580, 18233377>>, <<26402775, 24901804, 23154416, 21664924, 20897281, 18333376>>,
   <<26522104, 25017883, 23266534, 21773498, 21003963, 18433376>>, <<26641382, 25133919, 23378619, 21882049, 21110627, 18533376>>,
   <<26760607, 25249911, 23490672, 21990577, 21217273, 18633376>>, <<26879782, 25365861, 23602692, 22099082, 21323902, 18733376>>,
   <<26998906, 25481769, 23714680, 22207565, 21430513, 18833375>>, <<27117979, 25597635, 23826637, 22316025, 21537106, 18933375>>,
   <<27237002, 25713459, 23938562, 22424462, 21643682, 19033375>>, <<27355976, 25829242, 24050456, 22532878, 21750241, 19133375>>,
   <<27474900, 25944983, 24162319, 22641272, 21856782, 19233374>>, <<27593776, 26060684, 24274151, 22749644, 21963307, 19333374>>,
   <<27712603, 26176345, 24385953, 22857994, 22069814, 19433374>>, <<27831382, 26291965, 24497724, 22966323, 22176305, 19533374>>,
   <<27950114, 26407546, 24609466, 23074630, 22282780, 19633374>>, <<28068798, 26523087, 24721177, 23182917, 22389238, 19733373>>,
   <<28187435, 26638590, 24832860, 23291182, 22495679, 19833373>>, <<28306025, 26754053, 24944512, 23399427, 22602105, 19933373>>,
   <<28424570, 26869477, 25056136, 23507651, 22708514, 20033373>>, <<28543068, 26984864, 25167731, 23615855, 22814907, 20133373>>,
   <<28661520, 27100212, 25279297, 23724038, 22921285, 20233372>>, <<28779928, 27215523, 25390834, 23832201, 23027647, 20333372>>,
   <<28898290, 27330796, 25502343, 23940344, 23133993, 20433372>>, <<29016608, 27446032, 25613824, 24048467, 23240323, 20533372>>,
   <<29134881, 27561231, 25725278, 24156571, 23346639, 20633372>>, <<29253110, 27676393, 25836703, 24264654, 23452939, 20733371>>,
   <<29371296, 27791520, 25948102, 24372719, 23559223, 20833371>>, <<29489439, 27906609, 26059472, 24480764, 23665493, 20933371>>,
   <<29607538, 28021664, 26170816, 24588790, 23771748, 21033371>>, <<29725595, 28136682, 26282133, 24696797, 23877988, 21133371>>,
   <<29843609, 28251665, 26393423, 24804784, 23984213, 21233371>>, <<29961581, 28366613, 26504687, 24912754, 24090424, 21333370>>,
   <<30079512, 28481526, 26615925, 25020704, 24196620, 21433370>>, <<30197400, 28596405, 26727136, 25128636, 24302801, 21533370>>,
   <<30315248, 28711249, 26838321, 25236550, 24408968, 21633370>>, <<30433054, 28826059, 26949481, 25344445, 24515121, 21733370>>,
   <<30550820, 28940835, 27060615, 25452322, 24621260, 21833370>>, <<30668546, 29055578, 27171723, 25560182, 24727385, 21933369>>,
   <<30786231, 29170287, 27282807, 25668023, 24833496, 22033369>>, <<30903876, 29284962, 27393865, 25775847, 24939593, 22133369>>,
   <<31021482, 29399605, 27504898, 25883653, 25045676, 22233369>>, <<31139048, 29514215, 27615907, 25991441, 25151746, 22333369>>,
   <<31256576, 29628793, 27726891, 26099212, 25257802, 22433369>>>>
=============================================================================
