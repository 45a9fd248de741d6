----------------------------- MODULE ColorTables -----------------------------
(* The color maps as red, green, blue in hundred thousandths, one entry after   *)
(* the other; transcribed from the tables of the pinned commit (the published   *)
(* viridis, plasma, magma and cubehelix tables) and never regenerated.          *)
Viridis == <<
    <<26700, 487, 32942>>, <<26851, 961, 33543>>, <<26994, 1462, 34138>>, <<27131, 1994, 34727>>, <<27259, 2556, 35309>>,
    <<27381, 3150, 35885>>, <<27495, 3775, 36454>>, <<27602, 4417, 37016>>, <<27702, 5034, 37572>>, <<27794, 5632, 38119>>,
    <<27879, 6214, 38659>>, <<27957, 6784, 39192>>, <<28027, 7342, 39716>>, <<28089, 7891, 40233>>, <<28145, 8432, 40741>>,
    <<28192, 8967, 41242>>, <<28233, 9496, 41733>>, <<28266, 10020, 42216>>, <<28291, 10539, 42690>>, <<28309, 11055, 43155>>,
    <<28320, 11568, 43612>>, <<28323, 12078, 44058>>, <<28319, 12585, 44496>>, <<28307, 13090, 44924>>, <<28288, 13592, 45343>>,
    <<28262, 14093, 45752>>, <<28229, 14591, 46151>>, <<28189, 15088, 46540>>, <<28141, 15583, 46920>>, <<28087, 16077, 47290>>,
    <<28025, 16569, 47650>>, <<27957, 17060, 48000>>, <<27883, 17549, 48340>>, <<27801, 18037, 48670>>, <<27713, 18523, 48990>>,
    <<27619, 19007, 49300>>, <<27519, 19490, 49600>>, <<27413, 19972, 49891>>, <<27301, 20452, 50172>>, <<27183, 20930, 50443>>,
    <<27059, 21407, 50705>>, <<26931, 21882, 50958>>, <<26797, 22355, 51201>>, <<26658, 22826, 51435>>, <<26515, 23296, 51660>>,
    <<26366, 23763, 51876>>, <<26214, 24229, 52084>>, <<26057, 24692, 52283>>, <<25896, 25154, 52474>>, <<25732, 25613, 52656>>,
    <<25564, 26070, 52831>>, <<25394, 26525, 52998>>, <<25219, 26978, 53158>>, <<25042, 27429, 53310>>, <<24863, 27878, 53456>>,
    <<24681, 28324, 53594>>, <<24497, 28768, 53726>>, <<24311, 29209, 53852>>, <<24124, 29648, 53971>>, <<23935, 30086, 54084>>,
    <<23744, 30520, 54192>>, <<23553, 30953, 54294>>, <<23360, 31383, 54391>>, <<23167, 31811, 54483>>, <<22974, 32236, 54571>>,
    <<22780, 32659, 54653>>, <<22586, 33080, 54731>>, <<22392, 33499, 54805>>, <<22199, 33916, 54875>>, <<22006, 34331, 54941>>,
    <<21813, 34743, 55004>>, <<21621, 35154, 55063>>, <<21430, 35562, 55118>>, <<21240, 35968, 55171>>, <<21050, 36373, 55221>>,
    <<20862, 36775, 55268>>, <<20676, 37176, 55312>>, <<20490, 37575, 55353>>, <<20306, 37972, 55392>>, <<20124, 38367, 55429>>,
    <<19943, 38761, 55464>>, <<19764, 39153, 55497>>, <<19586, 39543, 55528>>, <<19410, 39932, 55556>>, <<19236, 40320, 55584>>,
    <<19063, 40706, 55609>>, <<18892, 41091, 55633>>, <<18723, 41475, 55655>>, <<18556, 41857, 55675>>, <<18390, 42238, 55694>>,
    <<18226, 42618, 55712>>, <<18063, 42998, 55728>>, <<17902, 43376, 55743>>, <<17742, 43753, 55756>>, <<17584, 44129, 55768>>,
    <<17427, 44504, 55779>>, <<17272, 44879, 55788>>, <<17118, 45253, 55797>>, <<16965, 45626, 55803>>, <<16813, 45999, 55808>>,
    <<16662, 46371, 55812>>, <<16512, 46742, 55814>>, <<16362, 47113, 55815>>, <<16214, 47484, 55814>>, <<16066, 47854, 55812>>,
    <<15919, 48224, 55807>>, <<15773, 48593, 55801>>, <<15627, 48962, 55794>>, <<15482, 49331, 55784>>, <<15336, 49700, 55772>>,
    <<15192, 50069, 55759>>, <<15048, 50437, 55743>>, <<14904, 50805, 55725>>, <<14761, 51173, 55705>>, <<14618, 51541, 55682>>,
    <<14476, 51909, 55657>>, <<14334, 52277, 55630>>, <<14194, 52645, 55599>>, <<14054, 53013, 55566>>, <<13915, 53381, 55530>>,
    <<13777, 53749, 55491>>, <<13641, 54117, 55448>>, <<13507, 54485, 55403>>, <<13374, 54854, 55354>>, <<13244, 55222, 55302>>,
    <<13117, 55590, 55246>>, <<12993, 55958, 55186>>, <<12873, 56326, 55123>>, <<12757, 56695, 55056>>, <<12645, 57063, 54984>>,
    <<12539, 57432, 54909>>, <<12440, 57800, 54829>>, <<12346, 58169, 54744>>, <<12261, 58537, 54656>>, <<12183, 58906, 54562>>,
    <<12115, 59274, 54464>>, <<12056, 59642, 54361>>, <<12009, 60010, 54253>>, <<11974, 60378, 54140>>, <<11951, 60746, 54022>>,
    <<11942, 61114, 53898>>, <<11948, 61482, 53769>>, <<11970, 61849, 53635>>, <<12008, 62216, 53495>>, <<12064, 62583, 53349>>,
    <<12138, 62949, 53197>>, <<12231, 63315, 53040>>, <<12344, 63681, 52876>>, <<12478, 64046, 52707>>, <<12633, 64411, 52531>>,
    <<12809, 64775, 52349>>, <<13007, 65138, 52161>>, <<13227, 65501, 51966>>, <<13469, 65864, 51765>>, <<13734, 66225, 51557>>,
    <<14021, 66586, 51343>>, <<14330, 66946, 51122>>, <<14662, 67305, 50894>>, <<15015, 67663, 50659>>, <<15389, 68020, 50417>>,
    <<15785, 68376, 50169>>, <<16202, 68732, 49913>>, <<16638, 69086, 49650>>, <<17095, 69438, 49380>>, <<17571, 69790, 49103>>,
    <<18065, 70140, 48819>>, <<18578, 70489, 48527>>, <<19109, 70837, 48228>>, <<19657, 71183, 47922>>, <<20222, 71527, 47608>>,
    <<20803, 71870, 47287>>, <<21400, 72211, 46959>>, <<22012, 72551, 46623>>, <<22640, 72889, 46279>>, <<23282, 73225, 45928>>,
    <<23937, 73559, 45569>>, <<24607, 73891, 45202>>, <<25290, 74221, 44828>>, <<25986, 74549, 44447>>, <<26694, 74875, 44057>>,
    <<27415, 75199, 43660>>, <<28148, 75520, 43255>>, <<28892, 75839, 42843>>, <<29648, 76156, 42422>>, <<30415, 76470, 41994>>,
    <<31192, 76782, 41559>>, <<31981, 77091, 41115>>, <<32780, 77398, 40664>>, <<33588, 77702, 40205>>, <<34407, 78003, 39738>>,
    <<35236, 78301, 39264>>, <<36074, 78596, 38781>>, <<36921, 78889, 38291>>, <<37778, 79178, 37794>>, <<38643, 79464, 37289>>,
    <<39517, 79748, 36776>>, <<40400, 80028, 36255>>, <<41291, 80304, 35727>>, <<42191, 80577, 35191>>, <<43098, 80847, 34648>>,
    <<44014, 81114, 34097>>, <<44937, 81377, 33538>>, <<45867, 81636, 32973>>, <<46805, 81892, 32400>>, <<47750, 82144, 31820>>,
    <<48703, 82393, 31232>>, <<49662, 82638, 30638>>, <<50627, 82879, 30036>>, <<51599, 83116, 29428>>, <<52578, 83349, 28813>>,
    <<53562, 83578, 28191>>, <<54552, 83804, 27563>>, <<55548, 84025, 26928>>, <<56550, 84243, 26288>>, <<57556, 84457, 25642>>,
    <<58568, 84666, 24990>>, <<59584, 84872, 24333>>, <<60604, 85073, 23671>>, <<61629, 85271, 23005>>, <<62658, 85464, 22335>>,
    <<63690, 85654, 21662>>, <<64726, 85840, 20986>>, <<65764, 86022, 20308>>, <<66805, 86200, 19629>>, <<67849, 86374, 18950>>,
    <<68894, 86545, 18272>>, <<69942, 86712, 17597>>, <<70990, 86875, 16926>>, <<72039, 87035, 16260>>, <<73089, 87192, 15603>>,
    <<74139, 87345, 14956>>, <<75188, 87495, 14323>>, <<76237, 87642, 13706>>, <<77285, 87787, 13111>>, <<78332, 87928, 12540>>,
    <<79376, 88068, 12000>>, <<80418, 88205, 11496>>, <<81458, 88339, 11035>>, <<82494, 88472, 10622>>, <<83527, 88603, 10265>>,
    <<84556, 88732, 9970>>, <<85581, 88860, 9745>>, <<86601, 88987, 9595>>, <<87617, 89112, 9525>>, <<88627, 89237, 9537>>,
    <<89632, 89362, 9634>>, <<90631, 89486, 9812>>, <<91624, 89609, 10072>>, <<92611, 89733, 10407>>, <<93590, 89857, 10813>>,
    <<94564, 89982, 11284>>, <<95530, 90106, 11813>>, <<96489, 90232, 12394>>, <<97442, 90359, 13022>>, <<98387, 90487, 13690>>,
    <<99325, 90616, 14394>>>>
Plasma == <<
    <<5038, 2980, 52798>>, <<6354, 2843, 53312>>, <<7535, 2721, 53801>>, <<8622, 2612, 54266>>, <<9638, 2516, 54710>>,
    <<10598, 2431, 55137>>, <<11512, 2356, 55547>>, <<12390, 2288, 55942>>, <<13238, 2226, 56325>>, <<14060, 2169, 56696>>,
    <<14861, 2115, 57056>>, <<15642, 2065, 57407>>, <<16407, 2017, 57748>>, <<17157, 1971, 58081>>, <<17895, 1925, 58405>>,
    <<18621, 1880, 58723>>, <<19337, 1835, 59033>>, <<20044, 1790, 59336>>, <<20744, 1744, 59633>>, <<21435, 1697, 59924>>,
    <<22120, 1650, 60208>>, <<22798, 1601, 60487>>, <<23472, 1550, 60759>>, <<24140, 1498, 61026>>, <<24803, 1444, 61287>>,
    <<25463, 1388, 61542>>, <<26118, 1331, 61791>>, <<26770, 1272, 62035>>, <<27419, 1211, 62272>>, <<28065, 1149, 62504>>,
    <<28708, 1086, 62730>>, <<29348, 1021, 62949>>, <<29986, 956, 63162>>, <<30621, 890, 63369>>, <<31254, 824, 63570>>,
    <<31886, 758, 63764>>, <<32515, 692, 63951>>, <<33143, 626, 64132>>, <<33768, 562, 64305>>, <<34392, 499, 64471>>,
    <<35015, 438, 64630>>, <<35636, 380, 64781>>, <<36255, 324, 64924>>, <<36873, 272, 65060>>, <<37490, 224, 65188>>,
    <<38105, 181, 65307>>, <<38718, 143, 65418>>, <<39330, 111, 65520>>, <<39941, 86, 65613>>, <<40550, 68, 65698>>,
    <<41158, 58, 65773>>, <<41764, 56, 65839>>, <<42369, 65, 65896>>, <<42972, 83, 65942>>, <<43573, 113, 65980>>,
    <<44173, 154, 66007>>, <<44771, 208, 66024>>, <<45368, 276, 66031>>, <<45962, 357, 66028>>, <<46555, 455, 66014>>,
    <<47146, 568, 65990>>, <<47734, 698, 65955>>, <<48321, 846, 65910>>, <<48906, 1013, 65853>>, <<49488, 1199, 65786>>,
    <<50068, 1406, 65709>>, <<50645, 1633, 65620>>, <<51221, 1883, 65521>>, <<51793, 2156, 65411>>, <<52363, 2453, 65290>>,
    <<52931, 2775, 65159>>, <<53495, 3122, 65016>>, <<54057, 3495, 64864>>, <<54616, 3895, 64701>>, <<55171, 4314, 64528>>,
    <<55724, 4733, 64344>>, <<56274, 5154, 64151>>, <<56820, 5578, 63948>>, <<57363, 6003, 63735>>, <<57903, 6430, 63513>>,
    <<58439, 6858, 63281>>, <<58972, 7288, 63041>>, <<59501, 7719, 62792>>, <<60027, 8152, 62534>>, <<60549, 8585, 62269>>,
    <<61067, 9020, 61995>>, <<61581, 9456, 61714>>, <<62092, 9893, 61426>>, <<62599, 10331, 61130>>, <<63102, 10770, 60829>>,
    <<63601, 11209, 60520>>, <<64096, 11649, 60206>>, <<64587, 12090, 59887>>, <<65075, 12531, 59562>>, <<65558, 12972, 59232>>,
    <<66037, 13414, 58897>>, <<66513, 13857, 58558>>, <<66984, 14299, 58215>>, <<67452, 14742, 57869>>, <<67916, 15185, 57519>>,
    <<68376, 15628, 57166>>, <<68832, 16071, 56810>>, <<69284, 16514, 56452>>, <<69732, 16957, 56092>>, <<70177, 17400, 55730>>,
    <<70618, 17844, 55366>>, <<71055, 18287, 55000>>, <<71488, 18730, 54634>>, <<71918, 19173, 54266>>, <<72344, 19616, 53898>>,
    <<72767, 20059, 53529>>, <<73186, 20501, 53160>>, <<73602, 20944, 52791>>, <<74014, 21386, 52422>>, <<74423, 21829, 52052>>,
    <<74829, 22271, 51683>>, <<75231, 22713, 51315>>, <<75630, 23156, 50947>>, <<76026, 23598, 50579>>, <<76419, 24040, 50213>>,
    <<76809, 24482, 49846>>, <<77196, 24924, 49481>>, <<77580, 25366, 49117>>, <<77960, 25808, 48754>>, <<78338, 26250, 48392>>,
    <<78713, 26692, 48031>>, <<79086, 27134, 47671>>, <<79455, 27577, 47312>>, <<79822, 28020, 46954>>, <<80186, 28463, 46597>>,
    <<80547, 28906, 46242>>, <<80905, 29349, 45887>>, <<81261, 29793, 45534>>, <<81614, 30237, 45182>>, <<81965, 30681, 44831>>,
    <<82313, 31126, 44481>>, <<82659, 31571, 44132>>, <<83002, 32017, 43784>>, <<83342, 32464, 43437>>, <<83680, 32910, 43090>>,
    <<84016, 33358, 42746>>, <<84348, 33806, 42401>>, <<84679, 34255, 42058>>, <<85007, 34705, 41715>>, <<85332, 35155, 41373>>,
    <<85655, 35607, 41032>>, <<85975, 36059, 40692>>, <<86293, 36512, 40352>>, <<86608, 36966, 40013>>, <<86920, 37421, 39674>>,
    <<87230, 37877, 39336>>, <<87538, 38335, 38998>>, <<87842, 38793, 38660>>, <<88144, 39253, 38323>>, <<88444, 39714, 37986>>,
    <<88740, 40176, 37649>>, <<89034, 40640, 37313>>, <<89325, 41105, 36977>>, <<89613, 41571, 36641>>, <<89898, 42039, 36305>>,
    <<90181, 42509, 35969>>, <<90460, 42980, 35633>>, <<90736, 43452, 35297>>, <<91010, 43927, 34961>>, <<91280, 44403, 34625>>,
    <<91547, 44881, 34289>>, <<91811, 45360, 33953>>, <<92071, 45842, 33617>>, <<92329, 46325, 33280>>, <<92582, 46810, 32944>>,
    <<92833, 47298, 32607>>, <<93080, 47787, 32270>>, <<93323, 48278, 31933>>, <<93563, 48771, 31595>>, <<93799, 49267, 31258>>,
    <<94031, 49764, 30920>>, <<94260, 50264, 30582>>, <<94484, 50766, 30243>>, <<94705, 51270, 29905>>, <<94922, 51776, 29566>>,
    <<95134, 52285, 29228>>, <<95343, 52796, 28888>>, <<95547, 53309, 28549>>, <<95747, 53825, 28210>>, <<95942, 54343, 27870>>,
    <<96134, 54864, 27531>>, <<96320, 55387, 27191>>, <<96502, 55912, 26851>>, <<96680, 56440, 26512>>, <<96853, 56970, 26172>>,
    <<97020, 57503, 25833>>, <<97184, 58038, 25493>>, <<97342, 58576, 25154>>, <<97495, 59117, 24815>>, <<97643, 59660, 24477>>,
    <<97786, 60205, 24139>>, <<97923, 60753, 23801>>, <<98056, 61304, 23465>>, <<98183, 61857, 23129>>, <<98304, 62413, 22794>>,
    <<98420, 62972, 22460>>, <<98530, 63533, 22126>>, <<98634, 64097, 21795>>, <<98733, 64663, 21465>>, <<98826, 65233, 21136>>,
    <<98913, 65804, 20810>>, <<98994, 66379, 20486>>, <<99068, 66956, 20164>>, <<99136, 67536, 19845>>, <<99198, 68118, 19530>>,
    <<99254, 68703, 19217>>, <<99303, 69291, 18908>>, <<99346, 69881, 18604>>, <<99381, 70474, 18304>>, <<99410, 71070, 18010>>,
    <<99432, 71668, 17721>>, <<99447, 72269, 17438>>, <<99455, 72873, 17162>>, <<99456, 73479, 16894>>, <<99450, 74088, 16634>>,
    <<99436, 74700, 16382>>, <<99414, 75314, 16140>>, <<99385, 75930, 15909>>, <<99348, 76550, 15689>>, <<99303, 77172, 15481>>,
    <<99250, 77797, 15285>>, <<99190, 78424, 15104>>, <<99121, 79054, 14938>>, <<99044, 79686, 14787>>, <<98959, 80320, 14653>>,
    <<98865, 80958, 14536>>, <<98762, 81598, 14436>>, <<98651, 82240, 14356>>, <<98531, 82885, 14294>>, <<98403, 83532, 14253>>,
    <<98265, 84181, 14230>>, <<98119, 84833, 14228>>, <<97964, 85487, 14245>>, <<97800, 86143, 14281>>, <<97626, 86802, 14335>>,
    <<97444, 87462, 14406>>, <<97253, 88125, 14492>>, <<97053, 88790, 14592>>, <<96844, 89456, 14701>>, <<96627, 90125, 14818>>,
    <<96402, 90795, 14937>>, <<96168, 91467, 15052>>, <<95928, 92141, 15157>>, <<95681, 92815, 15241>>, <<95429, 93491, 15292>>,
    <<95173, 94167, 15292>>, <<94915, 94844, 15218>>, <<94660, 95519, 15033>>, <<94415, 96192, 14686>>, <<94190, 96859, 14096>>,
    <<94002, 97516, 13133>>>>
Magma == <<
    <<146, 47, 1387>>, <<226, 130, 1833>>, <<328, 231, 2371>>, <<451, 349, 2996>>, <<595, 484, 3713>>,
    <<759, 636, 4497>>, <<943, 802, 5284>>, <<1146, 983, 6075>>, <<1371, 1177, 6867>>, <<1616, 1384, 7660>>,
    <<1881, 1603, 8458>>, <<2169, 1832, 9261>>, <<2479, 2072, 10068>>, <<2812, 2320, 10879>>, <<3170, 2576, 11696>>,
    <<3552, 2840, 12521>>, <<3961, 3109, 13352>>, <<4383, 3383, 14189>>, <<4806, 3661, 15033>>, <<5232, 3941, 15884>>,
    <<5662, 4216, 16745>>, <<6095, 4479, 17613>>, <<6533, 4732, 18489>>, <<6976, 4973, 19374>>, <<7426, 5202, 20266>>,
    <<7882, 5418, 21167>>, <<8345, 5622, 22076>>, <<8816, 5813, 22992>>, <<9295, 5990, 23916>>, <<9783, 6153, 24848>>,
    <<10282, 6301, 25785>>, <<10790, 6434, 26729>>, <<11309, 6549, 27678>>, <<11840, 6648, 28632>>, <<12383, 6729, 29588>>,
    <<12938, 6793, 30544>>, <<13505, 6839, 31500>>, <<14086, 6865, 32454>>, <<14678, 6874, 33401>>, <<15284, 6864, 34340>>,
    <<15902, 6835, 35269>>, <<16531, 6791, 36182>>, <<17171, 6730, 37077>>, <<17821, 6658, 37950>>, <<18480, 6573, 38797>>,
    <<19146, 6482, 39615>>, <<19818, 6386, 40401>>, <<20494, 6291, 41151>>, <<21172, 6199, 41865>>, <<21851, 6116, 42539>>,
    <<22530, 6044, 43174>>, <<23208, 5989, 43770>>, <<23883, 5952, 44326>>, <<24554, 5935, 44844>>, <<25222, 5942, 45325>>,
    <<25886, 5971, 45771>>, <<26545, 6024, 46184>>, <<27199, 6099, 46566>>, <<27849, 6198, 46919>>, <<28495, 6317, 47245>>,
    <<29137, 6455, 47546>>, <<29774, 6612, 47824>>, <<30408, 6784, 48081>>, <<31038, 6970, 48319>>, <<31665, 7169, 48538>>,
    <<32290, 7378, 48741>>, <<32911, 7597, 48929>>, <<33531, 7824, 49102>>, <<34148, 8056, 49263>>, <<34764, 8295, 49412>>,
    <<35377, 8537, 49550>>, <<35990, 8783, 49678>>, <<36601, 9031, 49796>>, <<37212, 9282, 49905>>, <<37821, 9533, 50007>>,
    <<38430, 9786, 50100>>, <<39038, 10038, 50186>>, <<39647, 10290, 50266>>, <<40255, 10542, 50339>>, <<40863, 10793, 50405>>,
    <<41471, 11043, 50466>>, <<42079, 11292, 50522>>, <<42688, 11540, 50571>>, <<43297, 11786, 50616>>, <<43906, 12030, 50656>>,
    <<44516, 12272, 50690>>, <<45127, 12513, 50720>>, <<45739, 12752, 50745>>, <<46351, 12989, 50765>>, <<46964, 13224, 50781>>,
    <<47578, 13458, 50792>>, <<48193, 13689, 50799>>, <<48809, 13919, 50801>>, <<49426, 14146, 50799>>, <<50044, 14372, 50792>>,
    <<50663, 14596, 50781>>, <<51283, 14818, 50765>>, <<51904, 15038, 50744>>, <<52527, 15257, 50719>>, <<53151, 15474, 50690>>,
    <<53776, 15689, 50655>>, <<54402, 15903, 50616>>, <<55029, 16116, 50572>>, <<55657, 16327, 50523>>, <<56287, 16537, 50469>>,
    <<56917, 16745, 50410>>, <<57549, 16953, 50347>>, <<58182, 17160, 50278>>, <<58816, 17365, 50204>>, <<59451, 17570, 50124>>,
    <<60087, 17774, 50039>>, <<60724, 17978, 49949>>, <<61362, 18181, 49854>>, <<62000, 18384, 49752>>, <<62640, 18587, 49646>>,
    <<63280, 18789, 49533>>, <<63922, 18992, 49415>>, <<64563, 19195, 49291>>, <<65206, 19399, 49161>>, <<65848, 19603, 49025>>,
    <<66492, 19808, 48884>>, <<67135, 20013, 48736>>, <<67779, 20220, 48582>>, <<68422, 20429, 48422>>, <<69066, 20638, 48256>>,
    <<69710, 20850, 48084>>, <<70353, 21064, 47905>>, <<70996, 21280, 47720>>, <<71639, 21498, 47529>>, <<72280, 21719, 47332>>,
    <<72922, 21944, 47128>>, <<73562, 22171, 46918>>, <<74200, 22402, 46702>>, <<74838, 22638, 46479>>, <<75474, 22877, 46251>>,
    <<76108, 23121, 46016>>, <<76740, 23370, 45776>>, <<77370, 23625, 45529>>, <<77997, 23885, 45276>>, <<78621, 24151, 45018>>,
    <<79243, 24424, 44754>>, <<79861, 24704, 44485>>, <<80475, 24991, 44210>>, <<81086, 25286, 43930>>, <<81691, 25590, 43646>>,
    <<82293, 25902, 43357>>, <<82889, 26223, 43064>>, <<83479, 26554, 42767>>, <<84064, 26895, 42467>>, <<84642, 27247, 42163>>,
    <<85213, 27611, 41857>>, <<85776, 27986, 41550>>, <<86332, 28373, 41240>>, <<86879, 28773, 40930>>, <<87418, 29186, 40620>>,
    <<87946, 29613, 40312>>, <<88465, 30053, 40005>>, <<88973, 30508, 39700>>, <<89470, 30977, 39400>>, <<89955, 31462, 39104>>,
    <<90428, 31961, 38814>>, <<90888, 32476, 38531>>, <<91335, 33005, 38256>>, <<91769, 33550, 37992>>, <<92188, 34110, 37738>>,
    <<92594, 34684, 37496>>, <<92984, 35273, 37268>>, <<93361, 35876, 37054>>, <<93722, 36493, 36857>>, <<94069, 37122, 36676>>,
    <<94401, 37764, 36514>>, <<94718, 38418, 36370>>, <<95021, 39082, 36247>>, <<95310, 39756, 36144>>, <<95585, 40440, 36062>>,
    <<95846, 41132, 36001>>, <<96095, 41832, 35963>>, <<96331, 42539, 35947>>, <<96555, 43252, 35953>>, <<96767, 43970, 35981>>,
    <<96968, 44694, 36031>>, <<97158, 45421, 36103>>, <<97338, 46152, 36196>>, <<97508, 46886, 36311>>, <<97669, 47623, 36447>>,
    <<97821, 48361, 36602>>, <<97964, 49101, 36778>>, <<98100, 49843, 36973>>, <<98228, 50585, 37187>>, <<98348, 51328, 37420>>,
    <<98462, 52071, 37670>>, <<98569, 52815, 37937>>, <<98670, 53558, 38221>>, <<98765, 54302, 38521>>, <<98853, 55045, 38836>>,
    <<98936, 55787, 39167>>, <<99014, 56530, 39512>>, <<99087, 57271, 39871>>, <<99156, 58011, 40244>>, <<99220, 58750, 40630>>,
    <<99278, 59489, 41028>>, <<99333, 60228, 41439>>, <<99383, 60964, 41861>>, <<99431, 61700, 42295>>, <<99474, 62435, 42740>>,
    <<99512, 63170, 43195>>, <<99548, 63903, 43661>>, <<99581, 64634, 44136>>, <<99610, 65366, 44621>>, <<99634, 66097, 45116>>,
    <<99658, 66826, 45619>>, <<99678, 67554, 46131>>, <<99692, 68283, 46653>>, <<99708, 69009, 47181>>, <<99719, 69735, 47718>>,
    <<99725, 70461, 48264>>, <<99732, 71185, 48815>>, <<99735, 71909, 49376>>, <<99735, 72632, 49943>>, <<99734, 73354, 50517>>,
    <<99728, 74077, 51098>>, <<99723, 74798, 51686>>, <<99714, 75519, 52281>>, <<99702, 76240, 52882>>, <<99690, 76959, 53489>>,
    <<99673, 77680, 54104>>, <<99657, 78398, 54723>>, <<99637, 79117, 55350>>, <<99616, 79835, 55982>>, <<99593, 80553, 56620>>,
    <<99568, 81271, 57264>>, <<99542, 81988, 57914>>, <<99513, 82705, 58570>>, <<99485, 83421, 59231>>, <<99452, 84139, 59898>>,
    <<99422, 84854, 60570>>, <<99387, 85571, 61248>>, <<99354, 86286, 61930>>, <<99317, 87002, 62619>>, <<99283, 87717, 63311>>,
    <<99244, 88433, 64010>>, <<99209, 89147, 64712>>, <<99169, 89863, 65420>>, <<99133, 90576, 66131>>, <<99093, 91292, 66848>>,
    <<99057, 92005, 67568>>, <<99018, 92720, 68293>>, <<98982, 93433, 69020>>, <<98943, 94147, 69752>>, <<98908, 94860, 70486>>,
    <<98872, 95574, 71224>>, <<98837, 96288, 71965>>, <<98803, 97001, 72708>>, <<98769, 97715, 73454>>, <<98739, 98429, 74200>>,
    <<98705, 99144, 74950>>>>
Cubehelix == <<
    <<0, 0, 0>>, <<853, 271, 765>>, <<1677, 550, 1566>>, <<2469, 840, 2399>>, <<3227, 1140, 3263>>,
    <<3951, 1453, 4155>>, <<4639, 1780, 5072>>, <<5290, 2122, 6011>>, <<5903, 2479, 6969>>, <<6476, 2853, 7943>>,
    <<7010, 3245, 8930>>, <<7504, 3656, 9927>>, <<7958, 4085, 10931>>, <<8371, 4535, 11938>>, <<8745, 5004, 12946>>,
    <<9078, 5495, 13951>>, <<9373, 6006, 14951>>, <<9628, 6539, 15941>>, <<9846, 7093, 16920>>, <<10028, 7669, 17884>>,
    <<10173, 8266, 18830>>, <<10285, 8884, 19755>>, <<10364, 9523, 20657>>, <<10412, 10183, 21533>>, <<10430, 10863, 22381>>,
    <<10422, 11562, 23197>>, <<10388, 12281, 23981>>, <<10330, 13018, 24729>>, <<10252, 13773, 25440>>, <<10155, 14544, 26111>>,
    <<10043, 15331, 26742>>, <<9916, 16134, 27331>>, <<9779, 16949, 27875>>, <<9633, 17778, 28376>>, <<9481, 18618, 28830>>,
    <<9327, 19468, 29237>>, <<9172, 20327, 29598>>, <<9020, 21193, 29910>>, <<8873, 22066, 30175>>, <<8734, 22944, 30392>>,
    <<8606, 23825, 30561>>, <<8491, 24708, 30683>>, <<8393, 25591, 30758>>, <<8314, 26474, 30786>>, <<8256, 27354, 30769>>,
    <<8222, 28230, 30708>>, <<8214, 29100, 30604>>, <<8236, 29964, 30458>>, <<8288, 30820, 30272>>, <<8374, 31665, 30048>>,
    <<8495, 32500, 29787>>, <<8654, 33321, 29492>>, <<8852, 34129, 29165>>, <<9090, 34922, 28808>>, <<9371, 35699, 28424>>,
    <<9695, 36457, 28015>>, <<10065, 37197, 27584>>, <<10481, 37917, 27133>>, <<10944, 38616, 26665>>, <<11455, 39294, 26185>>,
    <<12014, 39948, 25693>>, <<12623, 40579, 25194>>, <<13281, 41186, 24690>>, <<13989, 41768, 24185>>, <<14746, 42324, 23682>>,
    <<15552, 42855, 23183>>, <<16407, 43359, 22693>>, <<17311, 43836, 22214>>, <<18262, 44286, 21750>>, <<19260, 44709, 21303>>,
    <<20304, 45106, 20877>>, <<21393, 45475, 20474>>, <<22524, 45817, 20098>>, <<23698, 46132, 19751>>, <<24911, 46421, 19437>>,
    <<26163, 46684, 19157>>, <<27452, 46922, 18915>>, <<28775, 47134, 18714>>, <<30130, 47322, 18554>>, <<31515, 47487, 18440>>,
    <<32928, 47628, 18372>>, <<34366, 47748, 18352>>, <<35826, 47847, 18384>>, <<37306, 47927, 18467>>, <<38804, 47987, 18605>>,
    <<40316, 48030, 18797>>, <<41839, 48056, 19045>>, <<43372, 48068, 19351>>, <<44910, 48065, 19715>>, <<46450, 48051, 20137>>,
    <<47991, 48025, 20618>>, <<49529, 47990, 21159>>, <<51061, 47946, 21759>>, <<52583, 47897, 22418>>, <<54094, 47842, 23136>>,
    <<55590, 47784, 23913>>, <<57068, 47724, 24747>>, <<58526, 47664, 25639>>, <<59961, 47605, 26586>>, <<61370, 47550, 27587>>,
    <<62751, 47498, 28642>>, <<64101, 47453, 29749>>, <<65417, 47415, 30906>>, <<66699, 47387, 32110>>, <<67942, 47369, 33361>>,
    <<69145, 47363, 34656>>, <<70307, 47371, 35992>>, <<71426, 47393, 37367>>, <<72499, 47431, 38779>>, <<73526, 47487, 40225>>,
    <<74504, 47562, 41703>>, <<75434, 47656, 43208>>, <<76313, 47771, 44739>>, <<77140, 47908, 46292>>, <<77916, 48068, 47864>>,
    <<78640, 48251, 49453>>, <<79311, 48459, 51054>>, <<79928, 48692, 52666>>, <<80492, 48951, 54283>>, <<81004, 49236, 55904>>,
    <<81462, 49548, 57525>>, <<81869, 49888, 59143>>, <<82223, 50254, 60754>>, <<82527, 50649, 62356>>, <<82781, 51071, 63945>>,
    <<82986, 51521, 65518>>, <<83143, 51999, 67072>>, <<83254, 52504, 68604>>, <<83321, 53036, 70112>>, <<83344, 53596, 71592>>,
    <<83326, 54182, 73043>>, <<83269, 54794, 74460>>, <<83175, 55432, 75843>>, <<83046, 56094, 77188>>, <<82884, 56780, 78493>>,
    <<82692, 57490, 79757>>, <<82472, 58222, 80978>>, <<82227, 58975, 82154>>, <<81959, 59748, 83282>>, <<81671, 60540, 84363>>,
    <<81366, 61351, 85395>>, <<81046, 62178, 86376>>, <<80715, 63020, 87306>>, <<80374, 63877, 88185>>, <<80028, 64747, 89011>>,
    <<79678, 65628, 89784>>, <<79328, 66519, 90505>>, <<78981, 67418, 91173>>, <<78638, 68325, 91789>>, <<78304, 69237, 92353>>,
    <<77980, 70154, 92866>>, <<77670, 71073, 93328>>, <<77375, 71993, 93741>>, <<77099, 72913, 94106>>, <<76844, 73831, 94423>>,
    <<76612, 74746, 94696>>, <<76405, 75656, 94924>>, <<76226, 76560, 95111>>, <<76076, 77456, 95257>>, <<75957, 78343, 95366>>,
    <<75872, 79221, 95439>>, <<75821, 80087, 95478>>, <<75806, 80940, 95487>>, <<75829, 81779, 95468>>, <<75890, 82604, 95423>>,
    <<75991, 83413, 95355>>, <<76133, 84205, 95267>>, <<76315, 84979, 95162>>, <<76538, 85735, 95043>>, <<76804, 86472, 94913>>,
    <<77111, 87189, 94775>>, <<77461, 87885, 94631>>, <<77852, 88561, 94486>>, <<78284, 89216, 94342>>, <<78757, 89849, 94201>>,
    <<79270, 90460, 94068>>, <<79823, 91050, 93945>>, <<80413, 91617, 93835>>, <<81040, 92163, 93741>>, <<81703, 92688, 93665>>,
    <<82399, 93192, 93611>>, <<83128, 93674, 93581>>, <<83887, 94136, 93577>>, <<84674, 94579, 93602>>, <<85488, 95002, 93658>>,
    <<86326, 95407, 93747>>, <<87185, 95794, 93872>>, <<88064, 96165, 94033>>, <<88959, 96520, 94233>>, <<89869, 96860, 94473>>,
    <<90790, 97186, 94755>>, <<91720, 97501, 95079>>, <<92655, 97804, 95447>>, <<93594, 98097, 95859>>, <<94533, 98382, 96315>>,
    <<95468, 98660, 96817>>, <<96398, 98933, 97364>>, <<97319, 99202, 97956>>, <<98228, 99468, 98593>>, <<99123, 99734, 99275>>,
    <<100000, 100000, 100000>>>>
==============================================================================
