-------------------------------- MODULE FixedLn --------------------------------
(* Natural logarithms of positive integers in millionths, for deciding scores that *)
(* are products, quotients and exponentials of integers.                           *)
EXTENDS Integers, Sequences

LN2 == 693147
LnTable == <<
  0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589,
  2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736,
  3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201,
  3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883,
  4174387, 4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666, 4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027,
  4394449, 4406719, 4418841, 4430817, 4442651, 4454347, 4465908, 4477337, 4488636, 4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348,
  4574711, 4584967, 4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131, 4691348, 4700480, 4709530, 4718499,
  4727388, 4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492, 4795791, 4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030,
  4859812, 4867534, 4875197, 4882802, 4890349, 4897840, 4905275, 4912655, 4919981, 4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813,
  4976734, 4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438, 5036953, 5043425, 5049856, 5056246, 5062595, 5068904, 5075174,
  5081404, 5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964, 5129899, 5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484,
  5176150, 5181784, 5187386, 5192957, 5198497, 5204007, 5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495,
  5262690, 5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317, 5303305, 5308268, 5313206, 5318120, 5323010, 5327876, 5332719, 5337538,
  5342334, 5347108, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278, 5379897, 5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646,
  5416100, 5420535, 5424950, 5429346, 5433722, 5438079, 5442418, 5446737, 5451038, 5455321, 5459586, 5463832, 5468060, 5472271, 5476464, 5480639,
  5484797, 5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461, 5525453, 5529429, 5533389, 5537334, 5541264, 5545177,
  5549076, 5552960, 5556828, 5560682, 5564520, 5568345, 5572154, 5575949, 5579730, 5583496, 5587249, 5590987, 5594711, 5598422, 5602119, 5605802,
  5609472, 5613128, 5616771, 5620401, 5624018, 5627621, 5631212, 5634790, 5638355, 5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960,
  5666427, 5669881, 5673323, 5676754, 5680173, 5683580, 5686975, 5690359, 5693732, 5697093, 5700444, 5703782, 5707110, 5710427, 5713733, 5717028,
  5720312, 5723585, 5726848, 5730100, 5733341, 5736572, 5739793, 5743003, 5746203, 5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321,
  5771441, 5774552, 5777652, 5780744, 5783825, 5786897, 5789960, 5793014, 5796058, 5799093, 5802118, 5805135, 5808142, 5811141, 5814131, 5817111,
  5820083, 5823046, 5826000, 5828946, 5831882, 5834811, 5837730, 5840642, 5843544, 5846439, 5849325, 5852202, 5855072, 5857933, 5860786, 5863631,
  5866468, 5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104, 5888878, 5891644, 5894403, 5897154, 5899897, 5902633, 5905362, 5908083,
  5910797, 5913503, 5916202, 5918894, 5921578, 5924256, 5926926, 5929589, 5932245, 5934894, 5937536, 5940171, 5942799, 5945421, 5948035, 5950643,
  5953243, 5955837, 5958425, 5961005, 5963579, 5966147, 5968708, 5971262, 5973810, 5976351, 5978886, 5981414, 5983936, 5986452, 5988961, 5991465,
  5993961, 5996452, 5998937, 6001415, 6003887, 6006353, 6008813, 6011267, 6013715, 6016157, 6018593, 6021023, 6023448, 6025866, 6028279, 6030685,
  6033086, 6035481, 6037871, 6040255, 6042633, 6045005, 6047372, 6049733, 6052089, 6054439, 6056784, 6059123, 6061457, 6063785, 6066108, 6068426,
  6070738, 6073045, 6075346, 6077642, 6079933, 6082219, 6084499, 6086775, 6089045, 6091310, 6093570, 6095825, 6098074, 6100319, 6102559, 6104793,
  6107023, 6109248, 6111467, 6113682, 6115892, 6118097, 6120297, 6122493, 6124683, 6126869, 6129050, 6131226, 6133398, 6135565, 6137727, 6139885,
  6142037, 6144186, 6146329, 6148468, 6150603, 6152733, 6154858, 6156979, 6159095, 6161207, 6163315, 6165418, 6167516, 6169611, 6171701, 6173786,
  6175867, 6177944, 6180017, 6182085, 6184149, 6186209, 6188264, 6190315, 6192362, 6194405, 6196444, 6198479, 6200509, 6202536, 6204558, 6206576,
  6208590, 6210600, 6212606, 6214608, 6216606, 6218600, 6220590, 6222576, 6224558, 6226537, 6228511, 6230481, 6232448, 6234411, 6236370, 6238325,
  6240276, 6242223, 6244167, 6246107, 6248043, 6249975, 6251904, 6253829, 6255750, 6257668, 6259581, 6261492, 6263398, 6265301, 6267201, 6269096,
  6270988, 6272877, 6274762, 6276643, 6278521, 6280396, 6282267, 6284134, 6285998, 6287859, 6289716, 6291569, 6293419, 6295266, 6297109, 6298949,
  6300786, 6302619, 6304449, 6306275, 6308098, 6309918, 6311735, 6313548, 6315358, 6317165, 6318968, 6320768, 6322565, 6324359, 6326149, 6327937,
  6329721, 6331502, 6333280, 6335054, 6336826, 6338594, 6340359, 6342121, 6343880, 6345636, 6347389, 6349139, 6350886, 6352629, 6354370, 6356108,
  6357842, 6359574, 6361302, 6363028, 6364751, 6366470, 6368187, 6369901, 6371612, 6373320, 6375025, 6376727, 6378426, 6380123, 6381816, 6383507,
  6385194, 6386879, 6388561, 6390241, 6391917, 6393591, 6395262, 6396930, 6398595, 6400257, 6401917, 6403574, 6405228, 6406880, 6408529, 6410175,
  6411818, 6413459, 6415097, 6416732, 6418365, 6419995, 6421622, 6423247, 6424869, 6426488, 6428105, 6429719, 6431331, 6432940, 6434547, 6436150,
  6437752, 6439350, 6440947, 6442540, 6444131, 6445720, 6447306, 6448889, 6450470, 6452049, 6453625, 6455199, 6456770, 6458338, 6459904, 6461468,
  6463029, 6464588, 6466145, 6467699, 6469250, 6470800, 6472346, 6473891, 6475433, 6476972, 6478510, 6480045, 6481577, 6483107, 6484635, 6486161,
  6487684, 6489205, 6490724, 6492240, 6493754, 6495266, 6496775, 6498282, 6499787, 6501290, 6502790, 6504288, 6505784, 6507278, 6508769, 6510258,
  6511745, 6513230, 6514713, 6516193, 6517671, 6519147, 6520621, 6522093, 6523562, 6525030, 6526495, 6527958, 6529419, 6530878, 6532334, 6533789,
  6535241, 6536692, 6538140, 6539586, 6541030, 6542472, 6543912, 6545350, 6546785, 6548219, 6549651, 6551080, 6552508, 6553933, 6555357, 6556778,
  6558198, 6559615, 6561031, 6562444, 6563856, 6565265, 6566672, 6568078, 6569481, 6570883, 6572283, 6573680, 6575076, 6576470, 6577861, 6579251,
  6580639, 6582025, 6583409, 6584791, 6586172, 6587550, 6588926, 6590301, 6591674, 6593045, 6594413, 6595781, 6597146, 6598509, 6599870, 6601230,
  6602588, 6603944, 6605298, 6606650, 6608001, 6609349, 6610696, 6612041, 6613384, 6614726, 6616065, 6617403, 6618739, 6620073, 6621406, 6622736,
  6624065, 6625392, 6626718, 6628041, 6629363, 6630683, 6632002, 6633318, 6634633, 6635947, 6637258, 6638568, 6639876, 6641182, 6642487, 6643790,
  6645091, 6646391, 6647688, 6648985, 6650279, 6651572, 6652863, 6654153, 6655440, 6656727, 6658011, 6659294, 6660575, 6661855, 6663133, 6664409,
  6665684, 6666957, 6668228, 6669498, 6670766, 6672033, 6673298, 6674561, 6675823, 6677083, 6678342, 6679599, 6680855, 6682109, 6683361, 6684612,
  6685861, 6687109, 6688355, 6689599, 6690842, 6692084, 6693324, 6694562, 6695799, 6697034, 6698268, 6699500, 6700731, 6701960, 6703188, 6704414,
  6705639, 6706862, 6708084, 6709304, 6710523, 6711740, 6712956, 6714171, 6715383, 6716595, 6717805, 6719013, 6720220, 6721426, 6722630, 6723832,
  6725034, 6726233, 6727432, 6728629, 6729824, 6731018, 6732211, 6733402, 6734592, 6735780, 6736967, 6738152, 6739337, 6740519, 6741701, 6742881,
  6744059, 6745236, 6746412, 6747587, 6748760, 6749931, 6751101, 6752270, 6753438, 6754604, 6755769, 6756932, 6758095, 6759255, 6760415, 6761573,
  6762730, 6763885, 6765039, 6766192, 6767343, 6768493, 6769642, 6770789, 6771936, 6773080, 6774224, 6775366, 6776507, 6777647, 6778785, 6779922,
  6781058, 6782192, 6783325, 6784457, 6785588, 6786717, 6787845, 6788972, 6790097, 6791221, 6792344, 6793466, 6794587, 6795706, 6796824, 6797940,
  6799056, 6800170, 6801283, 6802395, 6803505, 6804615, 6805723, 6806829, 6807935, 6809039, 6810142, 6811244, 6812345, 6813445, 6814543, 6815640,
  6816736, 6817831, 6818924, 6820016, 6821107, 6822197, 6823286, 6824374, 6825460, 6826545, 6827629, 6828712, 6829794, 6830874, 6831954, 6833032,
  6834109, 6835185, 6836259, 6837333, 6838405, 6839476, 6840547, 6841615, 6842683, 6843750, 6844815, 6845880, 6846943, 6848005, 6849066, 6850126,
  6851185, 6852243, 6853299, 6854355, 6855409, 6856462, 6857514, 6858565, 6859615, 6860664, 6861711, 6862758, 6863803, 6864848, 6865891, 6866933,
  6867974, 6869014, 6870053, 6871091, 6872128, 6873164, 6874198, 6875232, 6876265, 6877296, 6878326, 6879356, 6880384, 6881411, 6882437, 6883463,
  6884487, 6885510, 6886532, 6887553, 6888572, 6889591, 6890609, 6891626, 6892642, 6893656, 6894670, 6895683, 6896694, 6897705, 6898715, 6899723,
  6900731, 6901737, 6902743, 6903747, 6904751, 6905753, 6906755, 6907755, 6908755, 6909753, 6910751, 6911747, 6912743, 6913737, 6914731, 6915723,
  6916715, 6917706, 6918695, 6919684, 6920672, 6921658, 6922644, 6923629, 6924612, 6925595, 6926577, 6927558, 6928538, 6929517, 6930495, 6931472,
  6932448, 6933423, 6934397, 6935370, 6936343, 6937314, 6938284, 6939254, 6940222, 6941190, 6942157, 6943122, 6944087, 6945051, 6946014, 6946976,
  6947937, 6948897, 6949856, 6950815, 6951772, 6952729, 6953684, 6954639, 6955593, 6956545, 6957497, 6958448, 6959399, 6960348, 6961296, 6962243,
  6963190, 6964136, 6965080, 6966024, 6966967, 6967909, 6968850, 6969791, 6970730, 6971669, 6972606, 6973543, 6974479, 6975414, 6976348, 6977281,
  6978214, 6979145, 6980076, 6981006, 6981935, 6982863, 6983790, 6984716, 6985642, 6986566, 6987490, 6988413, 6989335, 6990257, 6991177, 6992096,
  6993015, 6993933, 6994850, 6995766, 6996681, 6997596, 6998510, 6999422, 7000334, 7001246, 7002156, 7003065, 7003974, 7004882, 7005789, 7006695,
  7007601, 7008505, 7009409, 7010312, 7011214, 7012115, 7013016, 7013915, 7014814, 7015712, 7016610, 7017506, 7018402, 7019297, 7020191, 7021084,
  7021976, 7022868, 7023759, 7024649, 7025538, 7026427, 7027315, 7028201, 7029088, 7029973, 7030857, 7031741, 7032624, 7033506, 7034388, 7035269,
  7036148, 7037028, 7037906, 7038784, 7039660, 7040536, 7041412, 7042286, 7043160, 7044033, 7044905, 7045777, 7046647, 7047517, 7048386, 7049255,
  7050123, 7050989, 7051856, 7052721, 7053586, 7054450, 7055313, 7056175, 7057037, 7057898, 7058758, 7059618, 7060476, 7061334, 7062192, 7063048,
  7063904, 7064759, 7065613, 7066467, 7067320, 7068172, 7069023, 7069874, 7070724, 7071573, 7072422, 7073270, 7074117, 7074963, 7075809, 7076654,
  7077498, 7078342, 7079184, 7080026, 7080868, 7081709, 7082549, 7083388, 7084226, 7085064, 7085901, 7086738, 7087574, 7088409, 7089243, 7090077,
  7090910, 7091742, 7092574, 7093405, 7094235, 7095064, 7095893, 7096721, 7097549, 7098376, 7099202, 7100027, 7100852, 7101676, 7102499, 7103322,
  7104144, 7104965, 7105786, 7106606, 7107425, 7108244, 7109062, 7109879, 7110696, 7111512, 7112327, 7113142, 7113956, 7114769, 7115582, 7116394,
  7117206, 7118016, 7118826, 7119636, 7120444, 7121252, 7122060, 7122867, 7123673, 7124478, 7125283, 7126087, 7126891, 7127694, 7128496, 7129298,
  7130099, 7130899, 7131699, 7132498, 7133296, 7134094, 7134891, 7135687, 7136483, 7137278, 7138073, 7138867, 7139660, 7140453, 7141245, 7142037,
  7142827, 7143618, 7144407, 7145196, 7145984, 7146772, 7147559, 7148346, 7149132, 7149917, 7150701, 7151485, 7152269, 7153052, 7153834, 7154615,
  7155396, 7156177, 7156956, 7157735, 7158514, 7159292, 7160069, 7160846, 7161622, 7162397, 7163172, 7163947, 7164720, 7165493, 7166266, 7167038,
  7167809, 7168580, 7169350, 7170120, 7170888, 7171657, 7172425, 7173192, 7173958, 7174724, 7175490, 7176255, 7177019, 7177782, 7178545, 7179308,
  7180070, 7180831, 7181592, 7182352, 7183112, 7183871, 7184629, 7185387, 7186144, 7186901, 7187657, 7188413, 7189168, 7189922, 7190676, 7191429,
  7192182, 7192934, 7193686, 7194437, 7195187, 7195937, 7196687, 7197435, 7198184, 7198931, 7199678, 7200425, 7201171, 7201916, 7202661, 7203406,
  7204149, 7204893, 7205635, 7206377, 7207119, 7207860, 7208600, 7209340, 7210080, 7210818, 7211557, 7212294, 7213032, 7213768, 7214504, 7215240,
  7215975, 7216709, 7217443, 7218177, 7218910, 7219642, 7220374, 7221105, 7221836, 7222566, 7223296, 7224025, 7224753, 7225481, 7226209, 7226936,
  7227662, 7228388, 7229114, 7229839, 7230563, 7231287, 7232010, 7232733, 7233455, 7234177, 7234898, 7235619, 7236339, 7237059, 7237778, 7238497,
  7239215, 7239933, 7240650, 7241366, 7242082, 7242798, 7243513, 7244228, 7244942, 7245655, 7246368, 7247081, 7247793, 7248504, 7249215, 7249926,
  7250636, 7251345, 7252054, 7252762, 7253470, 7254178, 7254885, 7255591, 7256297, 7257003, 7257708, 7258412, 7259116, 7259820, 7260523, 7261225,
  7261927, 7262629, 7263330, 7264030, 7264730, 7265430, 7266129, 7266827, 7267525, 7268223, 7268920, 7269617, 7270313, 7271009, 7271704, 7272398,
  7273093, 7273786, 7274480, 7275172, 7275865, 7276556, 7277248, 7277939, 7278629, 7279319, 7280008, 7280697, 7281386, 7282074, 7282761, 7283448,
  7284135, 7284821, 7285507, 7286192, 7286876, 7287561, 7288244, 7288928, 7289611, 7290293, 7290975, 7291656, 7292337, 7293018, 7293698, 7294377,
  7295056, 7295735, 7296413, 7297091, 7297768, 7298445, 7299121, 7299797, 7300473, 7301148, 7301822, 7302496, 7303170, 7303843, 7304516, 7305188,
  7305860, 7306531, 7307202, 7307873, 7308543, 7309212, 7309881, 7310550, 7311218, 7311886, 7312553, 7313220, 7313887, 7314553, 7315218, 7315884,
  7316548, 7317212, 7317876, 7318540, 7319202, 7319865, 7320527, 7321189, 7321850, 7322510, 7323171, 7323831, 7324490, 7325149, 7325808, 7326466,
  7327123, 7327781, 7328437, 7329094, 7329750, 7330405, 7331060, 7331715, 7332369, 7333023, 7333676, 7334329, 7334982, 7335634, 7336286, 7336937,
  7337588, 7338238, 7338888, 7339538, 7340187, 7340836, 7341484, 7342132, 7342779, 7343426, 7344073, 7344719, 7345365, 7346010, 7346655, 7347300,
  7347944, 7348588, 7349231, 7349874, 7350516, 7351158, 7351800, 7352441, 7353082, 7353722, 7354362, 7355002, 7355641, 7356280, 7356918, 7357556,
  7358194, 7358831, 7359468, 7360104, 7360740, 7361375, 7362011, 7362645, 7363280, 7363914, 7364547, 7365180, 7365813, 7366445, 7367077, 7367709,
  7368340, 7368970, 7369601, 7370231, 7370860, 7371489, 7372118, 7372746, 7373374, 7374002, 7374629, 7375256, 7375882, 7376508, 7377134, 7377759,
  7378384, 7379008, 7379632, 7380256, 7380879, 7381502, 7382124, 7382746, 7383368, 7383989, 7384610, 7385231, 7385851, 7386471, 7387090, 7387709,
  7388328, 7388946, 7389564, 7390181, 7390799, 7391415, 7392032, 7392648, 7393263, 7393878, 7394493, 7395108, 7395722, 7396335, 7396949, 7397562,
  7398174, 7398786, 7399398, 7400010, 7400621, 7401231, 7401842, 7402452, 7403061, 7403670, 7404279, 7404888, 7405496, 7406103, 7406711, 7407318,
  7407924, 7408531, 7409136, 7409742, 7410347, 7410952, 7411556, 7412160, 7412764, 7413367, 7413970, 7414573, 7415175, 7415777, 7416378, 7416980,
  7417580, 7418181, 7418781, 7419381, 7419980, 7420579, 7421178, 7421776, 7422374, 7422971, 7423568, 7424165, 7424762, 7425358, 7425954, 7426549,
  7427144, 7427739, 7428333, 7428927, 7429521, 7430114, 7430707, 7431300, 7431892, 7432484, 7433075, 7433667, 7434257, 7434848, 7435438, 7436028,
  7436617, 7437206, 7437795, 7438384, 7438972, 7439559, 7440147, 7440734, 7441320, 7441907, 7442493, 7443078, 7443664, 7444249, 7444833, 7445418,
  7446001, 7446585, 7447168, 7447751, 7448334, 7448916, 7449498, 7450080, 7450661, 7451242, 7451822, 7452402, 7452982, 7453562, 7454141, 7454720,
  7455298, 7455877, 7456455, 7457032, 7457609, 7458186, 7458763, 7459339, 7459915, 7460490, 7461066, 7461640, 7462215, 7462789, 7463363, 7463937,
  7464510, 7465083, 7465655, 7466228, 7466799, 7467371, 7467942, 7468513, 7469084, 7469654, 7470224, 7470794, 7471363, 7471932, 7472501, 7473069,
  7473637, 7474205, 7474772, 7475339, 7475906, 7476472, 7477038, 7477604, 7478170, 7478735, 7479300, 7479864, 7480428, 7480992, 7481556, 7482119,
  7482682, 7483244, 7483807, 7484369, 7484930, 7485492, 7486053, 7486613, 7487174, 7487734, 7488294, 7488853, 7489412, 7489971, 7490529, 7491088,
  7491645, 7492203, 7492760, 7493317, 7493874, 7494430, 7494986, 7495542, 7496097, 7496652, 7497207, 7497762, 7498316, 7498870, 7499423, 7499977,
  7500529, 7501082, 7501634, 7502186, 7502738, 7503290, 7503841, 7504392, 7504942, 7505492, 7506042, 7506592, 7507141, 7507690, 7508239, 7508787,
  7509335, 7509883, 7510431, 7510978, 7511525, 7512071, 7512618, 7513164, 7513709, 7514255, 7514800, 7515345, 7515889, 7516433, 7516977, 7517521,
  7518064, 7518607, 7519150, 7519692, 7520235, 7520776, 7521318, 7521859, 7522400, 7522941, 7523481, 7524021, 7524561, 7525101, 7525640, 7526179,
  7526718, 7527256, 7527794, 7528332, 7528869, 7529406, 7529943, 7530480, 7531016, 7531552, 7532088, 7532624, 7533159, 7533694, 7534228, 7534763,
  7535297, 7535830, 7536364, 7536897, 7537430, 7537963, 7538495, 7539027, 7539559, 7540090, 7540622, 7541152, 7541683, 7542213, 7542744, 7543273,
  7543803, 7544332, 7544861, 7545390, 7545918, 7546446, 7546974, 7547502, 7548029, 7548556, 7549083, 7549609, 7550135, 7550661, 7551187, 7551712,
  7552237, 7552762, 7553287, 7553811, 7554335, 7554859, 7555382, 7555905, 7556428, 7556951, 7557473, 7557995, 7558517, 7559038, 7559559, 7560080,
  7560601, 7561122, 7561642, 7562162, 7562681, 7563201, 7563720, 7564238, 7564757, 7565275, 7565793, 7566311, 7566828, 7567346, 7567863, 7568379,
  7568896, 7569412, 7569928, 7570443, 7570959, 7571474, 7571988, 7572503, 7573017, 7573531, 7574045, 7574558, 7575072, 7575585, 7576097, 7576610,
  7577122, 7577634, 7578145, 7578657, 7579168, 7579679, 7580189, 7580700, 7581210, 7581720, 7582229, 7582738, 7583248, 7583756, 7584265, 7584773,
  7585281, 7585789, 7586296, 7586804, 7587311, 7587817, 7588324, 7588830, 7589336, 7589842, 7590347, 7590852, 7591357, 7591862, 7592366, 7592870,
  7593374, 7593878, 7594381, 7594884, 7595387, 7595890, 7596392, 7596894, 7597396, 7597898, 7598399, 7598900, 7599401, 7599902, 7600402, 7600902,
  7601402, 7601902, 7602401, 7602900, 7603399, 7603898, 7604396, 7604894, 7605392, 7605890, 7606387, 7606885, 7607381, 7607878, 7608374, 7608871,
  7609367, 7609862, 7610358, 7610853, 7611348, 7611842, 7612337, 7612831, 7613325, 7613819, 7614312, 7614805, 7615298, 7615791, 7616284, 7616776,
  7617268, 7617760, 7618251, 7618742, 7619233, 7619724, 7620215, 7620705, 7621195, 7621685, 7622175, 7622664, 7623153, 7623642, 7624131, 7624619,
  7625107, 7625595, 7626083, 7626570, 7627057, 7627544, 7628031, 7628518, 7629004, 7629490, 7629976, 7630461, 7630947, 7631432, 7631917, 7632401,
  7632886, 7633370, 7633854, 7634337, 7634821, 7635304, 7635787, 7636270, 7636752, 7637234, 7637716, 7638198, 7638680, 7639161, 7639642, 7640123,
  7640604, 7641084, 7641564, 7642044, 7642524, 7643004, 7643483, 7643962, 7644441, 7644919, 7645398, 7645876, 7646354, 7646831, 7647309, 7647786,
  7648263, 7648740, 7649216, 7649693, 7650169, 7650645, 7651120, 7651596, 7652071, 7652546, 7653020, 7653495, 7653969, 7654443, 7654917, 7655391,
  7655864, 7656337, 7656810, 7657283, 7657755, 7658228, 7658700, 7659171, 7659643, 7660114, 7660585, 7661056, 7661527, 7661998, 7662468, 7662938,
  7663408, 7663877, 7664347, 7664816, 7665285, 7665753, 7666222, 7666690, 7667158, 7667626, 7668094, 7668561, 7669028, 7669495, 7669962, 7670429,
  7670895, 7671361, 7671827, 7672292, 7672758, 7673223, 7673688, 7674153, 7674617, 7675082, 7675546, 7676010, 7676474, 7676937, 7677400, 7677864,
  7678326, 7678789, 7679251, 7679714, 7680176, 7680637, 7681099, 7681560, 7682022, 7682482, 7682943, 7683404, 7683864, 7684324, 7684784, 7685244,
  7685703, 7686162, 7686621, 7687080, 7687539, 7687997, 7688455, 7688913, 7689371, 7689829, 7690286, 7690743, 7691200, 7691657, 7692113, 7692570,
  7693026, 7693482, 7693937, 7694393, 7694848, 7695303, 7695758, 7696213, 7696667, 7697121, 7697575, 7698029, 7698483, 7698936, 7699389, 7699842,
  7700295, 7700748, 7701200, 7701652, 7702104, 7702556, 7703008, 7703459, 7703910, 7704361, 7704812, 7705262, 7705713, 7706163, 7706613, 7707063,
  7707512, 7707962, 7708411, 7708860, 7709308, 7709757, 7710205, 7710653, 7711101, 7711549, 7711997, 7712444, 7712891, 7713338, 7713785, 7714231,
  7714677, 7715124, 7715570, 7716015, 7716461, 7716906, 7717351, 7717796, 7718241, 7718685, 7719130, 7719574, 7720018, 7720462, 7720905, 7721349,
  7721792, 7722235, 7722678, 7723120, 7723562, 7724005, 7724447, 7724888, 7725330, 7725771, 7726213, 7726654, 7727094, 7727535, 7727976, 7728416,
  7728856, 7729296, 7729735, 7730175, 7730614, 7731053, 7731492, 7731931, 7732369, 7732808, 7733246, 7733684, 7734121, 7734559, 7734996, 7735433,
  7735870, 7736307, 7736744, 7737180, 7737616, 7738052, 7738488, 7738924, 7739359, 7739794, 7740230, 7740664, 7741099, 7741534, 7741968, 7742402,
  7742836, 7743270, 7743703, 7744137, 7744570, 7745003, 7745436, 7745868, 7746301, 7746733, 7747165, 7747597, 7748029, 7748460, 7748891, 7749322,
  7749753, 7750184, 7750615, 7751045, 7751475, 7751905, 7752335, 7752765, 7753194, 7753624, 7754053, 7754482, 7754910, 7755339, 7755767, 7756195,
  7756623, 7757051, 7757479, 7757906, 7758333, 7758761, 7759187, 7759614, 7760041, 7760467, 7760893, 7761319, 7761745, 7762171, 7762596, 7763021,
  7763446, 7763871, 7764296, 7764721, 7765145, 7765569, 7765993, 7766417, 7766841, 7767264, 7767687, 7768110, 7768533, 7768956, 7769379, 7769801,
  7770223, 7770645, 7771067, 7771489, 7771910, 7772332, 7772753, 7773174, 7773594, 7774015, 7774436, 7774856, 7775276, 7775696, 7776115, 7776535,
  7776954, 7777374, 7777793, 7778211, 7778630, 7779049, 7779467, 7779885, 7780303, 7780721, 7781139, 7781556, 7781973, 7782390, 7782807, 7783224,
  7783641, 7784057, 7784473, 7784889, 7785305, 7785721, 7786136, 7786552, 7786967, 7787382, 7787797, 7788212, 7788626, 7789040, 7789455, 7789869,
  7790282, 7790696, 7791110, 7791523, 7791936, 7792349, 7792762, 7793174, 7793587, 7793999, 7794411, 7794823, 7795235, 7795647, 7796058, 7796469,
  7796880, 7797291, 7797702, 7798113, 7798523, 7798933, 7799343, 7799753, 7800163, 7800573, 7800982, 7801391, 7801800, 7802209, 7802618, 7803027,
  7803435, 7803843, 7804251, 7804659, 7805067, 7805475, 7805882, 7806289, 7806696, 7807103, 7807510, 7807917, 7808323, 7808729, 7809135, 7809541,
  7809947, 7810353, 7810758, 7811163, 7811568, 7811973, 7812378, 7812783, 7813187, 7813592, 7813996, 7814400, 7814803, 7815207, 7815611, 7816014,
  7816417, 7816820, 7817223, 7817625, 7818028, 7818430, 7818832, 7819234, 7819636, 7820038, 7820440, 7820841, 7821242, 7821643, 7822044, 7822445,
  7822845, 7823246, 7823646, 7824046, 7824446, 7824846, 7825245, 7825645, 7826044, 7826443, 7826842, 7827241, 7827640, 7828038, 7828436, 7828835,
  7829233, 7829630, 7830028, 7830426, 7830823, 7831220, 7831617, 7832014, 7832411, 7832808, 7833204, 7833600, 7833996, 7834392, 7834788, 7835184,
  7835579, 7835975, 7836370, 7836765, 7837160, 7837554, 7837949, 7838343, 7838738, 7839132, 7839526, 7839919, 7840313, 7840706, 7841100, 7841493,
  7841886, 7842279, 7842671, 7843064, 7843456, 7843849, 7844241, 7844633, 7845024, 7845416, 7845808, 7846199, 7846590, 7846981, 7847372, 7847763,
  7848153, 7848543, 7848934, 7849324, 7849714, 7850104, 7850493, 7850883, 7851272, 7851661, 7852050, 7852439, 7852828, 7853216, 7853605, 7853993,
  7854381, 7854769, 7855157, 7855545, 7855932, 7856320, 7856707, 7857094, 7857481, 7857868, 7858254, 7858641, 7859027, 7859413, 7859799, 7860185,
  7860571, 7860956, 7861342, 7861727, 7862112, 7862497, 7862882, 7863267, 7863651, 7864036, 7864420, 7864804, 7865188, 7865572, 7865955, 7866339,
  7866722, 7867106, 7867489, 7867871, 7868254, 7868637, 7869019, 7869402, 7869784, 7870166, 7870548, 7870930, 7871311, 7871693, 7872074, 7872455,
  7872836, 7873217, 7873598, 7873978, 7874359, 7874739, 7875119, 7875499, 7875879, 7876259, 7876638, 7877018, 7877397, 7877776, 7878155, 7878534,
  7878913, 7879291, 7879670, 7880048, 7880426, 7880804, 7881182, 7881560, 7881937, 7882315, 7882692, 7883069, 7883446, 7883823, 7884200, 7884577,
  7884953, 7885329, 7885705, 7886081, 7886457, 7886833, 7887209, 7887584, 7887959, 7888335, 7888710, 7889084, 7889459, 7889834, 7890208, 7890583,
  7890957, 7891331, 7891705, 7892078, 7892452, 7892826, 7893199, 7893572, 7893945, 7894318, 7894691, 7895063, 7895436, 7895808, 7896181, 7896553,
  7896925, 7897296, 7897668, 7898040, 7898411, 7898782, 7899153, 7899524, 7899895, 7900266, 7900637, 7901007, 7901377, 7901748, 7902118, 7902487,
  7902857, 7903227, 7903596, 7903966, 7904335, 7904704, 7905073, 7905442, 7905810, 7906179, 7906547, 7906915, 7907284, 7907652, 7908019, 7908387,
  7908755, 7909122, 7909489, 7909857, 7910224, 7910591, 7910957, 7911324, 7911691, 7912057, 7912423, 7912789, 7913155, 7913521, 7913887, 7914252,
  7914618, 7914983, 7915348, 7915713, 7916078, 7916443, 7916807, 7917172, 7917536, 7917901, 7918265, 7918629, 7918992, 7919356, 7919720, 7920083,
  7920447, 7920810, 7921173, 7921536, 7921898, 7922261, 7922624, 7922986, 7923348, 7923710, 7924072, 7924434, 7924796, 7925158, 7925519, 7925880,
  7926242, 7926603, 7926964, 7927324, 7927685, 7928046, 7928406, 7928766, 7929126, 7929487, 7929846, 7930206, 7930566, 7930925, 7931285, 7931644,
  7932003, 7932362, 7932721, 7933080, 7933438, 7933797, 7934155, 7934513, 7934872, 7935230, 7935587, 7935945, 7936303, 7936660, 7937017, 7937375,
  7937732, 7938089, 7938446, 7938802, 7939159, 7939515, 7939872, 7940228, 7940584, 7940940, 7941296, 7941651, 7942007, 7942362, 7942718, 7943073,
  7943428, 7943783, 7944137, 7944492, 7944847, 7945201, 7945555, 7945910, 7946264, 7946618, 7946971, 7947325, 7947679, 7948032, 7948385, 7948738,
  7949091, 7949444, 7949797, 7950150, 7950502, 7950855, 7951207, 7951559, 7951911, 7952263, 7952615, 7952967, 7953318, 7953670, 7954021, 7954372,
  7954723, 7955074, 7955425, 7955776, 7956126, 7956477, 7956827, 7957177, 7957527, 7957877, 7958227, 7958577, 7958926, 7959276, 7959625, 7959975,
  7960324, 7960673, 7961021, 7961370, 7961719, 7962067, 7962416, 7962764, 7963112, 7963460, 7963808, 7964156, 7964503, 7964851, 7965198, 7965546,
  7965893, 7966240, 7966587, 7966933, 7967280, 7967627, 7967973, 7968320, 7968666, 7969012, 7969358, 7969704, 7970049, 7970395, 7970740, 7971086,
  7971431, 7971776, 7972121, 7972466, 7972811, 7973155, 7973500, 7973844, 7974189, 7974533, 7974877, 7975221, 7975565, 7975908, 7976252, 7976595,
  7976939, 7977282, 7977625, 7977968, 7978311, 7978654, 7978996, 7979339, 7979681, 7980024, 7980366, 7980708, 7981050, 7981392, 7981733, 7982075,
  7982416, 7982758, 7983099, 7983440, 7983781, 7984122, 7984463, 7984803, 7985144, 7985484, 7985825, 7986165, 7986505, 7986845, 7987185, 7987524,
  7987864, 7988204, 7988543, 7988882, 7989221, 7989560, 7989899, 7990238, 7990577, 7990915, 7991254, 7991592, 7991931, 7992269, 7992607, 7992945,
  7993282, 7993620, 7993958, 7994295, 7994632, 7994970, 7995307, 7995644, 7995980, 7996317, 7996654, 7996990, 7997327, 7997663, 7997999, 7998335,
  7998671, 7999007, 7999343, 7999679, 8000014, 8000349, 8000685, 8001020, 8001355, 8001690, 8002025, 8002360, 8002694, 8003029, 8003363, 8003697,
  8004032, 8004366, 8004700, 8005033, 8005367, 8005701, 8006034, 8006368, 8006701, 8007034, 8007367, 8007700, 8008033, 8008366, 8008698, 8009031,
  8009363, 8009695, 8010028, 8010360, 8010692, 8011023, 8011355, 8011687, 8012018, 8012350, 8012681, 8013012, 8013343, 8013674, 8014005, 8014336,
  8014666, 8014997, 8015327, 8015658, 8015988, 8016318, 8016648, 8016978, 8017308, 8017637, 8017967, 8018296, 8018625, 8018955, 8019284, 8019613,
  8019942, 8020270, 8020599, 8020928, 8021256, 8021585, 8021913, 8022241, 8022569, 8022897, 8023225, 8023552, 8023880, 8024207, 8024535, 8024862,
  8025189, 8025516, 8025843, 8026170, 8026497, 8026824, 8027150, 8027477, 8027803, 8028129, 8028455, 8028781, 8029107, 8029433, 8029759, 8030084,
  8030410, 8030735, 8031060, 8031385, 8031710, 8032035, 8032360, 8032685, 8033009, 8033334, 8033658, 8033983, 8034307, 8034631, 8034955, 8035279,
  8035603, 8035926, 8036250, 8036573, 8036897, 8037220, 8037543, 8037866, 8038189, 8038512, 8038835, 8039157, 8039480, 8039802, 8040125, 8040447,
  8040769, 8041091, 8041413, 8041735, 8042056, 8042378, 8042699, 8043021, 8043342, 8043663, 8043984, 8044305, 8044626, 8044947, 8045268, 8045588,
  8045909, 8046229, 8046549, 8046870, 8047190, 8047510, 8047829, 8048149, 8048469, 8048788, 8049108, 8049427, 8049746, 8050065, 8050384, 8050703,
  8051022, 8051341, 8051660, 8051978, 8052296, 8052615, 8052933, 8053251, 8053569, 8053887, 8054205, 8054523, 8054840, 8055158, 8055475, 8055792,
  8056110, 8056427, 8056744, 8057061, 8057377, 8057694, 8058011, 8058327, 8058644, 8058960, 8059276, 8059592, 8059908, 8060224, 8060540, 8060856,
  8061171, 8061487, 8061802, 8062118, 8062433, 8062748, 8063063, 8063378, 8063693, 8064007, 8064322, 8064636, 8064951, 8065265, 8065579, 8065894,
  8066208, 8066521, 8066835, 8067149, 8067463, 8067776, 8068090, 8068403, 8068716, 8069029, 8069342, 8069655, 8069968, 8070281, 8070594, 8070906,
  8071219, 8071531, 8071843, 8072155, 8072467, 8072779, 8073091, 8073403, 8073715, 8074026, 8074338, 8074649, 8074960, 8075272, 8075583, 8075894,
  8076205, 8076515, 8076826, 8077137, 8077447, 8077758, 8078068, 8078378, 8078688, 8078998, 8079308, 8079618, 8079928, 8080237, 8080547, 8080856,
  8081166, 8081475, 8081784, 8082093, 8082402, 8082711, 8083020, 8083329, 8083637, 8083946, 8084254, 8084562, 8084871, 8085179, 8085487, 8085795,
  8086103, 8086410, 8086718, 8087025, 8087333, 8087640, 8087948, 8088255, 8088562, 8088869, 8089176, 8089482, 8089789, 8090096, 8090402, 8090709,
  8091015, 8091321, 8091627, 8091933, 8092239, 8092545, 8092851, 8093157, 8093462, 8093768, 8094073, 8094378, 8094684, 8094989, 8095294, 8095599,
  8095904, 8096208, 8096513, 8096817, 8097122, 8097426, 8097731, 8098035, 8098339, 8098643, 8098947, 8099251, 8099554, 8099858, 8100161, 8100465,
  8100768, 8101072, 8101375, 8101678, 8101981, 8102284, 8102586, 8102889, 8103192, 8103494, 8103797, 8104099, 8104401, 8104703, 8105006, 8105308,
  8105609, 8105911, 8106213, 8106515, 8106816, 8107117, 8107419, 8107720, 8108021, 8108322, 8108623, 8108924, 8109225, 8109526, 8109826, 8110127,
  8110427, 8110728, 8111028, 8111328, 8111628, 8111928, 8112228, 8112528, 8112827, 8113127, 8113427, 8113726, 8114025, 8114325, 8114624, 8114923,
  8115222, 8115521, 8115820, 8116118, 8116417, 8116716, 8117014, 8117312, 8117611, 8117909, 8118207, 8118505, 8118803, 8119101, 8119399, 8119696,
  8119994, 8120291, 8120589, 8120886, 8121183, 8121480, 8121777, 8122074, 8122371, 8122668, 8122965, 8123261, 8123558, 8123854, 8124151, 8124447,
  8124743, 8125039, 8125335, 8125631, 8125927, 8126223, 8126518, 8126814, 8127109, 8127405, 8127700, 8127995, 8128290, 8128585, 8128880, 8129175,
  8129470, 8129764, 8130059, 8130354, 8130648, 8130942, 8131237, 8131531, 8131825, 8132119, 8132413, 8132706, 8133000, 8133294, 8133587, 8133881,
  8134174, 8134468, 8134761, 8135054, 8135347, 8135640, 8135933, 8136226, 8136518, 8136811, 8137103, 8137396, 8137688, 8137980, 8138273, 8138565,
  8138857, 8139149, 8139441, 8139732, 8140024, 8140316, 8140607, 8140898, 8141190, 8141481, 8141772, 8142063, 8142354, 8142645, 8142936, 8143227,
  8143517, 8143808, 8144098, 8144389, 8144679, 8144969, 8145260, 8145550, 8145840, 8146130, 8146419, 8146709, 8146999, 8147288, 8147578, 8147867,
  8148156, 8148446, 8148735, 8149024, 8149313, 8149602, 8149891, 8150179, 8150468, 8150756, 8151045, 8151333, 8151622, 8151910, 8152198, 8152486,
  8152774, 8153062, 8153350, 8153637, 8153925, 8154213, 8154500, 8154788, 8155075, 8155362, 8155649, 8155936, 8156223, 8156510, 8156797, 8157084,
  8157370, 8157657, 8157944, 8158230, 8158516, 8158802, 8159089, 8159375, 8159661, 8159947, 8160232, 8160518, 8160804, 8161090, 8161375, 8161660,
  8161946, 8162231, 8162516, 8162801, 8163086, 8163371, 8163656, 8163941, 8164226, 8164510, 8164795, 8165079, 8165364, 8165648, 8165932, 8166216,
  8166500, 8166784, 8167068, 8167352, 8167636, 8167919, 8168203, 8168486, 8168770, 8169053, 8169336, 8169620, 8169903, 8170186, 8170469, 8170751,
  8171034, 8171317, 8171599, 8171882, 8172164, 8172447, 8172729, 8173011, 8173293, 8173575, 8173857, 8174139, 8174421, 8174703, 8174985, 8175266,
  8175548, 8175829, 8176110, 8176392, 8176673, 8176954, 8177235, 8177516, 8177797, 8178077, 8178358, 8178639, 8178919, 8179200, 8179480, 8179760,
  8180041, 8180321, 8180601, 8180881, 8181161, 8181441, 8181720, 8182000, 8182280, 8182559, 8182839, 8183118, 8183397, 8183677, 8183956, 8184235,
  8184514, 8184793, 8185071, 8185350, 8185629, 8185907, 8186186, 8186464, 8186743, 8187021, 8187299, 8187577, 8187855, 8188133, 8188411, 8188689,
  8188967, 8189245, 8189522, 8189800, 8190077, 8190354, 8190632, 8190909, 8191186, 8191463, 8191740, 8192017, 8192294, 8192570, 8192847, 8193124,
  8193400, 8193677, 8193953, 8194229, 8194506, 8194782, 8195058, 8195334, 8195610, 8195885, 8196161, 8196437, 8196712, 8196988, 8197263, 8197539,
  8197814, 8198089, 8198364, 8198639, 8198914, 8199189, 8199464, 8199739, 8200014, 8200288, 8200563, 8200837, 8201112, 8201386, 8201660, 8201934,
  8202208, 8202482, 8202756, 8203030, 8203304, 8203578, 8203851, 8204125, 8204398, 8204672, 8204945, 8205218, 8205492, 8205765, 8206038, 8206311,
  8206584, 8206856, 8207129, 8207402, 8207674, 8207947, 8208219, 8208492, 8208764, 8209036, 8209308, 8209580, 8209852, 8210124, 8210396, 8210668,
  8210940, 8211211, 8211483, 8211754, 8212026, 8212297, 8212568, 8212840, 8213111, 8213382, 8213653, 8213924, 8214194, 8214465, 8214736, 8215006,
  8215277, 8215547, 8215818, 8216088, 8216358, 8216628, 8216899, 8217169, 8217439, 8217708, 8217978, 8218248, 8218518, 8218787, 8219057, 8219326,
  8219595, 8219865, 8220134, 8220403, 8220672, 8220941, 8221210, 8221479, 8221748, 8222016, 8222285, 8222554, 8222822, 8223091, 8223359, 8223627,
  8223895, 8224164, 8224432, 8224700, 8224967, 8225235, 8225503, 8225771, 8226038, 8226306, 8226573, 8226841, 8227108, 8227376, 8227643, 8227910,
  8228177, 8228444, 8228711, 8228978, 8229244, 8229511, 8229778, 8230044, 8230311, 8230577, 8230844, 8231110, 8231376, 8231642, 8231908, 8232174,
  8232440, 8232706, 8232972, 8233238, 8233503, 8233769, 8234034, 8234300, 8234565, 8234830, 8235095, 8235361, 8235626, 8235891, 8236156, 8236421,
  8236685, 8236950, 8237215, 8237479, 8237744, 8238008, 8238273, 8238537, 8238801, 8239065, 8239329, 8239593, 8239857, 8240121, 8240385, 8240649,
  8240913, 8241176, 8241440, 8241703, 8241967, 8242230, 8242493, 8242756, 8243019, 8243283, 8243546, 8243808, 8244071, 8244334, 8244597, 8244859,
  8245122, 8245384, 8245647, 8245909, 8246172, 8246434, 8246696, 8246958, 8247220, 8247482, 8247744, 8248006, 8248267, 8248529, 8248791, 8249052,
  8249314, 8249575, 8249836, 8250098, 8250359, 8250620, 8250881, 8251142, 8251403, 8251664, 8251925, 8252185, 8252446, 8252707, 8252967, 8253228,
  8253488, 8253748, 8254009, 8254269, 8254529, 8254789, 8255049, 8255309, 8255569, 8255828, 8256088, 8256348, 8256607, 8256867, 8257126, 8257386,
  8257645, 8257904, 8258163, 8258422, 8258681, 8258940, 8259199, 8259458, 8259717, 8259976, 8260234, 8260493, 8260751, 8261010, 8261268, 8261526,
  8261785, 8262043, 8262301, 8262559, 8262817, 8263075, 8263333, 8263590, 8263848, 8264106, 8264363, 8264621, 8264878, 8265136, 8265393, 8265650,
  8265907, 8266164, 8266421, 8266678, 8266935, 8267192, 8267449, 8267706, 8267962, 8268219, 8268475, 8268732, 8268988, 8269245, 8269501, 8269757,
  8270013, 8270269, 8270525, 8270781, 8271037, 8271293, 8271548, 8271804, 8272060, 8272315, 8272571, 8272826, 8273081, 8273337, 8273592, 8273847,
  8274102, 8274357, 8274612, 8274867, 8275122, 8275376, 8275631, 8275886, 8276140, 8276395, 8276649, 8276903, 8277158, 8277412, 8277666, 8277920,
  8278174, 8278428, 8278682, 8278936, 8279190, 8279443, 8279697, 8279951, 8280204, 8280458, 8280711, 8280964, 8281218, 8281471, 8281724, 8281977,
  8282230, 8282483, 8282736, 8282989, 8283241, 8283494, 8283747, 8283999, 8284252, 8284504, 8284757, 8285009, 8285261, 8285513, 8285765, 8286017,
  8286269, 8286521, 8286773, 8287025, 8287277, 8287528, 8287780, 8288032, 8288283, 8288534, 8288786, 8289037, 8289288, 8289539, 8289791, 8290042,
  8290293, 8290544, 8290794, 8291045, 8291296, 8291547, 8291797, 8292048, 8292298, 8292549, 8292799, 8293049, 8293299, 8293550, 8293800, 8294050,
  8294300, 8294550, 8294799, 8295049, 8295299, 8295549, 8295798, 8296048, 8296297, 8296547, 8296796, 8297045, 8297294, 8297544, 8297793, 8298042,
  8298291, 8298540, 8298788, 8299037, 8299286, 8299535, 8299783, 8300032, 8300280, 8300529, 8300777, 8301025, 8301273, 8301522, 8301770, 8302018,
  8302266, 8302514, 8302762, 8303009, 8303257, 8303505, 8303752, 8304000, 8304247, 8304495, 8304742, 8304990, 8305237, 8305484, 8305731, 8305978,
  8306225, 8306472, 8306719, 8306966, 8307213, 8307459, 8307706, 8307953, 8308199, 8308446, 8308692, 8308938, 8309185, 8309431, 8309677, 8309923,
  8310169, 8310415, 8310661, 8310907, 8311153, 8311398, 8311644, 8311890, 8312135, 8312381, 8312626, 8312871, 8313117, 8313362, 8313607, 8313852,
  8314097, 8314342, 8314587, 8314832, 8315077, 8315322, 8315566, 8315811, 8316056, 8316300, 8316545, 8316789, 8317033, 8317278, 8317522, 8317766
>>
\* x is halved until it is in the table; what is cut off is put back to first order
RECURSIVE LnBig(_, _, _)
LnBig(q, r, p) ==           \* the number is q * p + r, p a power of two
  IF q <= 4096 THEN LnTable[q] + ((((r * 1000) \div p) * 1000) \div q)
  ELSE LN2 + LnBig(q \div 2, r + (q % 2) * p, 2 * p)
Ln(x) == IF x <= 4096 THEN LnTable[x] ELSE LnBig(x, 0, 1)
================================================================================
