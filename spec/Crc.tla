--------------------------------- MODULE Crc ----------------------------------
(* CRC-32C (Castagnoli), reflected, polynomial 0x82F63B78, as <<hi, lo>>.      *)
EXTENDS Bytes, Bitwise, SequencesExt

\* eight shift-and-xor steps over a word
RECURSIVE Shift8(_, _)
Shift8(w, k) ==
  IF k = 0 THEN w
  ELSE LET s == <<w[1] \div 2, (w[1] % 2) * 32768 + (w[2] \div 2)>>
       IN Shift8(IF w[2] % 2 = 1 THEN <<s[1] ^^ 33526, s[2] ^^ 15224>> ELSE s, k - 1)
\* the same as a table of constants (MCCrc checks that it is the same)
CrcTab == <<
  <<0, 0>>, <<62059, 33539>>, <<57659, 28919>>, <<4944, 62452>>, <<51098, 38687>>, <<13809, 5148>>, <<9889, 59368>>, <<54474, 25835>>,
  <<35545, 22735>>, <<30898, 56268>>, <<27618, 10296>>, <<39305, 43835>>, <<19779, 53200>>, <<48936, 19667>>, <<44152, 48935>>, <<24083, 15396>>,
  <<4190, 51055>>, <<57909, 17516>>, <<61797, 47000>>, <<782, 13467>>, <<55236, 20592>>, <<9647, 54131>>, <<14079, 8327>>, <<50324, 41860>>,
  <<39559, 40864>>, <<26860, 7331>>, <<31676, 61271>>, <<35287, 27732>>, <<23837, 2239>>, <<44918, 35772>>, <<48166, 30792>>, <<20045, 64331>>,
  <<8381, 36574>>, <<53974, 3549>>, <<49542, 65065>>, <<13293, 32042>>, <<59175, 6593>>, <<5452, 39618>>, <<1564, 26934>>, <<62583, 59957>>,
  <<43620, 54801>>, <<22543, 21778>>, <<19295, 42726>>, <<47412, 9701>>, <<28158, 16654>>, <<40853, 49677>>, <<36037, 12793>>, <<32430, 45818>>,
  <<12515, 18865>>, <<49800, 51890>>, <<53720, 14662>>, <<9139, 47685>>, <<63353, 57006>>, <<1298, 23981>>, <<5698, 44633>>, <<58409, 11610>>,
  <<47674, 4478>>, <<18513, 37501>>, <<23297, 24969>>, <<43370, 57994>>, <<32160, 34401>>, <<36811, 1378>>, <<40091, 63126>>, <<28400, 30101>>,
  <<16763, 7612>>, <<45840, 40639>>, <<41024, 27979>>, <<21035, 61000>>, <<34529, 35491>>, <<29834, 2464>>, <<26586, 64084>>, <<38321, 31063>>,
  <<52130, 17779>>, <<14793, 50800>>, <<10905, 13700>>, <<55538, 46727>>, <<3128, 53868>>, <<65107, 20847>>, <<60675, 41627>>, <<8040, 8600>>,
  <<20773, 56019>>, <<41806, 22992>>, <<45086, 43556>>, <<17013, 10535>>, <<38591, 19916>>, <<25812, 52943>>, <<30596, 15675>>, <<34287, 48696>>,
  <<56316, 33308>>, <<10647, 287>>, <<15047, 62187>>, <<51372, 29160>>, <<7270, 5379>>, <<60941, 38400>>, <<64861, 26100>>, <<3894, 59127>>,
  <<25030, 37730>>, <<37805, 4193>>, <<33021, 58261>>, <<29334, 24726>>, <<42588, 1149>>, <<21559, 34686>>, <<18279, 29834>>, <<46348, 63369>>,
  <<60191, 52141>>, <<6516, 18606>>, <<2596, 47962>>, <<63567, 14425>>, <<11397, 23730>>, <<57070, 57265>>, <<52670, 11333>>, <<16341, 44870>>,
  <<29080, 21517>>, <<33779, 55054>>, <<37027, 9466>>, <<25288, 43001>>, <<46594, 49938>>, <<17513, 16401>>, <<22329, 46053>>, <<42322, 12518>>,
  <<64321, 3266>>, <<2346, 36801>>, <<6778, 31797>>, <<59409, 65334>>, <<15579, 39901>>, <<52912, 6366>>, <<56800, 60202>>, <<12171, 26665>>,
  <<33526, 15224>>, <<28829, 47227>>, <<25549, 19343>>, <<37286, 51340>>, <<17772, 44135>>, <<46855, 12132>>, <<42071, 56464>>, <<22076, 24467>>,
  <<2095, 25527>>, <<64068, 57524>>, <<59668, 4928>>, <<7039, 36931>>, <<53173, 62632>>, <<15838, 30635>>, <<11918, 33887>>, <<56549, 1884>>,
  <<37544, 64535>>, <<24771, 32532>>, <<29587, 36064>>, <<33272, 4067>>, <<21810, 27400>>, <<42841, 59403>>, <<46089, 7167>>, <<18018, 39164>>,
  <<6257, 42200>>, <<59930, 10203>>, <<63818, 54319>>, <<2849, 22316>>, <<57323, 13255>>, <<11648, 45252>>, <<16080, 17200>>, <<52411, 49203>>,
  <<41547, 46502>>, <<20512, 13989>>, <<17264, 50513>>, <<45339, 18002>>, <<26065, 8889>>, <<38842, 41402>>, <<34026, 21070>>, <<30337, 53581>>,
  <<10386, 60777>>, <<56057, 28266>>, <<51625, 40350>>, <<15298, 7837>>, <<61192, 31350>>, <<7523, 63861>>, <<3635, 2689>>, <<64600, 35202>>,
  <<45589, 29385>>, <<16510, 61898>>, <<21294, 574>>, <<41285, 33085>>, <<30095, 58838>>, <<34788, 26325>>, <<38068, 38177>>, <<26335, 5666>>,
  <<14540, 10758>>, <<51879, 43269>>, <<55799, 23281>>, <<11164, 55794>>, <<65366, 48409>>, <<3389, 15898>>, <<7789, 52718>>, <<60422, 20205>>,
  <<50061, 9924>>, <<12774, 42439>>, <<8886, 22067>>, <<53469, 54576>>, <<1047, 45531>>, <<63100, 13016>>, <<58668, 49452>>, <<5959, 16943>>,
  <<18772, 32267>>, <<47935, 64776>>, <<43119, 3836>>, <<23044, 36351>>, <<36558, 59668>>, <<31909, 27159>>, <<28661, 39395>>, <<40350, 6880>>,
  <<54227, 57771>>, <<8632, 25256>>, <<13032, 37212>>, <<49283, 4703>>, <<5193, 30388>>, <<58914, 62903>>, <<62834, 1603>>, <<1817, 34112>>,
  <<22794, 47460>>, <<43873, 14951>>, <<47153, 51603>>, <<19034, 19088>>, <<40592, 11899>>, <<27899, 44408>>, <<32683, 24204>>, <<36288, 56719>>,
  <<58160, 43034>>, <<4443, 11033>>, <<523, 55533>>, <<61536, 23534>>, <<9386, 16133>>, <<54977, 48134>>, <<50577, 20466>>, <<14330, 52465>>,
  <<27113, 61653>>, <<39810, 29654>>, <<35026, 32802>>, <<31417, 801>>, <<44659, 26570>>, <<23576, 58569>>, <<20296, 5949>>, <<48419, 37950>>,
  <<62318, 28533>>, <<261, 60534>>, <<4693, 8066>>, <<57406, 40065>>, <<13556, 63594>>, <<50847, 31593>>, <<54735, 34973>>, <<10148, 2974>>,
  <<31159, 14266>>, <<35804, 46265>>, <<39052, 18253>>, <<27367, 50254>>, <<48685, 41125>>, <<19526, 9126>>, <<24342, 53330>>, <<44413, 21329>>>>

CrcStep(w, x) == LET t == CrcTab[((w[2] % 256) ^^ x) + 1]
                 IN <<t[1] ^^ (w[1] \div 256), t[2] ^^ ((w[1] % 256) * 256 + (w[2] \div 256))>>
Crc32c(b) == LET w == FoldLeft(CrcStep, <<65535, 65535>>, b) IN <<65535 - w[1], 65535 - w[2]>>
\* the checksum of a record: over its bytes with the checksum field (bytes 28..31) zero
RecordCrc(b) == Crc32c(SubSeq(b, 1, 28) \o <<0, 0, 0, 0>> \o SubSeq(b, 33, Len(b)))
=============================================================================
