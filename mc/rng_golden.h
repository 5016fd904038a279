// The published test sequences of the five generators (seed 985456376): 500 integers, 500 floats, 500 doubles, and 100 integers
// of the second of five streams spawned by stream 7 of 9.
static const int GI[5][600] = {{1082915148,1199233690,1820589,1785469446,1634340924,480238811,1196502070,1382254662,196410471,1026618316,1720651202,1408251811,1441289847,1389668416,449443163,1504881093,1494675635,486370894,1385888008,1593217175,124661380,1526201895,848924191,2004280383,1058558138,417420662,250669417,677053801,1969423926,10648102,2094647591,526910115,1201654150,922289955,1079716037,178362827,115267902,1657564313,271409790,1402783932,1108329258,2091298422,1896209337,1133093496,608107545,593856362,629579113,1526251347,1111155562,841703376,58511471,4920091,1267083368,1504572630,473211957,1164337523,2122077619,9943750,829975784,20529118,937050748,218796243,1743373140,786293299,327041861,1270020614,1187738722,793821325,2060527126,1317974913,1074814491,122614888,508339938,2126426459,842358804,865240170,1908934382,1157089863,813650806,234483167,1414062741,1597549919,1778499375,165819196,933340266,681775915,1413208197,639160951,2115095984,1733872182,277394530,481475234,1983416492,531535858,94678105,2066018822,960695378,1277923970,1051814172,452714453,15042504,1996092391,1658280332,71310038,585584617,602712293,1020720263,1289487756,1474553381,2106438679,1902579254,968037622,1157788792,55031502,2030200509,240437508,228490906,969284932,1169324779,1446572751,728612287,151857310,1507778490,935624766,734721362,1194860398,1543890419,140383648,1444281557,2058960911,614018438,881114235,1470925415,1548789527,1385366568,885386763,1190362585,1119709186,679841602,56737667,247522177,101442423,480937025,1953567667,988645479,1310980899,1343566472,616470030,819936764,721927168,146386523,1867101336,2071461643,1593379669,860102917,1097276065,1769005418,1549048981,1268997475,1619394697,1125370564,884053840,2015221480,2065526019,888745304,166903379,188167058,1736367055,1623463168,1485050365,976162994,420526107,1542913900,721166733,881398264,1714523617,1889513419,1344160269,1255016395,627987561,21591261,519043414,685541256,1060541062,868170468,485270694,1184716625,986110697,532592353,102633571,1654583512,738826165,1278644877,946225194,1623543880,304331045,1851699228,1775881931,940197627,746126970,1759367059,328787674,1781017777,978865887,1192077844,737500000,2128880159,290329567,82681427,593729904,268298730,197038387,586865942,895807934,1239101459,1764017066,958055325,1337339538,425030454,1221817411,151083160,626789827,117906390,877557298,1275869094,1185039087,1103197870,2041549242,1458944131,1692988757,1547876195,678479328,1908068798,952789768,2006916588,2089943787,1719284627,2112755131,1588822892,440206677,380051274,1572148369,86985674,926485915,1371229902,1576387163,1757211363,1474334283,42103110,584921816,1458740353,887677761,2050826394,1297339035,115750084,2094636830,2006190686,106452916,318861409,1594733971,924984322,411693427,1329768461,1206309272,1716488864,471467079,1651979349,1449841852,331734861,1290482465,1170542781,333234374,762004337,1246768193,189578868,169357010,1108656811,1088460846,1883043441,1211019540,745457656,165340631,622233637,1449293017,387288879,1362722696,1184815041,1055317754,1793316746,1244417125,601717933,378622289,734762163,2029627568,748097588,341248706,1413865659,662254447,1351102380,929143950,1230533167,396428647,36742287,40344178,1884294169,1106814751,1215901008,2003540268,1709328838,1501017479,1608768013,758955583,261071626,552163574,1634701815,1606947279,385855901,1208065625,1626472290,95894232,705001674,952061060,1129903048,1582273265,639064650,1267106570,1760257316,1809683941,1118291201,695783365,1802442646,1443477646,756170901,1901893812,830384608,837690960,996852867,1512624106,868215664,983500660,461762284,1365332318,877883261,1214788565,557694252,1992978984,1103518964,1351456169,386595182,810980970,683831232,1994220412,397178948,494978713,1413596588,1178699687,812139654,406840253,1309610403,40151582,1753951914,236161097,1662584346,2047905846,666271096,1894404850,1822181353,942406980,834989517,1475295835,398627529,330096131,564247207,2024788629,657142256,1094842623,1630474369,1730003838,551182878,159256206,1426752795,1784240003,1090949850,1433244670,1518617691,132761082,2074940010,2007319433,445595023,961141277,1660013175,835652268,2005625245,1346854011,1616908730,1114396747,1357585748,650346531,1104395683,1423131831,1325935734,1074447958,220160956,595759073,194940716,991995627,582242260,2117906732,238275028,2046826480,931962587,1802263611,383638402,990973716,1656631870,264137560,1862034548,1937004353,796337072,1403297605,260824582,2105812360,1864781054,645907547,1485629558,663707181,52211510,879582911,645893598,1460171647,537007786,1068021317,1575693224,1050663592,1719268982,1257384781,2108881320,770206655,296413422,398655254,1793156379,1387275167,716507647,754246205,1528963411,1290042324,924380666,370662528,1099132851,1712844525,1746402752,2082925859,1554766039,1155091510,1875611912,1950041091,798675665,1992865574,338726457,1300509330,161915346,486327788,381817220,2092678803,1933381465,1928610457,1899033651,208267523,713363055,912680757,454133075,1255987799,2072000947,1532462713,1466254670,1860084984,1539598774,610816887,1092045173,1709809461,269773215,1843009528,1445151406,1804470262,1072612833,1755008280,49324038,868688056,456404746,1080974593,624919661,1564753752,134863444,1931544032,509117018,1174555507,884100906,1094135398,1637558493,477542827,190110384,1678862029,1736517969,1918608134,1125559225,1632740624,1597816955,1059635668,945339961,1520124163,1186199443,534637109,1055870353,632991014,697100502,31152944,754270994,1831698854,1761978616,304264878,549161660,1495012659,944191381,1078566196,2067646816,204897486,758763536,1469608325,2079390525,1798948762,1162410917,638812170,777715511,604953539,734797044,885447014,933545291,1140251623,27351439,850326124,84592004,380500294,968906321,1759287123,1524701266,2142164776,2017151432,1786971382,1569130781,1851433264,1651515194,571172520,1198346707,1660248226,1658407615,1387991105,389502914,620678577,601935787,1441060514,22526965,1577404805,326738087,638792767,851098166,184599718,245568258,419105514,1559137640,521919279,53535660,112089696,1997467775,1312078806,430011042,2142789165,1841902343,850089162,1030482206,882859755,235535511,985499354,1298679197,629265995,871745186,153947194,496916583,1353203858,517264437,1665505249,476664311,609520859,1507011941,535683668,1391103581,1715593067,1994322808,1488818386,960190141,1448489698},
{1519318188,1426033120,12059519,1873949618,1484742006,602016304,11227543,1145778485,1525748633,1914701950,932487892,948632171,286774045,1574863317,922218844,247310540,297059622,228081932,1819872467,801091272,513858329,1997145938,1012370293,1653503743,1767026203,842568853,1252519042,2098459738,436163829,1916905936,439668243,734555397,1165558358,1628700465,1554741325,543795789,280206705,1186924583,1235312622,1552193364,1446962952,1185562439,1752998470,835074222,644816067,2089587740,1169677443,819644125,1287154939,1649374411,1236934759,451777959,1414458583,587582881,1408116822,780292690,902570703,732313726,2001226958,222298815,1540134799,2015917594,1600199985,507514722,1804287800,1960913714,34790911,577208861,1893068035,1952168852,377654882,1126073337,481125185,794885381,1057584933,1447166915,803008961,1060264974,1358079232,1833783170,1563489420,1394863267,1993347153,1549093588,705750285,1452064946,497914919,879021094,176230287,2019278470,1643919033,989432528,726753057,1784680729,941008182,648734732,149033431,895429687,1763190009,306691284,1523353454,474431116,80321559,282474137,2135276617,168545164,335852373,79211741,2023318233,1927481151,494629751,732707247,973598043,210595305,1286807541,1531035395,1073691134,1710092694,1569943818,2058871535,1148515167,710932353,361738023,916221120,1601902448,1892237154,1334153672,2033536248,341472952,591441556,341189536,1799715368,83123702,371710242,1297567281,1479519399,1380187170,1789133488,1449725627,94430000,770799311,811348292,488093324,179206743,1550057198,1462029298,2082797752,1737457897,1090361327,1320034147,1282664228,716100384,428516163,1984037443,84435197,2023974595,1859166783,956150664,217109641,1669730842,216727646,2107632797,1189713496,2113927116,1999247328,2144862571,1421045716,69902745,1523581649,702662725,785606458,1590866928,783297128,1073931185,236987107,633341039,297920200,1712384016,1115793917,1580318009,142860579,1969534765,721069208,1889736494,318589503,1432767392,1976999198,722277645,1872451411,1645022752,2114921758,2081655141,1618794316,1277931174,1208098691,314544500,1767051888,721640314,1355665956,175607521,1714849371,1799950367,1081327798,581732946,1275555944,1566610969,1084338975,2115422443,126711916,1827910040,1276160296,423050918,1239887327,320394247,170646924,1342793613,1364814167,1070829164,663116399,776008147,697304175,1740234173,116130091,351830734,742701576,1356090115,1945323399,2000339157,1130782953,1514387812,1144998981,825011187,1252135619,1521916946,1199457556,2058891144,1006186898,438316560,1090430950,1195882174,1346018656,1029121503,64344477,1800367591,2032323686,303972101,157633570,719764145,1509283727,1031787387,2029008338,2037667144,2029514072,1295425268,390638676,843664457,379321621,553166343,1522891975,937106850,2130037904,230562620,252361562,670756421,290720269,1634532338,1427915831,768592584,2101365931,545980203,672106458,1465629406,568218919,731533367,283272385,1724862893,891371774,443707196,1239363712,1019561229,770490860,253587873,1256878638,378500512,1129958354,1197653080,628961341,1139323338,39422711,638792200,742855592,1149394319,708236456,524267287,1423835784,887294281,173909053,312577427,1759327235,1640161605,1824102006,361089789,1355030432,2053423165,239580485,2069776885,1093011960,808881837,1938114024,228166079,1470976200,1227454742,1788128112,778571186,1618606180,2039637775,1034080160,646418046,785996937,1658649924,1537926194,1172762457,832390797,1087329360,1284222582,1843056904,2027096819,879390324,165211991,260668617,665301085,1484478004,1280104888,1510850843,860127708,1771220943,1956178238,326318701,566218404,473196444,770886507,838558115,1212152095,1032259392,863595809,1710332546,2088982362,1937382346,1137680007,1066753017,2105919197,1378154156,1047338826,1915513933,341128666,1071838105,1821132094,1493437219,1857078207,760237369,245485407,585548647,1881832232,1755474631,2069223221,1815445273,630327090,633893002,1818243735,960845556,80684587,1496104237,1356330953,1304459259,1315240873,112582142,634729985,1081039076,2096874483,10839043,34952267,350247261,1944373982,51176438,906356932,1606337850,854910964,732252959,2005875267,1261376893,564929040,935498510,311361113,1410672963,214793288,1908784692,546129328,664932489,1101549125,1974527840,1781590226,331997916,885320177,1681722900,733357894,1898904540,63484041,1508321733,361335574,260495278,865736980,851045872,797606575,2120067391,494111278,1560512789,1455194914,625517683,1124878654,394954901,1253237962,334222890,816390410,2014505829,1143671881,831996976,1126351266,201084334,91345390,629665538,824064955,1196685126,1572632948,904671098,355752280,163673862,585821223,814205529,670496229,823809289,1402488675,1243280307,1007146912,1980319172,441463159,291527731,1160440945,149891071,1888667369,24199755,12987420,1054341039,493244950,1367564605,1073463760,1827389362,1777164083,321091586,14122777,856388713,1664163506,2082996757,507968054,892043567,158033922,1887083554,1898191303,827962038,1660489392,224620167,349974495,991037502,1042062316,35182534,261236347,1920325044,1161485928,131494092,1365286733,164006,463348382,143222040,737757427,1852375585,225592684,706017482,547949447,1359296363,787690268,321975948,1713704594,755755930,1628488897,499949401,181598811,1857578000,1400262143,731092520,920598175,896408023,132160837,1590045634,572998684,535426631,2035021558,1321766978,841786435,1834117734,1601058066,936071460,1539773974,229258807,719095824,1544468387,1804878971,34684357,1783446270,1532162905,1925035341,8079570,1312817337,528383937,1468141516,163740485,1469305353,589471769,1985412317,821821692,1787012760,2021049256,1588435774,460861185,2110206672,977863766,9986444,1507965978,1538438290,1005146555,1053829161,646714044,1476966607,1839086198,1388246287,1284447835,1369613320,2132649460,1747583856,1513051679,1979754401,556871827,1739678026,1688413939,1394060829,1702706210,142761158,1256931065,674474044,867378882,573234061,1384750171,1516143856,615152170,559322603,1321967997,2119171639,642925896,960761817,662032530,1180189916,562246214,231606765,223096967,215971078,282348262,1994327067,59817310,1423285692,470793544,401034344,142714327,1672152378,1059214094,1079702382,1099135114,687748138,1472179416,724820168,1901576788,637350339,1322693674,987046235,2028404777,39926461,146085297,1448569219,1763518026,1372593455,1086191068,689677594,864181970},
{129257823,891625490,2005567908,1662548072,658225048,124619346,894161477,1278593180,230042179,1299920542,25504010,2092833572,1810453935,1865573144,1186292018,1533579696,1414683338,956213689,1950757451,766099278,486644064,1902921053,602854549,1096530764,763803282,337705479,1633832953,1234614795,1031978849,1954375998,1812121703,725139917,1622872195,1438657108,2101478192,1393837292,783441859,2070404873,401290008,1667332503,71887285,598995019,333703371,1910585626,2065115544,14527352,985112366,614335509,1328776850,654429097,2010879945,1804161259,1943956955,1041319607,153084571,1432948984,122398495,318575638,1634767737,633110234,1361694648,254964447,593727778,259547807,136835259,1238497692,1680402580,1178530723,135540683,148668461,45539723,454720872,1333077279,233548691,1675183267,853550146,889103151,855851873,1499272128,689751706,1174997923,589946300,678833034,391644013,1967161001,714521683,1125390432,985047121,1948907334,175911730,473227105,203632877,1366405529,172372195,682805398,682476780,1214551386,1719022232,752622383,898669619,158227376,1297469978,1322772351,469615914,591638004,548392693,1882351983,276069981,177157087,2111922002,1312418998,1650432294,938162384,2112406631,1492067256,836051639,142442036,945693969,1567865357,1928211757,688594572,372475856,1141999915,302855089,873230816,580561691,1709595853,1053898842,509063076,501404796,1419007427,874818845,2073464797,409855786,943281468,2055207853,1990707150,1262385810,1637440746,395094880,1290602018,1728468891,1524569476,1580287313,1415855590,2054976780,1103978024,1362268726,348869292,172393262,108002188,1660730502,1777018323,1076755936,675683105,258733167,1329818884,2054914296,104888196,1523224475,858590009,2012795577,1976115807,421904641,1534086210,441376090,1742003076,526491187,751577402,1350476989,1434340076,281936034,1276586748,1260580579,1798567614,1909499649,1938242776,1926971766,2042298621,261579250,1129640426,1287845806,16687454,727996663,2068604139,1844503326,1123075168,689991990,118371670,1809499605,1458781281,567930064,989205512,273465902,1172772292,764224367,336507125,437741416,275145517,1983093934,31319566,200276497,2068121658,2051527559,2038606076,1944548393,796074762,1247898757,687912044,429233861,821444816,496923412,1142066890,687925556,492470004,1390722742,1521879455,1974579434,805822051,1865482055,1999715009,1212160181,30495914,1156556123,247240124,1671059930,1761677390,784254254,1264090193,15876475,702177847,615596408,2076640049,1727873285,624331463,1788356519,94907575,112361542,3518875,220614191,459932779,1536159717,1893010519,558492661,414898191,48002673,1531744898,1890561806,794765385,1578613141,1157318663,1805979904,957477894,1277212555,732366970,383778117,2046915754,846563091,12862552,300572680,1781791383,948916546,573222498,244588685,2091545582,721158395,1997936507,329432191,2061638348,381161203,2002322982,652311919,1653197653,2002238336,1154702735,2093235107,1887635645,188871677,1545698905,1547545438,965219800,717519158,1091393043,496483143,1733183873,1631014390,1580705150,557808141,1157701699,1793840436,945209894,1056606742,144746250,1032663450,347966789,442945097,1649623235,1409559766,1419371903,299580056,1398326113,321368907,1055573592,110627695,948624774,599127409,1191440478,992439540,381913597,712717761,1016012733,1907873678,1281608554,666716673,1054021951,720484978,1954873697,1364344715,1950020389,76844302,108494593,1722345683,1529366861,1958377610,1434730126,1480714672,1136312807,213589410,1529386925,816484618,442955517,1543716915,1931114273,1740154827,497466577,1289029421,1133745647,318911414,236658364,878938378,1576461944,1875338198,1361969982,852214799,332600146,1706114067,799783358,303806135,1310518637,1089416597,2081846362,359355729,956109779,1460719220,1092427667,851128826,1901134793,808554401,690640853,1611179491,1184400890,1921566005,76539758,2115833205,1256013245,1944222171,1056074136,1969820439,646398016,1150871269,1873519197,2084358497,1206439736,226237162,311064203,1956503379,210976685,150327498,979281982,1406765077,389585470,786069589,879638206,2092447982,1903631636,1956830395,114994528,1616965676,34272449,1617008291,1108920,1079529446,340466583,1532846380,1844866907,1362333710,860351975,2062094538,446824465,780349989,1629183125,1773637149,1837956051,1664768347,1934291463,1926141985,1211168717,1685016267,719465066,754276759,1450206325,1818180027,191119363,1273592779,1678307160,651564516,1702128881,1926752799,626892701,1935765857,110211580,1419217059,538784109,1119988430,584038367,1785673102,1280269736,410553964,1275094742,1556271192,926061176,1826589813,1355447466,652320378,2042838840,859727690,239427917,1313058938,880394875,1970007904,821640931,1839839824,1847433512,26250491,1273738426,1137068021,1558389971,21809782,833665888,1435407902,140594975,316406044,510973724,158460778,1893365660,295618631,467025898,1438533597,1961412185,1394192989,1427942212,1170183857,1199909587,1504242532,1569618569,785440264,10487382,1684030713,888687985,765809585,624376243,1123368299,740379876,681463557,827084204,1799076781,2116427765,94606483,2024613680,1819071749,39334281,284714479,1065364875,521388149,452494594,1261048129,331081934,389767227,962985563,846025227,1320298203,688730943,351575530,280450554,1535545708,1938402605,111921332,399766070,1563707466,1233213370,530988624,891341337,1028205966,191815761,1318542320,1461250574,431277782,662577812,1684271848,1725307484,443427550,1119270731,337540059,1018549017,665890538,1183115172,1296360066,1961513898,782451236,1859569423,919720142,396371965,503404118,984728760,76467039,1073024875,1880370242,266837237,1578055584,148988804,708453464,1621018580,978483264,950632035,62723641,630877092,1452499475,202033204,1436614853,2100442676,387267772,266752358,1282102486,1562923163,1913015678,1158976169,1345662265,143756795,1387064721,1088497802,1608408626,2066539762,1562073659,727353943,1269684449,24575777,51643941,740108798,1427965529,811105805,525596358,1831273755,586834529,1167388199,1253309601,605655379,1279856060,1209757574,1550805864,807011274,786966117,1895199159,4606511,135764917,1945433356,1655246947,1907927454,1581990789,703707308,1737547515,26076409,834776347,292963155,181254685,1722827864,1490450724,381810775,157277968,347035064,666002974,1944680497,192213169,2035379317,1244326335,1045632907,869905062,1409921706,649863636,225789267,777707430},
{182997154,980243147,525052506,2019719429,1284886589,155656878,1048740876,115060897,862575554,1658089133,108607816,811661852,140275319,244735413,30511366,92458912,1780071600,1007621128,817259503,1749225907,1477987543,323655870,1079787480,1525898793,1286028553,491521188,1806060009,1506979221,2039235216,165159676,208632912,1749954329,1861992450,1473562181,320464002,183746587,926397279,459756705,614504933,151382196,687391447,831885882,1167319930,211455669,2110289956,616759194,1362983493,870083917,2011047303,1411321372,47349973,1892523924,830859568,1958786195,730610682,1859619350,716349708,994881505,1884877912,1014954219,1691786504,1025151363,657210055,791586676,1099037714,1868448777,1692347972,1460416070,595330613,748221135,348311646,1037378259,1597344249,803812994,2036799421,1312821219,1301591250,1019830737,78225855,928335293,2036469592,1289499649,1233844866,1148336379,495817327,1005356803,1825265598,1647052241,197712002,1183890214,1183405739,396353740,1762658558,644798733,1242980094,739317667,1487939406,1822630565,1271548451,1108961696,706040167,39656472,1833393062,1401650593,1642806011,550918089,305060038,1188062354,497316276,243394525,2108733603,46387459,1110105413,824149788,400843049,1658526252,269995852,1378516169,26637038,410372319,1003963543,928708029,1896000499,921315445,1641410062,790644144,1946856559,1252325370,1327457963,1407813879,280843573,1492139874,526490823,1244389354,1249778725,2099608387,488175297,1995719452,511616748,722210213,1901401238,242610881,1855662872,139292528,278402137,641928149,1820348178,1438722282,541157614,928148494,1016879601,1770886984,54147044,1341445208,1331900133,767087122,1399346935,773551166,155211299,1692424100,1464472933,563769229,62598784,467239664,1678040064,1019236288,354363047,1253487521,1200905665,1912278799,1769631816,396747658,1746229099,1954232935,2082671973,2102953123,847425252,218133881,657189250,430720043,1295389412,162734913,456535515,1176299256,273458607,417509155,16451185,1111619082,128329567,478197924,1900908566,1342284455,1092129147,665825799,2050891282,1488633220,599254084,1302804920,848570997,710567194,907332439,734663498,477936282,919104274,251781459,2051314905,1353615826,6681001,1632393464,932464398,1312042154,1506855584,1888461214,1253882575,871439364,1654529287,1943324377,472207523,1505090104,230681282,838565205,1857140297,801482745,2106484442,1303305732,2002628225,540747303,1159890840,35918202,470729892,1363869116,1251102272,309340609,614591529,769011708,1837326594,220428087,1051692163,408568808,455575628,1196649666,1730441854,616019756,1021201297,762561673,65063158,1571145132,155420776,1155919183,485858392,1822576979,2081420940,1265175884,9482277,1450216829,758345602,2103723639,1819350853,997915729,848007280,1786468060,1288236387,1267476189,311176800,398920139,1111772872,814818918,1028762672,183483289,971674797,698933437,987041171,1869579462,698033803,2071603499,295335252,681030022,280110957,302891909,2139470671,1246680071,1471011666,1686677251,1344747207,1960063221,1792286990,1818480207,1098873574,1216111524,538932864,1881607000,1966552622,1056870988,2102406969,663490056,847410935,116576065,2017958629,1524957120,917454901,2072802312,498800140,1366589578,619734046,2009394450,1543240155,1367939463,1822687838,1305732997,1249020343,1522712532,721340992,101397054,1038131058,1137553601,865695486,489228372,1407731978,454917256,398580385,1067295970,37500789,1613886540,386618226,2140888043,1735934621,1928442217,1227130727,432985582,1470155642,719546349,396453971,93733051,262660602,731309538,1857302980,2017344593,1015895977,358999679,1310363859,106406778,2514994,1472008026,1641070229,782799159,1758738910,802701469,631291884,1355220806,1424954654,233949258,625556574,1253918264,1599042057,1141344276,1900908835,1976223819,1620156844,1207509819,1817009576,2084732474,432189261,959658269,538618415,2141452345,2105712356,1340601934,2115194356,1049947155,1258874930,531177503,2133900012,1294618897,550347315,735686984,843503640,349796213,194627279,1557683812,2055248858,1370538723,1544699072,1550152269,192089195,307091590,96291152,739578706,207640831,453993963,114239791,640484774,1127151763,1326888538,411009848,1902930192,452366,874957959,743356685,816693878,1803839239,2027211820,323478587,1984357861,581463215,267228064,540473485,1724562208,127791453,1421641282,1251300303,1818515446,228361347,682586589,1760468478,2064648405,1230707479,57303563,637734771,1654262525,688848088,1045175708,1906910024,570884749,1905407811,1637356937,659228482,1524700782,528293629,1668770424,209281767,1801749637,1853994139,1570228407,1111746269,653975114,1346015334,1107003000,1513824319,1233802201,552342046,1711074366,2099082827,351874407,337480501,1825705334,1694618140,1827328899,30351041,837364191,1659133281,203628599,713311514,1503396533,682808507,2144364161,809575332,1222432116,194117867,825997351,1796294773,2084282802,1463126747,1738250532,1835031468,268722855,915603680,271591373,1744063938,1704455313,1270173671,1571915868,2042499272,1286163519,704577726,1717543017,626055368,868827564,799266579,344073070,69842515,1071479410,657082754,1156759897,1453007773,587694234,1697988423,757582925,513728237,1841666695,1284247162,2018340631,821219249,975586551,921872572,78917840,329913347,695689677,874011045,57484672,1903562060,835614087,1287290571,1564766039,304704185,1774165154,70727300,1320520476,1590403527,351322547,301736453,633801215,1953730905,1166424433,1077116052,1252126899,1278547983,80675490,22698981,1773437191,368531641,1387729442,576010412,573490890,1738345371,125179025,1109242584,304445817,1209410410,1892190454,1058524404,1623908133,529285618,1939507201,1110843849,416770838,1241982568,89521622,499865715,1862474926,571405775,1258773055,347158051,2078839531,1913993865,611767209,1300752222,1395253678,680010138,166582059,2010616074,1993925613,2116070362,371870295,1244911239,2037300598,206367479,851692855,1650287842,139418325,1550889197,659381844,738216933,1497690900,1441507288,1441054165,852273377,1582480776,1210167469,2134346057,1361257535,819933710,1906947033,306148144,550919470,727628327,2132834593,314817393,349433337,1554410658,408970032,777252135,1259555305,532660655,456496940,415964679,273309439,1386848673,305016848,706351210,1424266651,1974937742,496447902,876744978,1980155768,1626279545,1653014322,1655275566,1121591667,840032553,1828367448},
{1344404273,1971277308,290254454,1083372102,895084232,729814190,624854114,899912958,257245571,740331159,307398963,1146378559,564320757,1024779462,1722493988,629853638,1467242619,1123333445,674786328,1945686069,1038818467,1377383964,1508592143,1591781294,751309967,1287962425,2024796058,80440979,1589263475,218971170,26882841,2060952703,2062276123,1949546003,452184916,693844543,286574064,2079184783,883182482,1285429140,1358476124,1681488844,423007346,594894998,236446631,1270172052,392193194,2057970022,1389147619,1613926128,1415911066,863754398,176193777,116183920,553831988,2129269519,920281116,816643758,211608358,667893922,1013642387,925903694,1354637784,1195408961,405550226,1160723497,694730397,453821204,949196364,945410040,1662945891,1382219580,2043159770,996618570,178120018,653579137,820727623,661270676,2141607972,957828023,15599396,934123276,405498384,1463894368,1596350686,1383971408,401806818,1899097687,1435392747,280044166,451535797,667891553,328081257,1404838802,1372423908,679494027,1862006328,2056473173,269394493,336138917,909032177,581660988,314791878,1175454363,1663824789,1975897213,782860028,947600045,2056631522,554900845,958491825,467464269,1084419666,324193819,328410499,925474559,1110871928,1813339558,1629371405,283333840,1729397961,699054089,1676777235,80120204,563439214,1123433668,1571384470,795397952,1163568631,1173697950,875025470,1270724394,2074362053,1991114956,1924898827,395467548,1317995558,835453867,45848263,490734899,1254527314,1166014910,925010564,1754993348,1030617174,515621579,239727235,312935503,247970997,2041231128,807800855,953023582,935038439,981096876,433096946,2121283663,581202621,1744378620,828052051,74082531,757117088,1470977045,1226866639,919321941,2004121677,883266750,1785905196,1773006200,1364307522,1538266683,18772703,789553563,30980478,1663359184,2146435145,662331959,1757759233,1033484021,455632505,290497330,274470917,422036712,1189625250,287261904,108395007,1351218821,66569817,1195242004,1556977983,179426526,1267893111,1760372829,1817116431,1075643649,886526580,919660953,1321658356,1722851223,1609870321,1978721730,387611524,571857310,512754693,594766505,1586894221,378514589,705833231,93189042,574533467,796035982,618717082,709622129,1016621500,769517324,380070887,884625363,836560510,717589286,1760589264,1752652145,2012213828,511359954,1668989206,1511804370,625680404,1239422926,1462724929,1363508673,306812441,3732111,1531256075,1081221917,1743679436,393721496,34533623,708088293,1318475436,102690723,1171438382,1467368976,1391083255,1102642459,1336047243,1621780307,1371606554,574540705,1124015787,927493373,308200721,1423045818,672893583,580263407,457222401,1029658533,1776369839,1835365956,1170624327,284752306,2017154155,610578098,1141504663,1262509647,203926253,1116964753,208874102,1179208379,1603588990,277718350,1943719683,1024149981,1798173807,1642621551,1011879675,2103040509,1085044987,716654720,1508350038,494027439,480853088,1944413426,1147135970,1157923848,606027416,99936483,855056188,1003971078,1984960014,772703801,848514041,1229059881,1528038590,638511859,557013705,1832400779,1475322199,1086818332,743119971,382299528,968193075,159961919,1542723225,25698362,1988262367,2018002873,1936123554,195327859,657935247,243670217,1638126310,1745855456,1714186832,2044971910,1825844872,681215965,744580311,1431909696,617135926,45883337,404305660,1418128758,1696570016,956993983,1708546581,15474574,889607394,1443832571,906917449,2006716320,1406930240,629365879,1414409921,733909111,1657513754,966853919,103339508,514184032,1969441535,1997515329,585668431,625417594,1862889323,1870417561,30924413,1121835174,1000765102,355482564,134853724,1233312675,610694819,92486554,916554444,1828453247,201525650,1131865759,354840432,2145379507,250659414,801197096,2018786822,78703238,378982443,1801681229,1727827390,1039879051,615759336,1759083332,1202452667,1908062337,1197994628,1828948812,95424944,1640450411,828149985,697423169,1508613549,1382079153,1784539927,1475773024,1029085082,1791303007,1162136830,583260098,61759169,1784938377,305061817,1653715166,352382817,857098300,1625462612,1481157488,2042510187,1524384019,1504355392,2065236858,1840819437,654648808,153274497,1150747834,1153036354,450218012,1681901621,1858459529,1294988750,1044913750,1126516198,778637056,395295075,1569926001,1656974970,1771840527,1093679503,299630624,1724524913,59638046,663677881,2025638847,1613241068,558081481,669446626,1469995534,12318760,1703817809,1726527454,1574550754,2096330888,88695219,1136618393,159529883,459463337,1878572988,1746359419,1922251707,836786879,234170641,1388749363,67486428,606008713,379090882,1014454838,1870606359,493659301,255397772,1779960663,1648318975,1056415637,1053562861,946641171,1638701732,1484378635,166919624,73933550,127478512,67049277,2141739038,1383757011,1277505226,217627134,1729686702,215836453,507829502,1297262388,1065023423,1166162663,2118370625,1600373301,582356622,518727986,1057479645,1139371156,760451006,1298553848,493656176,755063548,1221540431,2066178339,2107003517,973995769,1008442424,664996150,1643034021,1997144721,888214295,1455347431,1747211104,953974185,1854727271,51950094,1969226547,385350350,1353384322,1556125725,1351329627,575727567,1810222152,616117321,1817150626,2099005577,1513033110,1194491985,34369753,1428368087,1665524327,1270317232,1824115955,512254602,86349257,726836169,648218954,1771285379,1867253637,1683712352,1400185219,1356940758,1601759171,1230636265,1723299111,172261367,222986213,969005022,1011396380,613710413,1507530575,461592300,1799438731,1263949021,1737379567,494813349,971176659,1805179369,221345750,1213262015,1245539906,823537597,1763950955,465969841,1499397093,212889760,1932650612,1665101351,1718191066,808552057,139497366,1584233128,1792285903,808611697,1696608109,591966004,1245736921,73591053,288262780,1883502475,914479277,1494647081,427607079,348451535,1093170849,976601775,125583541,1166593425,1908382582,1556307350,1150847972,1648718153,92193637,670730606,1259013175,430814400,1483442407,805308247,1214921890,912203341,1669106275,1928506533,2139676987,2032324070,1939910549,1755561975,615917460,1665791258,551708917,773804186,295972610,768536204,840207220,2124308057,2105110470,811894388,1207833177,721678025,1090543742,1727120188,1107646163,1186884834,1825003313,2134870661,183116896,956515367,45148199,1236293287,1934801264}};
static const double GF[5][500] = {{0.084565,0.196052,0.372614,0.844266,0.219029,0.965468,0.346879,0.703500,0.837802,0.531987,0.500011,0.579585,0.350214,0.597210,0.695174,0.527890,0.052670,0.402515,0.007963,0.767096,0.796223,0.663469,0.102739,0.783556,0.919928,0.090126,0.959878,0.631730,0.404889,0.947372,0.656219,0.741640,0.234966,0.102094,0.629456,0.471907,0.909405,0.384857,0.177491,0.983512,0.474653,0.069731,0.852441,0.837793,0.300331,0.153610,0.023311,0.971997,0.991339,0.313292,0.491559,0.487710,0.538644,0.403264,0.988946,0.763108,0.671488,0.061971,0.392591,0.328099,0.589068,0.262114,0.315888,0.553250,0.707616,0.313421,0.190673,0.849147,0.957321,0.716096,0.068405,0.621905,0.954594,0.602671,0.247255,0.733912,0.231511,0.430815,0.906601,0.019603,0.989859,0.929196,0.194851,0.905422,0.350407,0.204284,0.717792,0.136776,0.328207,0.899848,0.455456,0.610385,0.215376,0.868683,0.404006,0.816630,0.879963,0.036760,0.512958,0.355734,0.496193,0.497096,0.976508,0.974541,0.488178,0.715524,0.121608,0.688977,0.207084,0.922361,0.561481,0.604135,0.090783,0.169902,0.740975,0.210638,0.445019,0.915509,0.930839,0.137698,0.856775,0.673924,0.375034,0.143467,0.690523,0.561809,0.537469,0.682556,0.691834,0.688910,0.834252,0.376408,0.505322,0.482286,0.928769,0.792951,0.631153,0.768919,0.835681,0.294784,0.450925,0.464832,0.111385,0.557877,0.326453,0.971990,0.110699,0.857823,0.949940,0.189534,0.022926,0.399146,0.235207,0.593987,0.154091,0.938512,0.062748,0.625616,0.207599,0.125168,0.301926,0.998894,0.993391,0.492688,0.639379,0.949845,0.841346,0.223193,0.092892,0.706118,0.820080,0.114666,0.471873,0.530835,0.281049,0.141862,0.617196,0.097265,0.539146,0.468042,0.621454,0.974997,0.480946,0.369896,0.569148,0.023842,0.354458,0.281947,0.737402,0.324209,0.732038,0.504288,0.758835,0.115402,0.071611,0.857553,0.931595,0.568053,0.936581,0.593471,0.681737,0.512265,0.343489,0.744079,0.897526,0.907772,0.970117,0.943200,0.689388,0.434617,0.481979,0.397025,0.458546,0.001989,0.181251,0.099461,0.159960,0.952582,0.435851,0.174288,0.174681,0.503422,0.124210,0.612005,0.289001,0.571668,0.279214,0.863935,0.217330,0.601641,0.931600,0.154285,0.481873,0.572226,0.406519,0.473143,0.339343,0.586059,0.232514,0.486867,0.544539,0.797295,0.737432,0.959599,0.862588,0.618668,0.738571,0.496201,0.222487,0.503106,0.520251,0.510457,0.021343,0.572528,0.240901,0.066475,0.909150,0.675095,0.346260,0.871986,0.008729,0.119651,0.102065,0.389080,0.988595,0.454460,0.788731,0.024235,0.431859,0.009863,0.355284,0.903744,0.484711,0.772883,0.622879,0.522689,0.680006,0.644400,0.474074,0.155181,0.164737,0.943659,0.349254,0.444874,0.593439,0.017314,0.192612,0.095483,0.669686,0.789194,0.184254,0.277014,0.753862,0.438809,0.372599,0.141073,0.325706,0.140104,0.100488,0.942691,0.461208,0.722981,0.969588,0.033370,0.039492,0.485162,0.554375,0.421127,0.704028,0.791177,0.868085,0.261100,0.613213,0.431087,0.922165,0.821503,0.646905,0.179885,0.080717,0.440958,0.538746,0.603590,0.098122,0.473518,0.724045,0.374444,0.398719,0.235766,0.614035,0.101978,0.437155,0.203825,0.059458,0.365296,0.042470,0.780635,0.248331,0.970834,0.767443,0.616197,0.124482,0.263678,0.400085,0.549784,0.379360,0.098996,0.978036,0.180608,0.272404,0.534683,0.030527,0.522510,0.843832,0.585454,0.838458,0.266721,0.632686,0.108064,0.903690,0.428576,0.176022,0.401554,0.506036,0.012785,0.192799,0.009796,0.607051,0.866970,0.448362,0.206223,0.485726,0.350016,0.751822,0.424784,0.136400,0.530875,0.980608,0.803159,0.491626,0.345262,0.456708,0.849038,0.386937,0.983218,0.818203,0.285865,0.140099,0.031097,0.121795,0.578043,0.926807,0.833291,0.904335,0.071467,0.604735,0.565137,0.784132,0.286838,0.484961,0.899259,0.304782,0.769361,0.050450,0.653514,0.074094,0.181957,0.666000,0.386351,0.121320,0.938299,0.546166,0.076896,0.472274,0.801747,0.632040,0.308400,0.133359,0.335882,0.382081,0.218652,0.549612,0.467773,0.147797,0.340578,0.265013,0.899305,0.146935,0.934812,0.628256,0.700113,0.752177,0.080956,0.393630,0.819703,0.157283,0.016607,0.921891,0.656490,0.714376,0.764266,0.315480,0.108908,0.177422,0.105456,0.601671,0.437089,0.594225,0.114896,0.395778,0.053674,0.279059,0.154631,0.348870,0.066666,0.664357,0.680916,0.827707,0.662216,0.812005,0.869373,0.125513,0.023379,0.476628,0.133960,0.324961,0.162850,0.302400,0.869071,0.484339,0.540658,0.497067,0.583616,0.166497,0.269491,0.845481,0.643167,0.817085,0.825211,0.969944,0.354128,0.620570,0.955046,0.965755,0.383467,0.074659,0.881938,0.604888,0.793314,0.641216,0.157804,0.922639,0.311463,0.383475,0.087235,0.768826,0.128712,0.229284,0.098007,0.602682,0.863902},
{0.666551,0.621556,0.318551,0.990514,0.701296,0.388824,0.174647,0.561276,0.679550,0.804865,0.290286,0.234919,0.733417,0.950939,0.146278,0.202764,0.097724,0.157808,0.102785,0.627753,0.197040,0.000145,0.857481,0.848108,0.033915,0.181840,0.593291,0.535873,0.628871,0.059161,0.759953,0.048481,0.176654,0.104791,0.796072,0.893795,0.412338,0.254155,0.922159,0.795978,0.209243,0.295208,0.556261,0.932856,0.333062,0.966098,0.823473,0.725102,0.868571,0.867195,0.465907,0.631756,0.822799,0.033161,0.893151,0.361405,0.638345,0.858702,0.843227,0.188191,0.559840,0.042883,0.614248,0.689145,0.363362,0.279327,0.057079,0.544694,0.651493,0.244032,0.734244,0.496368,0.644735,0.143001,0.110992,0.391442,0.963131,0.005584,0.377095,0.298604,0.730455,0.326548,0.044662,0.114689,0.278399,0.553901,0.635602,0.141356,0.751410,0.726913,0.385590,0.861625,0.876559,0.929197,0.538395,0.236879,0.569985,0.727966,0.589624,0.250878,0.795546,0.718574,0.132561,0.202238,0.206618,0.432099,0.146460,0.272503,0.513203,0.145356,0.800807,0.633411,0.789137,0.462441,0.794714,0.592210,0.024246,0.523191,0.841300,0.874245,0.230512,0.398352,0.090970,0.801744,0.316912,0.918319,0.778690,0.119322,0.382580,0.069908,0.408294,0.140701,0.060834,0.104651,0.846553,0.426335,0.236591,0.006483,0.301963,0.854731,0.906569,0.543726,0.584392,0.806334,0.845897,0.310067,0.073761,0.650985,0.167316,0.175353,0.526515,0.309234,0.031842,0.105822,0.290966,0.663787,0.804727,0.264695,0.525563,0.927246,0.600920,0.510464,0.972213,0.951927,0.573338,0.417766,0.350099,0.200418,0.749492,0.753380,0.139736,0.813624,0.892006,0.149762,0.823647,0.626248,0.561867,0.685994,0.456029,0.126086,0.505866,0.069377,0.931702,0.349338,0.018264,0.421707,0.712783,0.493768,0.278668,0.827205,0.013707,0.137367,0.721199,0.261861,0.021006,0.222807,0.513007,0.467529,0.378632,0.336147,0.622054,0.382460,0.663535,0.028765,0.034777,0.720290,0.435748,0.339312,0.384093,0.982022,0.714716,0.930730,0.898356,0.073698,0.716358,0.107234,0.653931,0.722728,0.706804,0.986934,0.970339,0.177955,0.977677,0.425000,0.430444,0.335147,0.828738,0.385487,0.832290,0.246726,0.926731,0.900823,0.918368,0.201140,0.380193,0.918451,0.406846,0.645483,0.980080,0.174054,0.733303,0.580131,0.472418,0.038371,0.456603,0.784556,0.884344,0.425932,0.085609,0.900784,0.267128,0.523557,0.631610,0.769671,0.962950,0.066549,0.612647,0.203182,0.375820,0.261770,0.048896,0.003981,0.226176,0.407973,0.852077,0.385974,0.404140,0.801655,0.476313,0.083050,0.584536,0.226282,0.953404,0.388520,0.019517,0.117125,0.063135,0.877960,0.939680,0.364269,0.110731,0.819894,0.345077,0.482081,0.211162,0.661675,0.992463,0.931856,0.366621,0.834724,0.938883,0.461217,0.612760,0.500012,0.204477,0.222773,0.885281,0.250144,0.104894,0.787346,0.696069,0.901012,0.477286,0.183851,0.522696,0.998744,0.800541,0.316546,0.712783,0.895237,0.772802,0.147264,0.532159,0.019233,0.955670,0.329601,0.480250,0.304467,0.088619,0.566375,0.535570,0.599619,0.598620,0.181592,0.347245,0.947481,0.923867,0.682318,0.464164,0.007035,0.797525,0.691142,0.291664,0.929076,0.624017,0.391263,0.026797,0.963940,0.068488,0.706741,0.178478,0.962183,0.777294,0.081306,0.399673,0.162254,0.577071,0.989695,0.107682,0.882894,0.150752,0.863209,0.248379,0.545067,0.165598,0.911650,0.464545,0.134439,0.500770,0.430737,0.891340,0.529912,0.976080,0.479310,0.748403,0.018606,0.970637,0.754123,0.393298,0.698154,0.207126,0.869837,0.501276,0.941800,0.697089,0.934191,0.638173,0.731912,0.342999,0.987594,0.684023,0.717910,0.688073,0.824974,0.972624,0.542998,0.024040,0.536274,0.655320,0.231360,0.005729,0.469151,0.834913,0.607687,0.589985,0.740112,0.497654,0.411177,0.791450,0.983426,0.888130,0.496752,0.221258,0.143777,0.804593,0.520631,0.704130,0.280000,0.562603,0.471981,0.528112,0.872698,0.195013,0.226940,0.908079,0.915519,0.579299,0.808531,0.393571,0.343948,0.752546,0.781775,0.843811,0.420469,0.974265,0.196782,0.863406,0.682490,0.302376,0.915736,0.642800,0.679701,0.373649,0.177935,0.894951,0.018478,0.932663,0.728689,0.206511,0.308822,0.779592,0.074456,0.826358,0.418439,0.444205,0.942827,0.660428,0.501480,0.919263,0.289535,0.508941,0.436578,0.469577,0.376498,0.115477,0.509041,0.282552,0.169082,0.157588,0.162101,0.841866,0.394345,0.422185,0.756983,0.328445,0.845339,0.117744,0.184318,0.413222,0.392978,0.887082,0.601323,0.975818,0.613061,0.922293,0.099478,0.924820,0.091377,0.736288,0.883689,0.411405,0.427276,0.217707,0.041660,0.712436,0.511440,0.457918,0.755139,0.445928,0.055986,0.376158,0.234689,0.995726,0.056529,0.032836,0.706645,0.128866,0.271734,0.878815,0.732971},
{0.455225,0.079967,0.748381,0.215786,0.910184,0.428336,0.157316,0.320319,0.409338,0.512198,0.588366,0.708398,0.750151,0.694167,0.643218,0.255542,0.479000,0.505297,0.364877,0.387817,0.475706,0.935013,0.237495,0.249721,0.810123,0.667207,0.012192,0.322538,0.228260,0.752865,0.004237,0.304370,0.754472,0.702557,0.761873,0.515189,0.759003,0.505866,0.408840,0.940986,0.238939,0.288976,0.300359,0.723310,0.920419,0.373671,0.220838,0.855024,0.042578,0.895455,0.964293,0.336728,0.360173,0.995066,0.141308,0.469918,0.135660,0.082116,0.598908,0.634299,0.026449,0.714151,0.316505,0.566174,0.997307,0.435285,0.746637,0.944634,0.306264,0.730702,0.129533,0.100941,0.898388,0.804443,0.682639,0.600860,0.298385,0.275416,0.757547,0.582538,0.783923,0.122289,0.824916,0.152854,0.420479,0.619841,0.200897,0.691856,0.675862,0.506947,0.455104,0.354301,0.507396,0.384339,0.058742,0.988473,0.969056,0.749606,0.657011,0.336074,0.127946,0.862464,0.234199,0.823102,0.772872,0.830992,0.554980,0.918542,0.420033,0.344743,0.054089,0.008348,0.028742,0.886401,0.477178,0.316220,0.163708,0.612531,0.895906,0.683413,0.460473,0.586679,0.814247,0.326959,0.302302,0.536380,0.395558,0.860012,0.591694,0.176303,0.441974,0.777927,0.707359,0.180739,0.684087,0.088002,0.519473,0.268093,0.642157,0.709338,0.409567,0.823416,0.139960,0.388231,0.286558,0.683739,0.213427,0.445430,0.675677,0.122832,0.161995,0.660844,0.136095,0.269496,0.895525,0.364785,0.156410,0.264598,0.126006,0.628933,0.090423,0.183311,0.622735,0.835178,0.306653,0.658864,0.785728,0.913812,0.609613,0.960755,0.612193,0.740215,0.240203,0.654766,0.152113,0.517021,0.678402,0.865570,0.916006,0.795418,0.812269,0.182046,0.805353,0.436554,0.520094,0.069787,0.302607,0.470357,0.462166,0.231206,0.662395,0.284536,0.747455,0.835672,0.154413,0.240606,0.810142,0.000085,0.768236,0.406584,0.337027,0.613901,0.486109,0.288136,0.896952,0.307902,0.655531,0.936628,0.928719,0.118857,0.296554,0.468970,0.512654,0.766620,0.598849,0.873412,0.723375,0.530088,0.995609,0.168419,0.953189,0.015388,0.770560,0.774447,0.008312,0.767847,0.002579,0.200359,0.303203,0.164837,0.493043,0.498037,0.801421,0.785809,0.428801,0.007720,0.289841,0.083099,0.897118,0.490998,0.043746,0.201505,0.939712,0.973013,0.409731,0.159009,0.368424,0.374156,0.193526,0.716150,0.167692,0.951915,0.053490,0.064084,0.126993,0.132739,0.888579,0.200786,0.009016,0.776429,0.942439,0.391924,0.778024,0.954402,0.529394,0.239604,0.792979,0.647764,0.026748,0.928210,0.331047,0.430429,0.918725,0.156518,0.125471,0.757503,0.642652,0.936254,0.443732,0.688117,0.118695,0.062730,0.657491,0.696355,0.574609,0.898837,0.032425,0.892044,0.686638,0.313268,0.639556,0.502897,0.339832,0.465378,0.320842,0.481047,0.420527,0.602728,0.025429,0.911959,0.290786,0.138755,0.475345,0.852606,0.111420,0.993839,0.860448,0.756602,0.380737,0.853221,0.787468,0.246255,0.596422,0.746086,0.703416,0.122485,0.526611,0.763378,0.780629,0.625124,0.940579,0.229206,0.100458,0.462176,0.225591,0.102828,0.584312,0.363838,0.607936,0.330197,0.657131,0.672181,0.077894,0.032113,0.756237,0.227716,0.889545,0.968221,0.879440,0.708642,0.047614,0.198943,0.933275,0.539141,0.810523,0.992561,0.895638,0.987839,0.757089,0.801847,0.215410,0.108857,0.375032,0.209746,0.078317,0.491806,0.571366,0.840198,0.259498,0.079371,0.598934,0.388358,0.086099,0.030840,0.936060,0.778984,0.468380,0.089915,0.404823,0.096175,0.584654,0.163239,0.588900,0.891046,0.552518,0.731305,0.172991,0.341051,0.106398,0.663304,0.955587,0.137886,0.917886,0.626026,0.266348,0.341122,0.002054,0.011696,0.647546,0.661628,0.050183,0.672457,0.712829,0.871742,0.224104,0.391876,0.108316,0.043104,0.325861,0.687426,0.466486,0.444671,0.971064,0.590729,0.356228,0.634760,0.035672,0.759006,0.976744,0.860522,0.979079,0.101453,0.259101,0.880052,0.250400,0.317789,0.212127,0.086415,0.244096,0.156023,0.655292,0.872473,0.525288,0.440411,0.359248,0.936539,0.315726,0.738022,0.617407,0.922937,0.300466,0.468480,0.882193,0.988905,0.542405,0.890949,0.284912,0.909533,0.914480,0.587261,0.568910,0.682174,0.231275,0.928959,0.267528,0.109306,0.142535,0.272155,0.723731,0.521475,0.071409,0.463376,0.615992,0.337308,0.663750,0.579954,0.101732,0.980084,0.350531,0.725107,0.340771,0.906864,0.540437,0.740280,0.704410,0.476119,0.053374,0.855223,0.022061,0.357803,0.266481,0.105625,0.393226,0.939219,0.576909,0.496003,0.726220,0.309605,0.038905,0.181238,0.368034,0.902428,0.425594,0.323026,0.117797,0.203873,0.469282,0.943698,0.727744,0.916664,0.476424,0.992211,0.510208,0.146139,0.134591,0.673133,0.965441,0.747092,0.619649,0.767244},
{0.658053,0.551562,0.187979,0.296808,0.281578,0.495918,0.589155,0.444410,0.474906,0.947758,0.678619,0.742282,0.107869,0.695372,0.017141,0.684191,0.615959,0.907197,0.811641,0.567254,0.919333,0.251522,0.732350,0.578711,0.270919,0.841895,0.029191,0.571808,0.357838,0.806187,0.492810,0.536877,0.927150,0.103794,0.999571,0.595667,0.918043,0.921010,0.418058,0.200784,0.680036,0.418310,0.665767,0.827004,0.310969,0.531677,0.310919,0.871498,0.418994,0.200844,0.288546,0.351842,0.611276,0.184181,0.218455,0.512269,0.547331,0.446513,0.799836,0.953656,0.469603,0.043103,0.804592,0.876802,0.300922,0.453802,0.871024,0.225266,0.415419,0.108719,0.590979,0.308942,0.209010,0.899214,0.067707,0.959648,0.406665,0.375892,0.829870,0.879680,0.206808,0.205592,0.153801,0.269261,0.730770,0.628327,0.611945,0.726853,0.788385,0.884034,0.655384,0.402954,0.713928,0.880302,0.068064,0.426456,0.293817,0.770129,0.014841,0.823801,0.601296,0.267259,0.523306,0.980761,0.271122,0.977653,0.856411,0.973257,0.832885,0.687788,0.151196,0.068025,0.523974,0.953646,0.621026,0.575944,0.187315,0.085724,0.196532,0.088853,0.882005,0.027115,0.301636,0.670582,0.442524,0.611885,0.681702,0.231514,0.692427,0.477104,0.752114,0.064560,0.108388,0.555047,0.843860,0.258027,0.548985,0.490017,0.730367,0.110219,0.831523,0.222111,0.467836,0.538988,0.338782,0.027390,0.346037,0.648227,0.011531,0.263487,0.192151,0.770453,0.327679,0.448611,0.169603,0.697369,0.611394,0.370577,0.364708,0.910594,0.197139,0.364577,0.732722,0.970462,0.316994,0.072490,0.018489,0.061600,0.042531,0.042124,0.632121,0.842862,0.685714,0.835012,0.404959,0.568147,0.790333,0.104050,0.222796,0.196431,0.120275,0.457400,0.958947,0.537154,0.838261,0.271123,0.756870,0.477165,0.625975,0.709342,0.806743,0.476370,0.899730,0.104167,0.306832,0.639532,0.088187,0.128113,0.904924,0.507116,0.411623,0.995729,0.802248,0.508999,0.290632,0.713522,0.771114,0.265364,0.413915,0.357169,0.471262,0.629659,0.904696,0.147741,0.924396,0.348667,0.110431,0.694352,0.160959,0.584291,0.399835,0.365847,0.227062,0.841882,0.350164,0.130917,0.092353,0.406939,0.713375,0.585630,0.678936,0.802821,0.820506,0.243635,0.906170,0.428904,0.641224,0.117921,0.210803,0.554729,0.096298,0.558565,0.162572,0.229089,0.651344,0.460036,0.463095,0.777302,0.443677,0.724354,0.458565,0.985047,0.466396,0.533349,0.298385,0.185995,0.158069,0.620151,0.203814,0.174955,0.037054,0.852719,0.023587,0.247030,0.685208,0.245352,0.817773,0.006480,0.188090,0.270050,0.577729,0.882310,0.168735,0.378238,0.515741,0.994265,0.967962,0.048054,0.598882,0.752816,0.128891,0.166629,0.902532,0.726653,0.831347,0.297708,0.482643,0.966783,0.877701,0.406139,0.651495,0.921146,0.624596,0.799276,0.687792,0.913154,0.503190,0.896580,0.071161,0.049132,0.372497,0.456986,0.831101,0.871751,0.495536,0.070349,0.021704,0.793937,0.572580,0.985856,0.172615,0.328538,0.036474,0.803347,0.162663,0.382813,0.711287,0.873470,0.085700,0.947703,0.369537,0.548384,0.578175,0.543133,0.333789,0.429731,0.764324,0.407350,0.719884,0.670294,0.023340,0.965245,0.225108,0.316811,0.014528,0.601312,0.006482,0.005821,0.208699,0.149236,0.198171,0.245730,0.392691,0.617020,0.904927,0.180749,0.058925,0.409909,0.045301,0.877272,0.294694,0.396249,0.583618,0.411113,0.181879,0.977374,0.609643,0.035555,0.539014,0.456022,0.809574,0.489663,0.286867,0.491479,0.203980,0.116796,0.713897,0.416914,0.634037,0.327607,0.006672,0.407987,0.980996,0.187672,0.948941,0.790931,0.291913,0.523832,0.397293,0.715613,0.029392,0.309920,0.043752,0.797669,0.528476,0.788722,0.178633,0.472087,0.812741,0.054275,0.123817,0.966846,0.738374,0.153095,0.456845,0.518555,0.386978,0.384208,0.733861,0.178603,0.885935,0.921258,0.450690,0.722681,0.673350,0.102154,0.052656,0.862952,0.455682,0.973709,0.156546,0.174499,0.260213,0.177915,0.706033,0.547907,0.384722,0.474936,0.361979,0.617647,0.829847,0.230345,0.559533,0.893224,0.380194,0.141300,0.593726,0.978763,0.758809,0.247903,0.631714,0.787780,0.208752,0.262317,0.636291,0.002386,0.737085,0.294047,0.344499,0.641598,0.805961,0.748011,0.555050,0.080118,0.705917,0.324879,0.349041,0.632671,0.798716,0.931858,0.443806,0.874538,0.693772,0.590838,0.063412,0.778477,0.525573,0.330186,0.585378,0.816047,0.631065,0.959695,0.716192,0.842090,0.184413,0.895659,0.148406,0.327512,0.286159,0.772856,0.550395,0.459390,0.467594,0.951874,0.751457,0.648331,0.207181,0.525039,0.463172,0.545387,0.760511,0.014017,0.821159,0.423283,0.606584,0.431038,0.749859,0.132122,0.837798,0.198380,0.697724,0.408195,0.650110,0.627824,0.409741,0.156608,0.376994,0.083867,0.686850,0.899871},
{0.556365,0.464570,0.988374,0.578140,0.951955,0.577156,0.849277,0.242430,0.334194,0.057300,0.446225,0.873265,0.942439,0.953111,0.411449,0.113237,0.187278,0.294615,0.818375,0.780273,0.951770,0.013072,0.323974,0.512235,0.362725,0.363430,0.275777,0.123226,0.652680,0.994410,0.086023,0.777441,0.479927,0.669029,0.682351,0.394146,0.886341,0.029105,0.737987,0.879878,0.280079,0.913448,0.227181,0.894477,0.486361,0.420041,0.065549,0.557863,0.062585,0.260766,0.809889,0.726972,0.726049,0.190116,0.906481,0.514734,0.036951,0.933179,0.751360,0.438607,0.578829,0.582993,0.547446,0.953132,0.197733,0.810112,0.685195,0.663330,0.581476,0.852351,0.750613,0.850654,0.766051,0.092521,0.443414,0.175103,0.702127,0.296415,0.129511,0.401560,0.335992,0.658406,0.028530,0.382178,0.243521,0.269750,0.220765,0.144021,0.503041,0.461049,0.589106,0.528974,0.543907,0.401842,0.848025,0.546879,0.153792,0.871680,0.783100,0.319127,0.881548,0.054978,0.240050,0.668867,0.773522,0.615138,0.460975,0.112203,0.255110,0.843256,0.495164,0.820179,0.658619,0.311778,0.569426,0.998841,0.659705,0.987240,0.670992,0.938948,0.145920,0.240706,0.321197,0.603820,0.845679,0.352306,0.189999,0.881878,0.406841,0.915780,0.600408,0.977865,0.949506,0.677976,0.999998,0.275047,0.287840,0.949228,0.070744,0.802020,0.391978,0.907116,0.677658,0.574524,0.706702,0.752933,0.260338,0.999984,0.553907,0.308594,0.292198,0.149311,0.962380,0.463041,0.405696,0.337848,0.414911,0.022559,0.176959,0.469133,0.110039,0.154065,0.699369,0.870109,0.314921,0.541116,0.718871,0.287507,0.980954,0.559291,0.105017,0.871972,0.709174,0.371855,0.609523,0.497115,0.474982,0.186873,0.390046,0.673785,0.251868,0.320715,0.410845,0.830038,0.579706,0.165204,0.861112,0.298581,0.975676,0.549081,0.025104,0.950148,0.981877,0.074374,0.771066,0.835633,0.224579,0.528940,0.795009,0.390040,0.455583,0.944649,0.676607,0.924170,0.722930,0.003352,0.917310,0.199162,0.506158,0.131757,0.605962,0.774411,0.394792,0.738743,0.535345,0.700964,0.881903,0.201232,0.942461,0.399838,0.186060,0.230631,0.853556,0.427495,0.055923,0.985979,0.761894,0.672840,0.624820,0.570923,0.864983,0.487831,0.471306,0.983926,0.965564,0.608061,0.423419,0.744052,0.829526,0.085885,0.716205,0.617752,0.076796,0.093574,0.476120,0.672465,0.395681,0.329645,0.935817,0.080442,0.961491,0.840832,0.246548,0.697949,0.720137,0.246161,0.101111,0.010964,0.757919,0.140282,0.349373,0.369731,0.144995,0.948966,0.180601,0.147219,0.242224,0.615737,0.126176,0.622113,0.698421,0.869097,0.256896,0.503387,0.364886,0.185977,0.081276,0.700407,0.828774,0.725358,0.888289,0.175982,0.763644,0.147136,0.063501,0.315750,0.420633,0.823039,0.210119,0.003502,0.162781,0.247427,0.340346,0.857208,0.730889,0.254988,0.546633,0.390497,0.791511,0.485924,0.283397,0.607676,0.497457,0.485160,0.346415,0.571326,0.988003,0.896707,0.909368,0.032770,0.898584,0.240087,0.855993,0.808528,0.548880,0.904694,0.609347,0.941593,0.585342,0.468322,0.028794,0.890791,0.620120,0.285701,0.985859,0.533735,0.291378,0.329344,0.019415,0.110826,0.656740,0.445437,0.555885,0.286938,0.230966,0.096156,0.979198,0.641853,0.311523,0.637631,0.244436,0.140502,0.248634,0.413755,0.275295,0.715571,0.306643,0.928175,0.879426,0.476133,0.064039,0.265420,0.623167,0.790017,0.486200,0.255699,0.367829,0.072442,0.752906,0.146597,0.211205,0.382453,0.106569,0.766809,0.994993,0.488874,0.673493,0.093841,0.081955,0.484671,0.939592,0.234405,0.839118,0.371347,0.936747,0.878662,0.762438,0.497614,0.241631,0.346110,0.667393,0.238548,0.964985,0.548044,0.706433,0.156751,0.450895,0.747294,0.505023,0.147009,0.763300,0.526743,0.966622,0.775326,0.075134,0.850813,0.546348,0.716117,0.606450,0.764861,0.565164,0.232192,0.887247,0.738029,0.753110,0.013010,0.222637,0.300216,0.481673,0.023479,0.280923,0.381830,0.508857,0.722632,0.008241,0.216166,0.949090,0.440561,0.690099,0.876038,0.699696,0.368696,0.960746,0.771743,0.966088,0.843554,0.915028,0.168329,0.933063,0.948936,0.685973,0.721296,0.768305,0.286345,0.346782,0.783534,0.679570,0.975080,0.999663,0.455780,0.081140,0.835590,0.588488,0.927249,0.470078,0.490836,0.897980,0.281317,0.012735,0.092694,0.594129,0.425354,0.373070,0.292350,0.961893,0.676502,0.948787,0.588270,0.339951,0.271071,0.257900,0.895763,0.839618,0.695309,0.971764,0.385455,0.049776,0.092051,0.265841,0.632942,0.580560,0.651059,0.897529,0.642173,0.360060,0.277537,0.414824,0.698736,0.645108,0.023722,0.163647,0.805548,0.507287,0.388646,0.829317,0.459725,0.335222,0.808159,0.038340,0.849234,0.530963,0.011742,0.727507,0.422920,0.214055,0.718802,0.087040,0.254013,0.880395,0.127240}};
static const double GD[5][500] = {{0.27317102298410,0.72558664793123,0.60129646513886,0.08065075620188,0.58338861836683,0.06074965717798,0.15513102913894,0.64048078966323,0.79992648928916,0.72067078817554,0.93926165260614,0.20094239837379,0.74209313823605,0.11018857642846,0.55701095765544,0.95986252983318,0.27131784017567,0.68925978793567,0.81883947161535,0.86345474049827,0.93937518678452,0.95014163558368,0.73682150894823,0.29613538582785,0.96673880222685,0.79795699070037,0.66521577292453,0.26349461145245,0.16018121187961,0.66075073880821,0.86331792975706,0.51381401843926,0.12463123103283,0.80473413437126,0.43961455783915,0.24579409150244,0.49722838734525,0.55962362468499,0.65700178580975,0.86822098997985,0.42457047628970,0.88307505325149,0.96694369461309,0.98165143585061,0.09704643121898,0.53473755697856,0.43761567594384,0.26982107357454,0.28483534708209,0.29583478126231,0.81703293044304,0.29587728058781,0.78334465179263,0.33627935467734,0.77189976550041,0.22874037252867,0.71016804885287,0.04487569334020,0.64611799315960,0.83760080650360,0.66425183872496,0.41590136963902,0.82542084946122,0.96997548889355,0.58571997357783,0.93271906868244,0.67535354795737,0.51717618842295,0.55834766301398,0.66214085650897,0.71839559810532,0.27918921741599,0.68896290883976,0.51606648764358,0.22880596103434,0.78812318189401,0.67321309266530,0.82899856944231,0.12385453033195,0.30792807387206,0.13275613628357,0.29751064339843,0.29521539670095,0.26369327290946,0.21063487534261,0.46118109379888,0.32625563983687,0.60149954128607,0.43223588074313,0.97262364636138,0.34347354045632,0.13201557885003,0.80728710763711,0.29505548669748,0.60652657995083,0.42341045518008,0.09462719669212,0.12568051703375,0.58051018789434,0.34869067196772,0.70709814250220,0.06510239506263,0.88330149531547,0.28817159502017,0.33600731093415,0.67945872224123,0.55733806801693,0.56236263282570,0.75075920132283,0.16472227097001,0.55003237328651,0.28322828513921,0.41457709460854,0.68015162936350,0.84347877639082,0.91152763896255,0.95201916155873,0.09272226524625,0.03887343750107,0.93319725910536,0.29495920243766,0.79667858101065,0.17473143003486,0.70405254032576,0.27721677876006,0.50345447839951,0.47464559575525,0.94256790417296,0.39128568777510,0.05216184787450,0.36543826811523,0.06306479558539,0.97567302874103,0.37858212331745,0.29426835829534,0.16057388585162,0.23474245407743,0.29599591899407,0.31157298140923,0.12700348306792,0.96924482333323,0.11520133281402,0.38864459297183,0.59055297291519,0.86428312716344,0.70243000548246,0.40932454193933,0.17728384003353,0.42422050358960,0.32506393318502,0.44479651679934,0.86667797159387,0.64294038647865,0.06501382685220,0.64988939215455,0.05463557274075,0.71150018690952,0.13387236283876,0.58087367775102,0.70467089522560,0.10515683255142,0.44055064196522,0.91837270412470,0.13828330569201,0.06107723373269,0.20566671607941,0.53179938770388,0.76013220637013,0.58367634486885,0.14464107908882,0.99681618402364,0.99937552904325,0.88395776758844,0.86442774321636,0.59459098993479,0.53998993649402,0.73108235602164,0.28249982430139,0.62080549477521,0.01791989302620,0.50227409986366,0.43044780995838,0.62026374049308,0.73258581068792,0.36376558358279,0.18179189555253,0.98660686572985,0.06189916028294,0.44639566832559,0.79934362725983,0.63017754739632,0.53087023169450,0.25632559178119,0.26160108158814,0.77921154953738,0.52368048073577,0.29074273578056,0.35381401009629,0.65036737871986,0.13871300537018,0.60440520237544,0.19704518314255,0.58239259827003,0.38027907900611,0.55476282950187,0.36469227272584,0.58931866711983,0.41299301212738,0.02428761991681,0.76262914577616,0.74535171092699,0.19910347321988,0.42866569599016,0.18301955832541,0.13531363605901,0.50805648223186,0.13218548827218,0.29580026207336,0.79801695045903,0.47910663727196,0.63570575002681,0.28699392163885,0.56466001688992,0.07057792403657,0.76788774931071,0.60908320534402,0.41299680937518,0.68248938409697,0.67759987638680,0.97948067006356,0.52246356517782,0.24712798323000,0.42631814096090,0.51124328419935,0.05006550888894,0.67500575813452,0.85877666017627,0.46865596084447,0.38875369369370,0.79031180902164,0.51515779204728,0.44166730147550,0.71059840004315,0.79322009278814,0.81685868295062,0.08270920277150,0.55047460551330,0.55404480746730,0.58012236952670,0.58815416000171,0.38891097440774,0.19677981723587,0.02171030928895,0.72618473696994,0.68091768291418,0.18795285154654,0.46445196958750,0.44007750549464,0.41651380439960,0.66044504340177,0.50603913291062,0.80622576917487,0.08949571339646,0.28729106017023,0.54921668063157,0.98139992129427,0.52667047241936,0.32930476306372,0.51755974027733,0.14084278460711,0.59753430360264,0.32906604112749,0.33588338900610,0.99433900261497,0.25375382631079,0.26950565675376,0.75408044031365,0.40679304005338,0.16951725063857,0.65634463944760,0.34027177378522,0.95959699622679,0.70452235086474,0.86677184090987,0.12373279981896,0.54817664467004,0.28943720945791,0.17503839307615,0.40190447792825,0.18426925519365,0.23530451501494,0.38286693656610,0.59617026863235,0.17364041143691,0.30423985937133,0.87767795918621,0.37390571738913,0.67239386124693,0.97461210649797,0.95323455891695,0.26651776058104,0.32146187130043,0.00155586966032,0.61250053969802,0.68851800209200,0.61202463610799,0.32411403574425,0.76391973727165,0.73396360263641,0.57083680951661,0.78214777466315,0.83068819623571,0.31617279005548,0.09018792970362,0.33922678676485,0.65131946580658,0.30923077229695,0.10200607579674,0.52863359641164,0.68555447661065,0.49009801945333,0.49097815215078,0.56390744544316,0.44415483824883,0.14929954836022,0.39787312031684,0.19031217008914,0.09017257411024,0.85697818909952,0.57017465688392,0.71990351410848,0.04209913117893,0.94254244305420,0.10064085665641,0.79833119800494,0.37254601594719,0.17258492587545,0.42502005788528,0.71757917444448,0.95328385575839,0.93084846053484,0.37149516219801,0.27952875802967,0.58729308253893,0.05012545413651,0.35291530646126,0.01760707998184,0.34174614243465,0.25152445106375,0.18730581439295,0.17080811000152,0.56119223577538,0.61338980406099,0.15113405629357,0.05879698141637,0.72550667421340,0.88854599763898,0.90004082993089,0.41891287524431,0.07509260001911,0.92566049500963,0.14324420400302,0.31973838776494,0.25801612425823,0.70950295543298,0.07019515544850,0.54683704116835,0.72255854364687,0.19011408431915,0.37953744512666,0.70917055064499,0.38019874927546,0.79613387405478,0.73422898577886,0.61879288947156,0.89141665763472,0.63130802428205,0.42797605789261,0.27638747365619,0.88118652440115,0.39680430781264,0.58771354704255,0.99964722759921,0.20964729593823,0.20888776870931,0.53521841841453,0.81305348602004,0.97553074460423,0.58838456943935,0.71062333379075,0.12102116775945,0.99969619618738,0.72495999801104,0.72334853981681,0.17080073364384,0.64939702965870,0.93334779314506,0.34319060851917,0.54723109866630,0.99863894693428,0.28709431164033,0.89922599900911,0.10784113900898,0.80243035204521,0.47618689715900,0.12915342822023,0.44543238399365,0.09436719565681,0.42721896833041,0.77150401047055,0.87109813618572,0.76457051919331,0.61052175750686,0.21049154863914,0.58261469691610,0.15552771865240,0.21302725422349,0.57192189570596,0.33132616769165,0.47986920852239,0.29332917974240,0.79654892387653,0.14710233034404,0.07162961741994,0.10011318309292,0.76681852374507,0.95862226324132,0.19456036418199,0.67475488741889,0.13702386370547,0.72527863831315,0.23100631225585,0.81999525827556,0.53684217708428,0.43272367153386,0.84403251215144,0.06385208259181,0.58178484390887,0.46819229204634,0.54712296398780,0.73196356504527,0.13987752311428,0.69521667836382,0.53344543872510,0.84496343169197,0.78413807614584,0.87295358938402,0.06555891223635,0.06720950824858,0.97777560236604,0.34528838271072,0.83106638435149,0.42383354011967,0.57716377617295,0.87643589167481,0.11499235101814,0.59596497684148,0.14554268478526,0.90199039190191,0.90870243638686,0.83278916089014,0.58407509048039,0.11647290383703,0.70258191094522,0.38069260262574,0.35922653858571,0.77057532365239,0.20207889673117,0.08822282776808,0.64019083701570,0.40661911764037,0.14855007480500,0.66835952591469,0.24488940283634,0.03227247248010,0.31104661964506,0.48517254225549,0.99626521801453,0.04193524195826,0.11011822978945,0.44673383095037,0.51249903675823,0.07132373546889,0.57115626694323,0.67592505967913,0.95163855405298,0.77438734524691,0.36020773811947,0.68932110580271,0.89262808878402,0.65969901390808,0.79086673670325,0.69810147985579,0.02750507481073,0.29431340583717,0.60325173243381,0.24584008201255,0.25199440476582,0.63622234534418,0.53808735476153},
{0.24439589714294,0.02460828192258,0.47251767648351,0.36815388833876,0.09308219838651,0.22284275471320,0.85536976547220,0.34625905696713,0.64082497994713,0.22750141684434,0.02315561673536,0.41841392396106,0.14252785684421,0.78816422657355,0.49589046230880,0.22678216479177,0.96631945030455,0.12902456323107,0.86686771845178,0.88429089697886,0.91948051212101,0.28854740281495,0.41339807612692,0.73680480678233,0.32704805752087,0.06220489033666,0.15376963017926,0.20106265208404,0.09225896114891,0.40381456412025,0.42912267552565,0.01059168901982,0.00581819415905,0.63950631123324,0.73286514119486,0.65420433335206,0.39011063895309,0.52586107048266,0.67719722949445,0.07689483803073,0.37722489930667,0.42994578744719,0.01513386542226,0.22845288338175,0.97895241497947,0.06658860233467,0.38160322818828,0.51648167338262,0.25632017892084,0.34319415355358,0.99887611986697,0.45146134803813,0.11989012935156,0.43371464526829,0.14548641326100,0.39387019545307,0.26481753582891,0.93321639336983,0.61530449952355,0.53712721531383,0.78193410538451,0.48808736873719,0.11151571345993,0.62333598563756,0.79396378946299,0.01271723688907,0.21155133820827,0.00770245432492,0.89107006218471,0.30297098663145,0.90176316868470,0.00640415376198,0.91957745290659,0.55461888459388,0.17869093227009,0.00406635795645,0.18983703866293,0.95885262511542,0.82663731321372,0.91143780496533,0.18237012233132,0.84800860329099,0.45405509163323,0.68006573017371,0.25480612778914,0.92665766061951,0.46470717630111,0.95558303581827,0.48553452140186,0.27345487510769,0.88005027012438,0.41960039651451,0.07384600741717,0.31784642837625,0.35880874584750,0.09522890694310,0.48170003072735,0.86630171879036,0.18586421453774,0.11415545377830,0.72080344150736,0.91170113939158,0.24863042834757,0.23328927690089,0.72272371993728,0.04651173994602,0.67387975939094,0.39375511242764,0.08221911307517,0.40819778124166,0.96602872581763,0.81001181961132,0.52840208745997,0.50983940436722,0.53929308182502,0.51583642271780,0.28894133769414,0.79919371558615,0.85663003790628,0.85866798507077,0.99405590058188,0.29757696608118,0.12936341860158,0.58431461306987,0.48499239388106,0.10124762278828,0.35982918489133,0.67837610063448,0.80205771586580,0.49082641926358,0.35790093465022,0.89513520670326,0.82678439419162,0.95022438153255,0.17909993476606,0.60345824762827,0.52873884750596,0.81021178065782,0.93102912011941,0.48488152004308,0.14777380835467,0.72092340883064,0.30558750511795,0.33212998555543,0.94572973869842,0.64315694664017,0.01193778038385,0.39552958391798,0.54688593727313,0.90430492330607,0.02025769800300,0.91697043366451,0.40365487860458,0.66831530657162,0.45527237096159,0.76121596606425,0.26353282421975,0.45047453214830,0.89343201351885,0.81551865714353,0.75622059498622,0.30044823157695,0.77598511679384,0.57190741095159,0.58779027705582,0.66742247962695,0.72534277527969,0.35149074270634,0.43410124008989,0.63901049539163,0.58290304284080,0.87413465044637,0.22129186280092,0.05359983255660,0.32739698849615,0.54551038583658,0.21064647485909,0.46991162141731,0.30394773044646,0.23047617632787,0.45263992338197,0.13674981560301,0.03114233886335,0.53889424945514,0.91529954405212,0.14238308762634,0.65787130142557,0.47725120317319,0.74062584888942,0.99199844682120,0.83048342796013,0.75493179127644,0.84573362234383,0.82159225845609,0.48655281932594,0.19390448762639,0.80929403216912,0.61904456131610,0.11250102836262,0.51924769461936,0.90608049898941,0.70260485033361,0.25232898481918,0.82783910756763,0.15087611607755,0.77137524841642,0.01328182917540,0.09423347493841,0.55624305612830,0.26250867497131,0.72651268967287,0.10497674219775,0.90586433222892,0.14976866525226,0.54747083018312,0.97218327184071,0.49615018330633,0.52497234207425,0.14818268125752,0.19909843155404,0.44398491756193,0.09793212712726,0.80381323032594,0.81766727385441,0.62892995829432,0.61522354059965,0.41650727704127,0.13204223147276,0.60557478255468,0.06995931257567,0.67375734370179,0.65182466071427,0.24834411178114,0.59339245520937,0.69529475602551,0.03210761751410,0.47985679241545,0.17737635849523,0.78624476379866,0.72965638542987,0.57844398101938,0.67037681205570,0.15514274157454,0.18953992886518,0.79485121007779,0.06788255824629,0.55911868415992,0.07604655590221,0.75727534500186,0.43284598554152,0.45648857759242,0.31574158073659,0.47315303732798,0.23847731310788,0.54613597118594,0.81713961335432,0.10157672124697,0.63271253519494,0.98604238750006,0.03688021126837,0.66854717789276,0.64250092498132,0.55837327227501,0.27084894234132,0.01578289177104,0.43136047929954,0.79951419296581,0.43283736646078,0.64042553381587,0.11320275573207,0.36987213000679,0.24367098460586,0.21626261332582,0.73013054942046,0.69522615684253,0.36896476414561,0.14621233395108,0.69578621606034,0.17967276057131,0.12062736654427,0.03058665447929,0.36602360746718,0.84613070226434,0.46088861551369,0.63649618090018,0.45546598429111,0.39594084214678,0.13105598754926,0.40173948961777,0.50529434443350,0.95193494735617,0.76162592021413,0.42330949022384,0.71090879297428,0.73269634642914,0.62512045399466,0.87855516744759,0.52756831745546,0.93846158250924,0.66555008854101,0.15898818325361,0.93051505868545,0.06570813401674,0.30430568112788,0.30627505907441,0.05932631932765,0.82805600467555,0.08526668172303,0.41128668233306,0.72333456791806,0.98142272185296,0.11381592263574,0.14499237823827,0.58806101211877,0.53277921063458,0.67523349883186,0.84991544481626,0.45699536945734,0.47135031843020,0.92568992514926,0.33886555378254,0.26712169402682,0.98130563868524,0.74998267632478,0.57041045965177,0.04186096112702,0.77413590995817,0.21859634245299,0.43534972193487,0.10622400611475,0.18087483571626,0.57507590373718,0.37323631788009,0.33371679629904,0.94859786819961,0.69367098166460,0.21131279347830,0.73381232306704,0.53732551410815,0.89544729654060,0.38926665587290,0.42662307305714,0.37332123817671,0.15540589115033,0.40176973839061,0.31492350960792,0.00917025041978,0.90856190468196,0.29727795764212,0.83315670640492,0.01194755145121,0.03249873744183,0.24708591803008,0.01191166172188,0.45584876531274,0.38884127281952,0.51483489004686,0.18110132140889,0.95810769818134,0.61571935592018,0.47586748244572,0.58535438931699,0.85572741166673,0.32508090577125,0.16093753222647,0.59373004266724,0.47999907865880,0.44824879753255,0.02337403789019,0.34867213447174,0.91609218533882,0.24410793019124,0.28704304808785,0.36516179299495,0.52191294252875,0.31859463130722,0.24915597711345,0.71245295690602,0.97531226052005,0.36170068098977,0.85256653817500,0.89285775171573,0.38857251139614,0.97708469993264,0.66273605251527,0.98318615581681,0.00653073914220,0.82581537851266,0.18170799474903,0.08616056045166,0.13794716802132,0.02408996316591,0.19252195973485,0.91606903471927,0.97266899128804,0.59743849999547,0.18044447140683,0.63286480180086,0.03926268280815,0.40152550133668,0.84075388675544,0.76276205343381,0.75421065105810,0.95090688630828,0.41576876606631,0.57514321379413,0.31523213578773,0.55882718871174,0.15615817110233,0.20242854885981,0.37416101984710,0.16831106250664,0.26374810364656,0.62173904052089,0.28108687980085,0.66049998398610,0.32609539521221,0.59810614367651,0.27875731648323,0.75162068820422,0.71871849227095,0.50517085681524,0.91779157808227,0.15448222266626,0.84135843755195,0.48041789961189,0.99793490118325,0.38144449128294,0.12292261432124,0.48078214239269,0.87288203695004,0.62896873361105,0.61939318456515,0.02684220941992,0.60623428777672,0.91286047595608,0.02414130117096,0.75880381832824,0.86966924180287,0.14998403949589,0.18558179602439,0.57722135920704,0.03276344615237,0.91652563370008,0.59836082792607,0.26118389626630,0.52410769212877,0.19289533846605,0.00734560386732,0.90489963024831,0.42800958437972,0.64729782307055,0.58526045200112,0.60177432825325,0.61843081872799,0.85820340174438,0.35219191209484,0.04784274693395,0.48572428745920,0.85287592191827,0.47629680685891,0.60155108258318,0.96171095385352,0.29534795945940,0.09844615280937,0.99530141498692,0.83978557715376,0.52148779302067,0.76840394974191,0.96987940854738,0.07980601247211,0.14791258445910,0.76627804097143,0.42304263159206,0.40887014485512,0.51042904164445,0.45082004972348,0.00842219047832,0.12070973034911,0.37951252137630,0.65674755795251,0.97388338657751,0.84594869693792,0.99627898105499,0.52829388990703,0.32612522897868,0.53612699216009,0.04179734571106,0.38796378146259,0.29022231128897,0.06504703955463,0.84289365948820,0.30091654510132,0.59179922472601,0.30615047033245,0.40439877519579,0.30006676693014,0.12147576929751,0.16439521732469,0.29479923960034},
{0.51639715233223,0.33699065321308,0.43392602941900,0.32096011320687,0.46396839345782,0.31566170110145,0.49724715934811,0.19116371294466,0.45600471940316,0.48288453879856,0.83757781270027,0.92255764854898,0.36727068727486,0.41435617917820,0.75482434353368,0.69455872541182,0.31088618214403,0.60790382673709,0.66038559322611,0.91944710015140,0.69755463928331,0.69584813113680,0.68456388516342,0.24958010224228,0.33135708379510,0.31767939210415,0.33337808503113,0.03185271947429,0.60442439382403,0.35656402689548,0.31839961693189,0.33536895532058,0.31058970653830,0.95730768207093,0.45453963767842,0.05912788928229,0.92272238465612,0.88884332342846,0.39046765755376,0.18088251652761,0.30929116430757,0.34500555611471,0.93215446668147,0.31707722107987,0.62347433758718,0.52784560408508,0.13894328571018,0.31245032581952,0.21011856822052,0.60284284852669,0.94391374292399,0.68670838063394,0.37088625971873,0.88044428394530,0.77352953207679,0.24431270685738,0.55385391723896,0.69151729865882,0.56011288675814,0.60149798313611,0.28468808104180,0.09852683431566,0.85802221473891,0.53071179377820,0.38133752468831,0.86450535304636,0.54201002558535,0.31624793005778,0.29315360049484,0.80894422419694,0.80424198504538,0.95815405717571,0.00412879618276,0.52950009124523,0.62971223076299,0.58915832569626,0.06659656708073,0.34229424964496,0.84260769354745,0.65648150147962,0.90570483392899,0.68241949108231,0.75839161918790,0.72105605713323,0.31152551422512,0.14707112242257,0.21271128204184,0.61689246089539,0.83376643268622,0.73551584992929,0.14230817419039,0.23446453491568,0.67001824798596,0.18193720997742,0.22687592956768,0.66221054185400,0.85198629895928,0.33819293122706,0.76951641548345,0.70389010505870,0.88781402148678,0.59200084610010,0.50559401792497,0.68570742523428,0.63631248116287,0.63123991820476,0.25100675365664,0.70105923154594,0.03303623228546,0.62197894589382,0.19990654506747,0.41323997391907,0.69953072713561,0.76314023170438,0.62626414463714,0.40818253170270,0.74650024829886,0.99325563394374,0.01223203050489,0.94973975674215,0.61566043786959,0.68272450213743,0.16471287596627,0.78092678772431,0.47348446212354,0.31707269858485,0.43686107230754,0.15172140853713,0.25692068277157,0.96289736651156,0.80004005071341,0.11126366309508,0.53488312261583,0.41141747945455,0.06710709587161,0.29451025152191,0.49288397105375,0.20241027357230,0.12849638617482,0.75706837321647,0.06390759466366,0.93305543535479,0.37744826445353,0.97328670310489,0.47675769358091,0.36773120055525,0.38214283173806,0.99568718961239,0.90777962018899,0.73084337386041,0.06898800354828,0.97203993059259,0.02238588604596,0.95452728473641,0.19233847073660,0.87456843468208,0.21259253130684,0.86239399587025,0.55872934714766,0.97900306917338,0.26647971282236,0.19054911655124,0.07262916083048,0.76118643096167,0.38161130472560,0.75634045392775,0.44835278420113,0.64902152465943,0.48861429511878,0.46845318692441,0.50193906123062,0.06982543082013,0.07000241814677,0.36680207291290,0.08145912739280,0.70290120925069,0.78931563975456,0.99961018176098,0.54706698649171,0.85186443879108,0.51082271660240,0.01641885964931,0.69571302157326,0.92318912325018,0.87641586735165,0.17550601719448,0.83343652793698,0.63051246241319,0.09965143009706,0.44642615185441,0.20207315252469,0.64830095817124,0.88563206111720,0.54960534981566,0.29421992610107,0.26532534535557,0.99510008309104,0.18366353820853,0.72622032362031,0.81620316074499,0.12029619853755,0.56191551011715,0.97048931069014,0.25384304932661,0.24301574951435,0.78656942540521,0.66799187254601,0.29865631042141,0.16989609583657,0.32248522193126,0.99672041701566,0.11696300314042,0.02566885112922,0.71532833389258,0.15227215551128,0.49028621627035,0.48731336533617,0.73371600661002,0.20907022696526,0.77231871643086,0.86635785790473,0.11881976439845,0.42399500396908,0.78507466769174,0.11914030401132,0.06754484274573,0.40204487438383,0.08791089369513,0.31992068112246,0.62383147877276,0.67763034921861,0.57588645574630,0.28191761142405,0.47741056875659,0.69440302405759,0.85870325720240,0.40022257643967,0.36304606145372,0.38389802256232,0.47740864068229,0.11204605946660,0.75820087881217,0.82447492387573,0.32359951415447,0.67262978708770,0.81679604599209,0.98569570085687,0.52318494256921,0.22564285631146,0.43284486824748,0.36760230349442,0.53987854742058,0.56671921752135,0.09940167232468,0.75651292601793,0.10324778581814,0.95043558277226,0.65999232245978,0.35208983100065,0.00583897702362,0.26593986465095,0.80900704639686,0.34292114774035,0.78567548848096,0.60702931979109,0.73117579669777,0.94863724147357,0.57686358191503,0.63240974552581,0.36459925956844,0.60977210555728,0.57362725103824,0.94395498860299,0.48997658028674,0.92806153652270,0.42922038277836,0.22601131398754,0.41352364002005,0.84776908231492,0.89370620811846,0.16438601665329,0.75049854858426,0.52910155915130,0.93999700473025,0.52255299011620,0.58367309488360,0.62381234786253,0.49019544520147,0.21091621767589,0.80125344397732,0.15449022970317,0.70678464568133,0.78858903974456,0.87556539657113,0.99800040968046,0.06415547955625,0.20286219734776,0.86398215191183,0.91481196100705,0.95846879736119,0.18248471015683,0.74659780004783,0.99463065547187,0.31031853290964,0.49051959923345,0.60720500143802,0.35160014768985,0.94471687093974,0.73565879431126,0.43006067360828,0.19629898935552,0.40369659884771,0.20466299069136,0.55963206795815,0.76634975829190,0.48641398087574,0.57091767027277,0.82786160184473,0.87650972489838,0.33852079067818,0.52087602514708,0.72756502842522,0.51718728034009,0.59566309592965,0.28767982450451,0.05127798746550,0.13816012024648,0.48176004913930,0.71399154451653,0.45642454956133,0.75718062772142,0.83802517577698,0.41479986548796,0.03577244370412,0.26564355723053,0.07914164139080,0.96026331119892,0.25200180488973,0.79264788510654,0.45950921968642,0.17748848481245,0.83013273027850,0.89848073046902,0.55970498437525,0.11330285932512,0.88791593740538,0.32581042310344,0.53597664837055,0.64294761213887,0.87628173598820,0.50114779584579,0.01050751185581,0.96276027495718,0.73588862619135,0.27459417633094,0.18348425321073,0.98973649279048,0.57094673659997,0.12625692073013,0.54923725392868,0.60158826855681,0.23089598562343,0.06243565949521,0.32525505418907,0.54284841539920,0.33281813794073,0.26478999011628,0.50964453303693,0.91067937289239,0.12672152713902,0.93685624738346,0.85462662836393,0.82053362403044,0.45401202511598,0.24209648141469,0.32013506768835,0.78554913700175,0.38260264177901,0.26360072576378,0.66263646768816,0.44868132526475,0.80840754727480,0.76919707260898,0.45297152416295,0.50193941198970,0.82759890649034,0.46845221255162,0.11135820522635,0.69268287532428,0.57264753487206,0.08276495933108,0.76924022119872,0.34753882618159,0.09482146190094,0.63235505207788,0.23491046296535,0.46560490373649,0.95859042820916,0.40786591028076,0.92688667042601,0.43755888309447,0.59567783109645,0.41075671842483,0.86152081676657,0.74940146522037,0.43291384118885,0.22257879025553,0.58381766739427,0.80692831219316,0.61623101873751,0.41818736388867,0.22090498266555,0.66258994620330,0.27270873547165,0.17089284754156,0.48707081935940,0.39968285458612,0.00794181230646,0.51348637173723,0.91611968551953,0.84058849112122,0.71014067409361,0.39501293797619,0.36715413528745,0.99095803755399,0.63500126076095,0.40247579336115,0.22778550152358,0.62040072966459,0.34639699037276,0.27982470080724,0.49105038324139,0.90085711570733,0.86332978254796,0.14612426222331,0.36556183969556,0.50740462139803,0.29830057161553,0.21127838947252,0.22703245666295,0.02405163400872,0.21127980069341,0.96320699299730,0.33536355715666,0.49962979944677,0.33895053551081,0.43529169028652,0.17946844400279,0.96750736898340,0.98866085717831,0.32089962500778,0.07275074574257,0.36004586969821,0.57540418168929,0.89772174917699,0.54285726939933,0.97786106805035,0.60318655544091,0.91915950434631,0.70762808375670,0.19284215445607,0.23503363700463,0.47398730524455,0.38197881312138,0.54164374064873,0.33521924575357,0.82729778739273,0.96937576085775,0.22699727669860,0.44987357968244,0.22258005295110,0.90909482048253,0.34486253508041,0.97965502431185,0.88049147722653,0.01278314424423,0.94176014877403,0.34030591735834,0.76898609385865,0.95807950186767,0.99156670685502,0.85271337779031,0.56817487962199,0.65249169229498,0.02861821200795,0.75864449370923,0.32676378446839,0.68569969309389,0.75300306167662,0.33828377926212,0.34159541178807,0.66611261323338,0.33189549454047,0.04436258814706,0.05121284802990,0.33591430702187,0.26167472166800,0.26696793089776,0.84576635829447,0.82239473053877},
{0.57872702600771,0.63960826504228,0.68915563967026,0.65996939934417,0.69120413374132,0.78633383843826,0.74561054805038,0.29392799625156,0.51026933865115,0.67904779801236,0.16885252050191,0.21347519759846,0.55277444925741,0.69185153219520,0.94503317044625,0.98447286845073,0.34995507567350,0.02729067531159,0.70309691332646,0.99774321717031,0.94982980887752,0.10054968186078,0.70587781066997,0.54584639097166,0.63097382737274,0.79754500875727,0.63346445057816,0.45576045229815,0.08291754717446,0.77147499226177,0.70783204277544,0.54755455981837,0.41627080623438,0.06000462959153,0.59127736221172,0.28614076663483,0.09523612991561,0.23976490096962,0.51972705389818,0.49310761990590,0.70544921551895,0.79246334299701,0.08698281441285,0.53462365335892,0.62614924107497,0.69511922748824,0.51999274946842,0.76986152073819,0.37627974916005,0.96860296908990,0.96407900124404,0.85264254052003,0.38447666122292,0.14588028902542,0.82304116938263,0.66817389334312,0.55653547386238,0.06572857251342,0.75796262563541,0.95811869743735,0.30165548264877,0.13662439006478,0.33859860467378,0.65323757982787,0.67070104374408,0.29234884203203,0.64989132573669,0.79973325087359,0.64306616802467,0.23695985023257,0.14218655434438,0.10311851932187,0.09973359354232,0.81111095243303,0.07877745572902,0.75560229784612,0.32035326064509,0.54271218456187,0.87525201871625,0.70478228695783,0.30501787447234,0.79201587647001,0.16088275401213,0.78427938464329,0.35546646231470,0.23318718699527,0.33792129877488,0.02185497262856,0.86529088041045,0.97474083074739,0.19001017699512,0.71032319300219,0.83671330190797,0.42289370153530,0.64354867202761,0.97163044040309,0.08130936433333,0.70717174009388,0.19962352263661,0.99650510219045,0.05141423577815,0.95862220837834,0.80824489729501,0.89535590540748,0.12785007446798,0.10959888147636,0.25852978369929,0.86231747829558,0.44981454155620,0.02387896981428,0.47874742683981,0.52182488711139,0.19815425518774,0.23639488067296,0.97514378043681,0.73141579922791,0.91010422070964,0.39722938820629,0.09158847829843,0.06633032390813,0.81166049933315,0.80716991886919,0.17402198573231,0.98933792948868,0.73300373693573,0.76267220123587,0.61304743505464,0.35584498983110,0.63157911043844,0.25561192062955,0.85864861479594,0.19193905480824,0.56343026059153,0.81396684382578,0.11784330734473,0.42453077193893,0.98730690437333,0.35933933601888,0.20618030481857,0.89925618185677,0.25812135754304,0.17317790309989,0.39185745426451,0.35906716423741,0.72398818844147,0.48515561295292,0.61148597735814,0.13756924039483,0.40071879762388,0.85042972122989,0.30474580313456,0.13639024442558,0.37653592844945,0.36585714972637,0.37995199895844,0.98381594453786,0.54515316880698,0.89244531945546,0.59252554767640,0.22861214512570,0.30895158290386,0.43610615606170,0.09897384198914,0.87899867960702,0.87164466003429,0.92081696080544,0.64028600631617,0.87413363550144,0.78356925418909,0.62520544499795,0.50252235414704,0.35267719551957,0.15935602681275,0.40466632607065,0.26913778835739,0.85465761345125,0.91359045751559,0.07115176515934,0.60419919614288,0.29837487689990,0.58866232187980,0.19714071676866,0.94709731243982,0.20847175535337,0.06216227891176,0.36745794329362,0.21089397598549,0.00412432332176,0.39830329950584,0.92698683386990,0.49612509028362,0.69957325312098,0.08493266203149,0.70218049948218,0.67089898265797,0.40495903396562,0.02560713540830,0.39977929067641,0.92722439105617,0.07369912771778,0.38296538115291,0.57180888789433,0.09085498762590,0.26669054040097,0.26716097178335,0.95433102924118,0.81938595314950,0.67660048650670,0.24348370761987,0.63955339734398,0.21812349961553,0.16802074302222,0.19033442137901,0.06637808307326,0.61238728952883,0.84832672461885,0.72466452164169,0.75943081032991,0.40288152182081,0.85870930160378,0.35845082307547,0.19540957506043,0.87988247552761,0.05460998966687,0.43814601105733,0.30391782559603,0.69773601926933,0.53246960751309,0.63977820583038,0.92816903315120,0.89537190428725,0.76050893395201,0.36174107418226,0.71366940126156,0.77440869821488,0.31838543635164,0.74586572845682,0.54746381982354,0.66718342106422,0.92109859724489,0.37585445168771,0.88740750921349,0.04665605407635,0.60428537970756,0.12607298019740,0.98392302450681,0.11095187370387,0.61383945287541,0.67816042095278,0.54430188363520,0.65531569659775,0.55412400862747,0.89497450768689,0.41968806083365,0.77338582096814,0.19266770651408,0.15992619864679,0.79940307316739,0.70018306849570,0.03907156278345,0.57262712236924,0.83122326911150,0.72038618350672,0.03503314412538,0.06031594430466,0.95722680642355,0.37046969353609,0.62617745776160,0.10302374924185,0.46143558900623,0.08538653733711,0.71177421470723,0.98435439959771,0.95196793417853,0.12606893434201,0.50577329001614,0.61898865320312,0.70644426532299,0.25192395437102,0.01518579784338,0.49462008812595,0.83233698617315,0.67240400840934,0.31589323134496,0.57852967990937,0.71988478351389,0.75610152513500,0.93379968539543,0.29342972699412,0.81692602943861,0.59623954354940,0.02542024932715,0.87310362599951,0.95744287473668,0.21607305015721,0.43116220146262,0.32229426181953,0.18115695863707,0.41272349877165,0.28868737930962,0.67923083881466,0.75983847572258,0.13881850262422,0.75734265548867,0.74651919392746,0.72815148139930,0.59506402178590,0.03078200776727,0.98588480138724,0.60514765545803,0.64825078391465,0.77609087097397,0.65982492261588,0.81355686408307,0.14034825916430,0.52903203251270,0.75957122131485,0.88050247764618,0.92079690402944,0.83640962233274,0.80565203732745,0.12591547886832,0.72147091849891,0.77364159036706,0.47554284356672,0.45829239095771,0.45078675497092,0.72686549848240,0.04631211685926,0.51835310842316,0.97540230053203,0.19245880939690,0.53310738565772,0.09777934751641,0.63977403838612,0.27358184278134,0.26826709372644,0.73891357368193,0.17854209052775,0.77713558584537,0.55356999945036,0.08371766048608,0.90135310298080,0.93530083640941,0.60959605089032,0.38588098686963,0.75504308099048,0.69122538789436,0.81824935650866,0.00260500334004,0.89532690463126,0.12566174491845,0.43576929434879,0.82159575377363,0.74957574718014,0.67554578624458,0.43179094306958,0.57359672744172,0.40602339045833,0.97586442212773,0.91626407581120,0.49474612042082,0.34113138672805,0.57848236328009,0.73577304995269,0.49365176399495,0.37059468958936,0.70220773480340,0.38254840153144,0.37739490199863,0.42137853651429,0.31004992223201,0.98946539952398,0.54602106890265,0.41411084452476,0.74872200331283,0.06130920369726,0.47799840308820,0.71011151730951,0.74202379906960,0.48395065668459,0.83284504464475,0.00979017397261,0.86628636049553,0.87066581427800,0.11329312636083,0.87318563616090,0.58694368404998,0.11034809356021,0.78599372958078,0.56519975969143,0.89850643040061,0.49814628426455,0.37913046121212,0.79328044902880,0.39155169504797,0.86932417457119,0.40951651810132,0.57930364292327,0.22736472486939,0.63332717701910,0.61659537942882,0.81132944818748,0.88563519223492,0.03810429635829,0.65322662002683,0.61092010045675,0.96172329836651,0.29461144681230,0.96735325787644,0.42443829088060,0.29382587458752,0.86740999915673,0.55995045210799,0.29692056502944,0.66481353854400,0.76226445758234,0.15518079118971,0.95152086917150,0.16373687715460,0.31323152914635,0.84561429563710,0.72611805589512,0.42058058819984,0.21645285841141,0.82571393365204,0.44471181345121,0.70073917241458,0.67566983060072,0.55094695908106,0.51830515185838,0.67696328943363,0.33534530045741,0.32692741339707,0.43960568690701,0.72538076717360,0.71191600727471,0.40228541369243,0.25537736460940,0.55086304724633,0.19227133935383,0.32700924977744,0.23400693903722,0.50150802225296,0.86159914353185,0.68208390613566,0.85304094012854,0.36163163177110,0.02747159740485,0.02476099725258,0.40784415502731,0.30896397859881,0.43723813384159,0.86097527955126,0.19040858061591,0.62991754954355,0.40597028245868,0.87610978586730,0.01695488648838,0.79356267756460,0.47083874970652,0.61347703854432,0.68566034169507,0.69442421130864,0.55365308215130,0.64030126750035,0.13713035939842,0.05979300928748,0.61556904616336,0.59987423221360,0.56472677136001,0.24648169729288,0.57089746528911,0.20403538173565,0.29514210556975,0.05681143362751,0.18225580655517,0.51065163889187,0.04411964612121,0.28445223218054,0.02801315806450,0.22629379375630,0.88341584391547,0.79571113277195,0.22637037505492,0.93965537677790,0.52028827737293,0.69393084051914,0.04227016160473,0.73304506267842,0.77050078313178,0.03002381517796,0.46980996423891,0.04770708625613,0.45895281467201,0.77642417720459,0.69989314110809,0.41739228723726,0.00128043208545,0.96469940991764},
{0.85946695012587,0.80056548692219,0.39640787665780,0.30348170192968,0.97470308936659,0.15183935089797,0.80678229168707,0.41596220466227,0.46882840344583,0.86467446685724,0.88383852316380,0.13910334436739,0.51046210289985,0.87410538081039,0.43094011194741,0.63968490852616,0.33074547539987,0.68302758839059,0.28935077937821,0.63981321390559,0.96026837233886,0.23811802199661,0.11015051038739,0.10228639123466,0.42445707407712,0.91892284528194,0.34949370893663,0.44087992840965,0.07803874208123,0.88262629989268,0.60435421591064,0.09281185965636,0.71896288616325,0.92521185176017,0.07977189520257,0.35379194231503,0.30686128098497,0.13939489354464,0.91354304826045,0.00239357327978,0.89315284029164,0.20755006448190,0.80886747166137,0.01223880374289,0.27529479061168,0.94885097548783,0.88115642112811,0.93601717172543,0.97920099319651,0.40692646552672,0.28335740759159,0.15193030046281,0.52964895791582,0.99236862384579,0.39072970134332,0.80892471991117,0.66648069833687,0.91860444149815,0.93444964756581,0.07700984911627,0.19336476684994,0.17254322252082,0.33287036817726,0.97530524855316,0.02218692404079,0.23647534577431,0.82912597594910,0.73396996587774,0.95067069730043,0.59470032664439,0.18775462415836,0.98948597084984,0.98837499763500,0.90422865807413,0.63285132384081,0.52649098010234,0.77084279037276,0.34835483881441,0.74425879181949,0.31627147315073,0.39750202262375,0.33600293010495,0.27267557469964,0.45294888366820,0.37136739215805,0.38240828232189,0.72709027138574,0.82911364323873,0.81013993419170,0.31047173417153,0.11150243546357,0.01872270340904,0.65122285389416,0.96533210099204,0.07707090000422,0.16315897867070,0.18968465844986,0.04513422410788,0.54245412541945,0.99834484551506,0.19695437442412,0.97634304967117,0.49752501217347,0.46339180836231,0.92345651920539,0.36119290353744,0.62031737954453,0.39639455474976,0.51532146673407,0.67559715285917,0.06697862119140,0.32714987412626,0.00859764979173,0.46307743364810,0.45561644242125,0.92600053170868,0.87481932968075,0.39712263331300,0.66137359332269,0.27162687728351,0.93750666321480,0.66078939867512,0.80970984784050,0.24849411903893,0.46339573449724,0.72413333835416,0.89448935763164,0.62521852945918,0.28313638059790,0.12269538994015,0.80739956549571,0.66250024791868,0.09593994446749,0.77215721048367,0.77220170160662,0.28316501029737,0.90161074733187,0.70147580958018,0.30908784046016,0.51723922330905,0.28775894734101,0.97178344688766,0.62575423884819,0.51542045411449,0.74676570938357,0.23819615512637,0.70002304649226,0.15057761347154,0.60006375258574,0.63112755508236,0.55170698141761,0.35850302853081,0.37264263691868,0.21435461387003,0.02493232321893,0.55130545599559,0.43074249503634,0.83507103750842,0.73099197195015,0.79720389216208,0.03468113499158,0.94950186840938,0.63193396197243,0.08450410350550,0.18749560326950,0.11407333649404,0.70942111560032,0.41480670603759,0.08237400640921,0.54266862789824,0.18836253198059,0.45539663771361,0.36134790270536,0.10665120831904,0.61781824432736,0.29373945174788,0.61880511508321,0.80597079738558,0.04193730103877,0.45777591709970,0.78525237493057,0.90739536187589,0.22809322953320,0.83230042596123,0.85618984265886,0.68122838123657,0.83103891413751,0.90767180519304,0.14890630237246,0.88719391199446,0.98611578951938,0.46214011945379,0.75160953343117,0.13398905613895,0.16346613525851,0.43303339109780,0.34892176138497,0.50702282492501,0.97631422050038,0.93911765305029,0.42636173516627,0.65485309931944,0.22952002002581,0.71331893721531,0.78268716214510,0.86641236755804,0.56481786578417,0.28671003623434,0.95615602185464,0.75723798426711,0.25874970573985,0.55237167659562,0.96591099186892,0.35145791890784,0.52075056348867,0.81978471983402,0.94264769768073,0.22671495147598,0.71736867806491,0.49601322222352,0.26486393147445,0.51351841999509,0.01454799240635,0.04353412037532,0.02860247127062,0.02841255233654,0.49618141751992,0.14770945990786,0.85147523337192,0.14751009683938,0.16193010351461,0.59463235725218,0.17244194835469,0.85241662900740,0.39121635935361,0.43060632824598,0.15210475353851,0.32025952301746,0.11885676522209,0.90883511166407,0.41349462471682,0.02710297992735,0.50462328235337,0.97311077202069,0.14548304106656,0.09000237643191,0.32637376266085,0.73140002168361,0.25421256360450,0.66124968707229,0.84082228972246,0.58059365452682,0.17838947416790,0.09666475154608,0.11424099049151,0.99754656359987,0.07215969777675,0.04678411506190,0.41273479283618,0.56392632739435,0.94351912744514,0.35461403274363,0.68804698080462,0.68693652178112,0.11815054430796,0.80969919454586,0.04977707560794,0.45585533049243,0.76244201016829,0.26588020696119,0.28692575805366,0.07156898425345,0.50877163076699,0.78787604366826,0.06086863628077,0.83916967653645,0.58712064686126,0.26287989406865,0.08490745519403,0.01403989849807,0.00632466724933,0.81911777066838,0.44176692587976,0.19611076015327,0.04855708030016,0.69417526104711,0.93381073060807,0.75439764792612,0.45663934505440,0.05407957211177,0.18312074968758,0.09883943964941,0.98846923813337,0.70291464913607,0.88909192620075,0.21367536361993,0.43679440437918,0.29871227072608,0.67479945674044,0.40980925564576,0.70996175216629,0.95366018725589,0.48075945067130,0.83985108486118,0.78391528783113,0.59850713147345,0.07145924344622,0.82743318743691,0.07718654192813,0.00475494506683,0.21062738131877,0.24820841598252,0.04925861833583,0.15961829993920,0.46244800765542,0.32622426254585,0.58902624970504,0.76111683911418,0.62602055927647,0.24915654979955,0.21453147343906,0.13917292166892,0.78261868199577,0.90407578319224,0.64269810726328,0.34421569150925,0.38834540609775,0.85295927187742,0.97604630413758,0.92275339501656,0.60656874670885,0.78052304178928,0.11232254294913,0.23615491325053,0.37017074416552,0.54904650610977,0.23025353849609,0.83418059937786,0.96942830554942,0.46636752315076,0.17791276035923,0.91874920068474,0.88275662029807,0.15431314794949,0.27788715937211,0.94024072930113,0.67330725751651,0.71305095881507,0.10143158260350,0.47075359401464,0.38411039546125,0.71569386549073,0.08010477860399,0.95856060891146,0.22704756719775,0.31337251414570,0.73880289599004,0.64281842501174,0.02494690599583,0.45172745134082,0.61737429986686,0.39330579719335,0.90153911085042,0.52463465376154,0.81335401544551,0.44615395795954,0.47198312760876,0.27526717095613,0.12852570790385,0.58667025718580,0.70467450308716,0.84240069042223,0.48956113506305,0.37194763477258,0.66297414145676,0.51378403401043,0.30911982324676,0.60266344770939,0.33357813711707,0.08044358770383,0.52354552871638,0.14783240365495,0.87910231141956,0.44706123715282,0.11499352245197,0.88960222028327,0.52944266387240,0.22718574716011,0.76495937757460,0.05351501111166,0.43996714557439,0.13835074220107,0.42355586507782,0.26704607994602,0.67179288052483,0.06845778996343,0.43994161176626,0.27130393775691,0.57455745750582,0.30940025188281,0.61545544056404,0.56102198900356,0.18319454815460,0.86886330510216,0.34092270950420,0.02118216653959,0.15792182966227,0.40078241915828,0.10640342617356,0.05332129757032,0.56017947847911,0.32214601452229,0.21311799031540,0.81690205774055,0.24296072470632,0.43711577893629,0.43157526807752,0.17399287996012,0.13844320634899,0.01547680655846,0.39881774502858,0.40771913173368,0.27326264828934,0.19060341611863,0.90704563761546,0.18613584195212,0.22757469625008,0.84736639858476,0.17336967002616,0.89232890977906,0.82720750173978,0.15351595803650,0.67301807185670,0.31529863726934,0.64544221588972,0.15977581883501,0.31881798743326,0.32548143473083,0.57093210852830,0.50715277844260,0.02849441721621,0.91495976294511,0.71856031716435,0.67198776080900,0.81056231844221,0.87440573539069,0.71962515097232,0.50307642557387,0.76265845836830,0.74918889615765,0.49018047724802,0.43587403133788,0.79601624747205,0.57226606366110,0.23858735332484,0.03031094086757,0.15539026983738,0.70912999286214,0.96987113750414,0.37023441976761,0.19344196090348,0.92144700477822,0.75335399065430,0.24614770608711,0.16678737707181,0.67387963017395,0.86867710107548,0.58706933692789,0.60312554329572,0.74118742840657,0.61037453618362,0.42327348411580,0.72752437308678,0.97758070581347,0.54745935819843,0.37808773617863,0.59185225382694,0.81967621520487,0.94566229236244,0.11244417310728,0.47349383068317,0.83777050899133,0.51336444911024,0.98975442884257,0.27760064812326,0.43215096619470,0.01465744004170,0.53535622021238,0.02089496744830,0.54073044259555,0.68988816248347,0.00477464521735,0.77723224926727,0.95596283833187,0.62202522856195,0.24710812225554,0.22469906377002,0.15572557557707,0.16096609432528,0.21580851895023}};
