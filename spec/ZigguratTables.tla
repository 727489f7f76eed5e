--------------------------- MODULE ZigguratTables ---------------------------
EXTENDS Integers
(* Values of the tables derived in Ziggurat.tla, kept as literals because   *)
(* TLC would derive them anew in every state.  MCZiggurat compares them.    *)
EdgeTup ==
  <<<<1,-9,<<14213,775,25332,29024,18936,31427,25766,17816,8923>>>>,
    <<1,-9,<<20577,1785,25875,27608,1353,30264,28637,24616,11890>>>>,
    <<1,-9,<<3154,941,3372,29055,18212,32686,29796,11089,13977>>>>,
    <<1,-9,<<3499,5636,10856,1755,4871,25622,25004,30306,15644>>>>,
    <<1,-9,<<10572,15422,4621,12627,20493,9660,26931,4035,17061>>>>,
    <<1,-9,<<12686,22038,17647,32089,30724,30674,15336,16818,18307>>>>,
    <<1,-9,<<19896,11066,11605,29220,13786,8964,5556,16968,19430>>>>,
    <<1,-9,<<7199,6140,11104,8475,9731,13021,4847,10143,20459>>>>,
    <<1,-9,<<6495,6456,20507,15856,20297,25252,15546,17464,21413>>>>,
    <<1,-9,<<15797,7897,30868,31755,7028,8490,6253,3600,22307>>>>,
    <<1,-9,<<20389,15450,3598,128,21406,12973,16339,9911,23150>>>>,
    <<1,-9,<<15603,14602,15324,29815,3494,24520,30719,30016,23950>>>>,
    <<1,-9,<<20235,731,12872,21050,11255,8573,3268,1328,24715>>>>,
    <<1,-9,<<17721,21275,22185,4274,13620,7239,25275,17348,25447>>>>,
    <<1,-9,<<20505,10903,32317,12807,24721,1135,27834,10514,26152>>>>,
    <<1,-9,<<20107,23166,20137,23206,30549,30208,5396,21618,26832>>>>,
    <<1,-9,<<15113,12296,2959,28750,22713,1627,29584,8373,27491>>>>,
    <<1,-9,<<24393,496,28332,28454,8072,19784,19068,13026,28130>>>>,
    <<1,-9,<<10895,15406,17489,9315,25671,19493,19371,1306,28752>>>>,
    <<1,-9,<<18811,5020,26875,7394,29741,11432,7986,28384,29357>>>>,
    <<1,-9,<<11865,27393,16884,3487,18284,10270,13179,11117,29949>>>>,
    <<1,-9,<<29647,25942,7228,19745,27022,1850,6743,24228,30527>>>>,
    <<1,-9,<<21051,9398,7731,9177,1021,28176,27363,6388,31094>>>>,
    <<1,-9,<<31929,216,22713,16235,21095,28103,25075,23161,31649>>>>,
    <<1,-9,<<2309,16797,31043,7146,5463,9897,28803,5497,32195>>>>,
    <<1,-9,<<23617,5961,26497,8639,8668,10591,7989,12403,32731>>>>,
    <<1,-8,<<12503,3108,12217,23463,19418,15602,1992,491,1>>>>,
    <<1,-8,<<12089,6539,25554,17305,18443,7961,28452,1010,1>>>>,
    <<1,-8,<<9607,27906,20277,28582,12697,26704,12961,1523,1>>>>,
    <<1,-8,<<3861,14302,2979,16690,17285,5594,6086,2029,1>>>>,
    <<1,-8,<<25636,18364,20246,27945,22668,19821,24146,2528,1>>>>,
    <<1,-8,<<1022,25453,9783,31568,15207,28649,16631,3022,1>>>>,
    <<1,-8,<<26849,26442,22571,10406,21371,14945,30191,3510,1>>>>,
    <<1,-8,<<21958,3052,21383,6703,12712,12101,12159,3994,1>>>>,
    <<1,-8,<<17487,716,23908,17125,28356,4628,7276,4473,1>>>>,
    <<1,-8,<<25051,26992,5982,19885,18638,26900,26715,4947,1>>>>,
    <<1,-8,<<16974,32494,13352,23862,6921,13288,15404,5418,1>>>>,
    <<1,-8,<<31479,12277,1129,8446,29335,20391,15935,5885,1>>>>,
    <<1,-8,<<958,24678,32059,27360,3465,21918,4797,6349,1>>>>,
    <<1,-8,<<2609,6750,21032,32369,28379,7935,23504,6809,1>>>>,
    <<1,-8,<<32681,6993,2408,2996,9438,31682,14806,7267,1>>>>,
    <<1,-8,<<28389,8555,1257,18492,9055,5065,19350,7722,1>>>>,
    <<1,-8,<<26356,18935,7656,7427,18852,22260,11872,8175,1>>>>,
    <<1,-8,<<16422,16627,70,29698,9120,20787,32317,8625,1>>>>,
    <<1,-8,<<12008,9186,18522,669,7633,11034,22026,9074,1>>>>,
    <<1,-8,<<3304,21719,22619,9080,14207,5371,20377,9521,1>>>>,
    <<1,-8,<<22470,26370,10042,10228,7498,20931,973,9967,1>>>>,
    <<1,-8,<<6849,19821,31570,3034,5816,3993,2742,10411,1>>>>,
    <<1,-8,<<32764,11076,29216,29481,19472,13867,31651,10853,1>>>>,
    <<1,-8,<<31815,6930,14755,26010,8332,19825,27966,11295,1>>>>,
    <<1,-8,<<1651,15906,18111,10618,23661,7009,30109,11736,1>>>>,
    <<1,-8,<<17748,31976,15126,2718,28242,4999,10836,12177,1>>>>,
    <<1,-8,<<14035,3111,25336,2460,10483,12359,8329,12617,1>>>>,
    <<1,-8,<<16509,249,4730,8402,13704,19230,27908,13056,1>>>>,
    <<1,-8,<<18391,19869,14144,23453,14907,1799,9279,13496,1>>>>,
    <<1,-8,<<21430,19052,30290,9480,25547,24143,23154,13935,1>>>>,
    <<1,-8,<<4011,8748,11863,5365,29861,25531,9128,14375,1>>>>,
    <<1,-8,<<6733,31728,17044,1418,13270,17812,5063,14815,1>>>>,
    <<1,-8,<<31744,9198,30815,25158,2458,8247,16032,15255,1>>>>,
    <<1,-8,<<23610,13095,20831,1879,2731,11517,14332,15696,1>>>>,
    <<1,-8,<<23483,30616,6965,24149,6597,22955,5034,16138,1>>>>,
    <<1,-8,<<1852,13056,12967,32239,11075,21554,25996,16580,1>>>>,
    <<1,-8,<<21311,17396,2860,8682,10280,5696,16803,17024,1>>>>,
    <<1,-8,<<3967,21534,7924,10105,29840,31745,15387,17469,1>>>>,
    <<1,-8,<<13906,32695,14992,18312,11872,29054,26974,17915,1>>>>,
    <<1,-8,<<22914,6165,12234,4594,13041,16929,24091,18363,1>>>>,
    <<1,-8,<<13202,32688,26964,13381,8848,5724,12119,18813,1>>>>,
    <<1,-8,<<25670,6590,365,14380,7040,11201,29307,19264,1>>>>,
    <<1,-8,<<24151,15159,22466,25569,23590,21665,15716,19718,1>>>>,
    <<1,-8,<<927,12618,22802,30380,29029,19721,9842,20174,1>>>>,
    <<1,-8,<<26192,9612,27326,32264,5428,29686,17559,20632,1>>>>,
    <<1,-8,<<4174,4653,905,4477,871,30938,12139,21093,1>>>>,
    <<1,-8,<<31224,2959,5733,16176,2693,3844,32573,21556,1>>>>,
    <<1,-8,<<20106,1202,3314,27625,29770,14886,19748,22023,1>>>>,
    <<1,-8,<<10637,12894,11781,7832,24935,18774,13082,22493,1>>>>,
    <<1,-8,<<6519,20548,1543,5857,14687,6191,19470,22966,1>>>>,
    <<1,-8,<<29176,2847,16184,32415,28030,12448,13308,23443,1>>>>,
    <<1,-8,<<8943,20180,18853,21421,4586,27429,2058,23924,1>>>>,
    <<1,-8,<<30505,3982,23091,19514,3993,12022,26276,24408,1>>>>,
    <<1,-8,<<7602,5032,20202,220,28669,30800,28567,24897,1>>>>,
    <<1,-8,<<5420,6676,19458,2877,11106,20501,17466,25391,1>>>>,
    <<1,-8,<<2138,32385,8152,11012,26974,26168,1932,25890,1>>>>,
    <<1,-8,<<10127,29806,31061,15832,18553,1986,24163,26393,1>>>>,
    <<1,-8,<<2958,31736,26396,17928,5150,12696,28563,26902,1>>>>,
    <<1,-8,<<26405,30002,14867,26242,9708,2944,25639,27417,1>>>>,
    <<1,-8,<<23575,2921,711,18426,18850,8904,26514,27938,1>>>>,
    <<1,-8,<<8621,5313,1655,30233,4616,19022,10225,28466,1>>>>,
    <<1,-8,<<18796,22959,14006,6069,185,5834,22095,29000,1>>>>,
    <<1,-8,<<14690,11126,9592,28111,13082,721,9968,29542,1>>>>,
    <<1,-8,<<1564,1980,5686,17632,9616,24259,20906,30091,1>>>>,
    <<1,-8,<<22164,22978,10896,15013,27639,20189,4681,30649,1>>>>,
    <<1,-8,<<20717,21501,12783,18637,778,15926,10489,31215,1>>>>,
    <<1,-8,<<10519,12385,25940,906,25373,23016,23239,31790,1>>>>,
    <<1,-8,<<30546,25510,16337,17501,5756,24238,29233,32375,1>>>>,
    <<1,-8,<<7765,14338,31313,643,31387,18096,16329,203,2>>>>,
    <<1,-8,<<25903,4471,19415,8153,946,14774,6898,810,2>>>>,
    <<1,-8,<<27065,1648,27849,5712,630,2779,25275,1428,2>>>>,
    <<1,-8,<<29409,27907,4891,1341,27751,5026,32474,2059,2>>>>,
    <<1,-8,<<3920,821,17033,21329,148,25565,24788,2704,2>>>>,
    <<1,-8,<<3333,2123,4857,32399,26316,5175,1367,3364,2>>>>,
    <<1,-8,<<25967,25610,12556,15244,6548,7422,30154,4038,2>>>>,
    <<1,-8,<<27157,10140,14230,23721,23686,30773,18995,4730,2>>>>,
    <<1,-8,<<17990,12057,28421,16754,15942,10905,11123,5440,2>>>>,
    <<1,-8,<<17138,20905,97,31555,704,14819,21998,6169,2>>>>,
    <<1,-8,<<29359,22184,20611,31162,14249,20834,7374,6920,2>>>>,
    <<1,-8,<<4487,32175,19944,15833,25981,12808,28144,7693,2>>>>,
    <<1,-8,<<32053,2623,19589,21960,5987,86,22200,8492,2>>>>,
    <<1,-8,<<30586,19834,8186,32232,17421,16986,2572,9319,2>>>>,
    <<1,-8,<<23584,28441,22263,31558,15171,30004,26577,10175,2>>>>,
    <<1,-8,<<28556,25718,21815,13746,19908,9694,1628,11066,2>>>>,
    <<1,-8,<<11226,5488,30124,24643,628,28049,16005,11993,2>>>>,
    <<1,-8,<<25444,25601,21464,12134,29176,5904,15192,12962,2>>>>,
    <<1,-8,<<29909,10080,7944,10149,26720,5473,3748,13978,2>>>>,
    <<1,-8,<<16344,5372,30905,29865,19614,22842,19592,15046,2>>>>,
    <<1,-8,<<13579,32167,1883,21563,28549,3008,12525,16175,2>>>>,
    <<1,-8,<<3488,12594,27642,11583,24460,25912,21405,17373,2>>>>,
    <<1,-8,<<18782,19502,14575,2338,6747,11874,29318,18652,2>>>>,
    <<1,-8,<<21291,26592,7268,19273,17408,4196,24170,20027,2>>>>,
    <<1,-8,<<25108,12402,11627,7425,19423,8132,8050,21517,2>>>>,
    <<1,-8,<<1669,9619,22700,7808,9997,26091,30761,23146,2>>>>,
    <<1,-8,<<117,28060,13564,9408,14454,6222,4318,24952,2>>>>,
    <<1,-8,<<13648,11003,8415,24330,18150,24209,25482,26983,2>>>>,
    <<1,-8,<<5303,19733,15277,21870,21209,18547,16011,29319,2>>>>,
    <<1,-8,<<9290,22052,26843,366,12412,28637,16139,32086,2>>>>,
    <<1,-8,<<16598,26126,23257,26984,5279,24094,18613,2748,3>>>>,
    <<1,-8,<<24557,28486,24702,5943,5664,16225,13048,7340,3>>>>,
    <<1,-8,<<28029,29180,17861,30785,1671,30632,12427,14558,3>>>>,
    <<1,-8,<<17679,2658,23436,20169,19434,12505,3470,24072,3>>>>>>
HeightTup ==
  <<<<1,0,<<1>>>>,
    <<1,-9,<<2241,16196,28057,21557,21822,6357,3019,6543,31575>>>>,
    <<1,-9,<<4770,32080,12854,23281,499,26584,10477,1628,30680>>>>,
    <<1,-9,<<29714,746,28023,2577,24172,21098,22275,17396,29918>>>>,
    <<1,-9,<<13974,8015,19951,30692,27983,14946,10059,5967,29238>>>>,
    <<1,-9,<<4182,31713,1522,14156,23517,16933,29384,10067,28614>>>>,
    <<1,-9,<<19719,5737,16214,2221,30014,17631,5502,29697,28032>>>>,
    <<1,-9,<<26623,5873,26902,15303,19745,20342,15296,3536,27485>>>>,
    <<1,-9,<<10007,4360,24271,9020,28665,3352,10888,28032,26964>>>>,
    <<1,-9,<<27841,2461,28723,21106,30761,32624,21761,25767,26467>>>>,
    <<1,-9,<<11379,24168,7600,26670,2213,23261,5465,20605,25990>>>>,
    <<1,-9,<<27822,30804,2799,25144,27237,9365,3135,27871,25530>>>>,
    <<1,-9,<<2931,14342,9219,24760,20136,21319,20939,14464,25086>>>>,
    <<1,-9,<<18563,420,10160,19326,23848,12836,16350,25305,24655>>>>,
    <<1,-9,<<1403,8094,6456,4949,11816,21206,32255,16370,24237>>>>,
    <<1,-9,<<22581,27713,22964,17666,15820,20104,30238,16356,23830>>>>,
    <<1,-9,<<28553,13809,7686,23969,22882,24953,16097,26810,23433>>>>,
    <<1,-8,<<16232,2317,7554,5563,26284,32125,20981,23046>>>>,
    <<1,-8,<<2132,6155,16209,7361,14468,27876,8499,22668>>>>,
    <<1,-8,<<227,32767,18793,14379,13572,16240,1945,22298>>>>,
    <<1,-8,<<25894,9719,22094,7472,28880,16209,16343,21935>>>>,
    <<1,-9,<<16384,15721,3572,10696,25528,26813,21222,3224,21580>>>>,
    <<1,-9,<<16384,22453,12339,19732,21362,9108,18754,14146,21231>>>>,
    <<1,-9,<<16384,24783,26032,4361,25827,1870,12127,3828,20889>>>>,
    <<1,-8,<<22760,9236,11362,3326,2176,5161,26549,20552>>>>,
    <<1,-8,<<20444,16771,32018,20392,15570,31480,6599,20222>>>>,
    <<1,-8,<<21296,18323,19737,2327,1233,3189,285,19897>>>>,
    <<1,-9,<<16384,5350,25819,23353,31961,28445,2174,31963,19576>>>>,
    <<1,-9,<<16384,12241,20071,27276,3313,7372,11582,28410,19261>>>>,
    <<1,-9,<<16384,2232,31437,11716,15403,26376,19206,15344,18951>>>>,
    <<1,-9,<<16384,20305,7212,916,26049,8193,8029,19048,18645>>>>,
    <<1,-9,<<16384,32418,15326,26773,28550,16206,23602,770,18344>>>>,
    <<1,-8,<<15006,8359,19113,12866,28589,31145,20514,18046>>>>,
    <<1,-8,<<18839,22622,8184,9758,27382,7424,7615,17753>>>>,
    <<1,-8,<<8295,3730,26305,11036,3252,434,22841,17463>>>>,
    <<1,-9,<<16384,20134,7038,5567,15018,1615,27920,28985,17177>>>>,
    <<1,-9,<<16384,4451,29743,11238,8550,5907,18961,21908,16895>>>>,
    <<1,-8,<<10657,28819,13738,7639,14307,7216,30506,16616>>>>,
    <<1,-9,<<22977,22452,12233,24789,29552,177,1547,18386,16341>>>>,
    <<1,-9,<<20657,274,17678,26330,8500,7380,11145,14916,16069>>>>,
    <<1,-9,<<13031,297,24533,15630,26663,3262,16496,16903,15800>>>>,
    <<1,-9,<<13034,11722,16875,31175,29659,17075,7074,21343,15534>>>>,
    <<1,-9,<<28208,23661,18403,8172,8217,30512,11633,25405,15271>>>>,
    <<1,-9,<<19800,9468,18723,17774,19122,5545,15464,26420,15011>>>>,
    <<1,-9,<<4354,5717,11735,7263,16569,26213,20515,21867,14754>>>>,
    <<1,-9,<<31361,21661,22337,28794,9159,11722,13662,9363,14500>>>>,
    <<1,-9,<<32217,12946,22822,31714,19559,12060,2337,19420,14248>>>>,
    <<1,-9,<<15994,19281,24623,3315,29620,24649,15269,17132,13999>>>>,
    <<1,-9,<<19621,27282,8692,23895,5454,7155,32110,473,13753>>>>,
    <<1,-9,<<16708,32382,1402,23911,11875,11962,2801,289,13509>>>>,
    <<1,-9,<<2846,5803,953,2779,17758,5170,19625,14750,13267>>>>,
    <<1,-9,<<29938,23182,9954,30209,9095,10530,17062,9353,13028>>>>,
    <<1,-9,<<19256,2679,12036,20704,20865,4854,13280,15213,12791>>>>,
    <<1,-9,<<25883,1558,4338,29540,5329,24080,6763,30757,12556>>>>,
    <<1,-9,<<12423,17175,8008,24451,25464,29935,18070,21718,12324>>>>,
    <<1,-9,<<16425,26437,25226,16369,11834,8277,13208,19437,12094>>>>,
    <<1,-9,<<4058,11737,27459,31235,15514,23758,2338,22552,11866>>>>,
    <<1,-9,<<15767,18101,29466,17853,23273,17297,17844,29763,11640>>>>,
    <<1,-9,<<16384,27131,27533,30152,522,1931,3568,7064,11417>>>>,
    <<1,-8,<<6562,2773,18334,18926,23598,7606,18806,11195>>>>,
    <<1,-9,<<24576,17108,12661,22463,7465,4072,22553,31091,10975>>>>,
    <<1,-9,<<24576,6539,26093,5699,14062,7224,29569,10072,10758>>>>,
    <<1,-9,<<8192,31719,7597,20487,2555,11202,16322,20254,10542>>>>,
    <<1,-9,<<16384,26659,19379,22682,27735,16389,1018,27883,10328>>>>,
    <<1,-9,<<8192,9378,29648,6376,21569,17066,29288,32016,10116>>>>,
    <<1,-9,<<16384,26190,19095,32535,9102,25181,12428,31756,9906>>>>,
    <<1,-8,<<24197,21416,11114,3987,2588,29207,26241,9698>>>>,
    <<1,-8,<<31751,20793,26056,4904,26041,9548,14652,9492>>>>,
    <<1,-8,<<9380,10173,17829,12439,3638,12214,28971,9287>>>>,
    <<1,-9,<<16384,32607,12985,25081,11576,26938,14850,2914,9085>>>>,
    <<1,-9,<<8192,7299,10703,30133,27456,15554,2612,1303,8884>>>>,
    <<1,-9,<<24576,7276,28199,20650,5808,10531,27447,23455,8684>>>>,
    <<1,-9,<<24576,21864,22704,21131,18900,22332,8492,3187,8487>>>>,
    <<1,-8,<<20069,30850,31942,18471,23309,27072,5414,8291>>>>,
    <<1,-9,<<11624,27198,4998,12759,8754,15053,2043,29550,8096>>>>,
    <<1,-9,<<12218,20736,11653,28644,3085,23934,23313,9497,7904>>>>,
    <<1,-9,<<8605,16844,21596,7932,15637,31700,32717,10262,7713>>>>,
    <<1,-9,<<23308,28775,17647,21353,3607,11445,31804,31342,7523>>>>,
    <<1,-9,<<30411,13371,20656,6917,17236,27648,30039,6725,7336>>>>,
    <<1,-9,<<2995,286,21120,10143,3590,10125,28296,1498,7150>>>>,
    <<1,-9,<<8584,27041,12836,14988,20745,5278,4820,15239,6965>>>>,
    <<1,-9,<<30325,12101,4224,29678,16251,29464,1978,14782,6782>>>>,
    <<1,-9,<<25006,18267,21966,2182,17222,6390,18881,32524,6600>>>>,
    <<1,-9,<<10900,1524,15702,26197,14061,20958,4811,2585,6421>>>>,
    <<1,-9,<<26356,30064,18322,3518,16738,31338,19066,22947,6242>>>>,
    <<1,-9,<<27855,16732,28736,27927,21530,31282,211,27781,6065>>>>,
    <<1,-9,<<5724,2229,46,22490,30292,6131,29591,16815,5890>>>>,
    <<1,-9,<<8192,17457,5111,9371,30823,24705,7880,22576,5716>>>>,
    <<1,-9,<<24576,24639,11866,13679,19836,20682,22792,12075,5544>>>>,
    <<1,-9,<<4096,12446,17479,10251,22653,2942,31872,17889,5373>>>>,
    <<1,-9,<<24576,32167,12555,22048,32462,6076,7506,7085,5204>>>>,
    <<1,-8,<<31633,11811,26344,26689,3707,20141,12290,5036>>>>,
    <<1,-8,<<27455,20066,9144,16951,29213,30673,626,4870>>>>,
    <<1,-9,<<4096,8675,24284,17344,6300,5301,15017,4779,4705>>>>,
    <<1,-8,<<27264,19276,20380,13083,3341,28105,24694,4541>>>>,
    <<1,-9,<<12288,32686,11114,30835,8118,12592,11308,27582,4379>>>>,
    <<1,-9,<<24576,8530,17967,8990,10230,10092,32072,13450,4219>>>>,
    <<1,-9,<<22962,18046,10650,12890,21922,8816,6325,15111,4060>>>>,
    <<1,-9,<<19324,31158,1787,10116,1868,13664,18750,32640,3902>>>>,
    <<1,-9,<<21528,15992,13739,29588,4932,8429,29683,617,3747>>>>,
    <<1,-9,<<30954,23393,23610,1656,32244,30981,18633,17501,3592>>>>,
    <<1,-9,<<11589,2104,32730,15971,6687,2296,9104,17952,3439>>>>,
    <<1,-9,<<14370,10495,18362,22664,26019,2487,9571,2212,3288>>>>,
    <<1,-9,<<18654,2221,23161,18596,14260,9239,4296,3341,3138>>>>,
    <<1,-9,<<21493,4002,14830,30917,16150,1184,29918,21683,2989>>>>,
    <<1,-9,<<26624,22633,15049,11975,623,29861,14126,24876,2842>>>>,
    <<1,-8,<<28544,29768,2559,25970,18668,4008,13387,2697>>>>,
    <<1,-9,<<26624,17173,29464,2485,22080,24568,3949,20524,2553>>>>,
    <<1,-9,<<4096,4060,22802,12706,4003,1400,21029,14139,2411>>>>,
    <<1,-9,<<28672,9061,28191,1630,4517,8861,689,27712,2270>>>>,
    <<1,-9,<<10240,29020,14709,30862,13221,959,26858,29285,2131>>>>,
    <<1,-9,<<17012,3526,7038,27442,28373,4746,18287,19790,1994>>>>,
    <<1,-9,<<19755,27095,17291,15529,9060,12891,26964,290,1859>>>>,
    <<1,-9,<<29467,2374,9880,15784,10992,8854,25261,4776,1725>>>>,
    <<1,-9,<<22276,10520,29947,28129,23642,29993,15002,1888,1593>>>>,
    <<1,-9,<<18053,7996,25736,5091,7708,20452,692,26024,1462>>>>,
    <<1,-9,<<4096,11786,19005,19960,18338,11536,22071,13546,1334>>>>,
    <<1,-9,<<14336,25151,18716,3144,24410,17572,30464,32222,1207>>>>,
    <<1,-9,<<19456,9844,3976,23276,15318,20395,29042,19162,1083>>>>,
    <<1,-9,<<8672,17212,7286,16877,6747,17667,15247,10313,961>>>>,
    <<1,-9,<<8790,12573,8668,19709,75,5706,27089,9554,841>>>>,
    <<1,-9,<<7168,4342,30509,8001,31209,25393,31107,21719,723>>>>,
    <<1,-9,<<19456,26924,31287,16946,13581,12023,9993,20221,608>>>>,
    <<1,-9,<<11778,2193,9272,3410,3212,1420,8325,13246,496>>>>,
    <<1,-9,<<9553,25606,1295,18053,6260,31754,17552,12187,387>>>>,
    <<1,-9,<<30464,9711,24236,16314,32192,1573,2529,1329,282>>>>,
    <<1,-9,<<27941,30581,18862,20312,1084,3026,28881,9417,181>>>>,
    <<1,-9,<<23936,9367,15364,23025,20961,30032,29963,32040,86>>>>>>
KTup ==
  <<0,
    12590644,
    14272653,
    14988939,
    15384584,
    15635009,
    15807561,
    15933577,
    16029594,
    16105155,
    16166147,
    16216399,
    16258508,
    16294295,
    16325078,
    16351831,
    16375291,
    16396026,
    16414479,
    16431002,
    16445880,
    16459343,
    16471578,
    16482744,
    16492970,
    16502368,
    16511031,
    16519039,
    16526459,
    16533352,
    16539769,
    16545755,
    16551348,
    16556584,
    16561493,
    16566101,
    16570433,
    16574511,
    16578353,
    16581977,
    16585398,
    16588629,
    16591685,
    16594575,
    16597311,
    16599901,
    16602354,
    16604679,
    16606881,
    16608968,
    16610945,
    16612818,
    16614592,
    16616272,
    16617861,
    16619363,
    16620782,
    16622121,
    16623383,
    16624570,
    16625685,
    16626730,
    16627708,
    16628619,
    16629465,
    16630248,
    16630969,
    16631628,
    16632228,
    16632768,
    16633248,
    16633671,
    16634034,
    16634340,
    16634586,
    16634774,
    16634903,
    16634972,
    16634980,
    16634926,
    16634810,
    16634628,
    16634381,
    16634066,
    16633680,
    16633222,
    16632688,
    16632075,
    16631380,
    16630598,
    16629726,
    16628757,
    16627686,
    16626507,
    16625212,
    16623794,
    16622243,
    16620548,
    16618698,
    16616679,
    16614476,
    16612071,
    16609444,
    16606571,
    16603425,
    16599973,
    16596178,
    16591995,
    16587369,
    16582237,
    16576520,
    16570120,
    16562917,
    16554758,
    16545450,
    16534739,
    16522287,
    16507638,
    16490152,
    16468907,
    16442518,
    16408804,
    16364095,
    16301683,
    16207738,
    16047994,
    15704248,
    15472926>>
=============================================================================
