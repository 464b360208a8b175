---------------------------- MODULE CaseTables ----------------------------
(* Generated by tools/mkcase.py: code points below 1328 whose upper (lower)*)
(* case mapping differs from themselves, with the mapping.                 *)
UpperPairs == <<
    <<97, <<65>>>>, <<98, <<66>>>>, <<99, <<67>>>>, <<100, <<68>>>>, <<101, <<69>>>>, <<102, <<70>>>>, <<103, <<71>>>>, <<104, <<72>>>>,
    <<105, <<73>>>>, <<106, <<74>>>>, <<107, <<75>>>>, <<108, <<76>>>>, <<109, <<77>>>>, <<110, <<78>>>>, <<111, <<79>>>>, <<112, <<80>>>>,
    <<113, <<81>>>>, <<114, <<82>>>>, <<115, <<83>>>>, <<116, <<84>>>>, <<117, <<85>>>>, <<118, <<86>>>>, <<119, <<87>>>>, <<120, <<88>>>>,
    <<121, <<89>>>>, <<122, <<90>>>>, <<181, <<924>>>>, <<223, <<83, 83>>>>, <<224, <<192>>>>, <<225, <<193>>>>, <<226, <<194>>>>, <<227, <<195>>>>,
    <<228, <<196>>>>, <<229, <<197>>>>, <<230, <<198>>>>, <<231, <<199>>>>, <<232, <<200>>>>, <<233, <<201>>>>, <<234, <<202>>>>, <<235, <<203>>>>,
    <<236, <<204>>>>, <<237, <<205>>>>, <<238, <<206>>>>, <<239, <<207>>>>, <<240, <<208>>>>, <<241, <<209>>>>, <<242, <<210>>>>, <<243, <<211>>>>,
    <<244, <<212>>>>, <<245, <<213>>>>, <<246, <<214>>>>, <<248, <<216>>>>, <<249, <<217>>>>, <<250, <<218>>>>, <<251, <<219>>>>, <<252, <<220>>>>,
    <<253, <<221>>>>, <<254, <<222>>>>, <<255, <<376>>>>, <<257, <<256>>>>, <<259, <<258>>>>, <<261, <<260>>>>, <<263, <<262>>>>, <<265, <<264>>>>,
    <<267, <<266>>>>, <<269, <<268>>>>, <<271, <<270>>>>, <<273, <<272>>>>, <<275, <<274>>>>, <<277, <<276>>>>, <<279, <<278>>>>, <<281, <<280>>>>,
    <<283, <<282>>>>, <<285, <<284>>>>, <<287, <<286>>>>, <<289, <<288>>>>, <<291, <<290>>>>, <<293, <<292>>>>, <<295, <<294>>>>, <<297, <<296>>>>,
    <<299, <<298>>>>, <<301, <<300>>>>, <<303, <<302>>>>, <<305, <<73>>>>, <<307, <<306>>>>, <<309, <<308>>>>, <<311, <<310>>>>, <<314, <<313>>>>,
    <<316, <<315>>>>, <<318, <<317>>>>, <<320, <<319>>>>, <<322, <<321>>>>, <<324, <<323>>>>, <<326, <<325>>>>, <<328, <<327>>>>, <<329, <<700, 78>>>>,
    <<331, <<330>>>>, <<333, <<332>>>>, <<335, <<334>>>>, <<337, <<336>>>>, <<339, <<338>>>>, <<341, <<340>>>>, <<343, <<342>>>>, <<345, <<344>>>>,
    <<347, <<346>>>>, <<349, <<348>>>>, <<351, <<350>>>>, <<353, <<352>>>>, <<355, <<354>>>>, <<357, <<356>>>>, <<359, <<358>>>>, <<361, <<360>>>>,
    <<363, <<362>>>>, <<365, <<364>>>>, <<367, <<366>>>>, <<369, <<368>>>>, <<371, <<370>>>>, <<373, <<372>>>>, <<375, <<374>>>>, <<378, <<377>>>>,
    <<380, <<379>>>>, <<382, <<381>>>>, <<383, <<83>>>>, <<384, <<579>>>>, <<387, <<386>>>>, <<389, <<388>>>>, <<392, <<391>>>>, <<396, <<395>>>>,
    <<402, <<401>>>>, <<405, <<502>>>>, <<409, <<408>>>>, <<410, <<573>>>>, <<414, <<544>>>>, <<417, <<416>>>>, <<419, <<418>>>>, <<421, <<420>>>>,
    <<424, <<423>>>>, <<429, <<428>>>>, <<432, <<431>>>>, <<436, <<435>>>>, <<438, <<437>>>>, <<441, <<440>>>>, <<445, <<444>>>>, <<447, <<503>>>>,
    <<453, <<452>>>>, <<454, <<452>>>>, <<456, <<455>>>>, <<457, <<455>>>>, <<459, <<458>>>>, <<460, <<458>>>>, <<462, <<461>>>>, <<464, <<463>>>>,
    <<466, <<465>>>>, <<468, <<467>>>>, <<470, <<469>>>>, <<472, <<471>>>>, <<474, <<473>>>>, <<476, <<475>>>>, <<477, <<398>>>>, <<479, <<478>>>>,
    <<481, <<480>>>>, <<483, <<482>>>>, <<485, <<484>>>>, <<487, <<486>>>>, <<489, <<488>>>>, <<491, <<490>>>>, <<493, <<492>>>>, <<495, <<494>>>>,
    <<496, <<74, 780>>>>, <<498, <<497>>>>, <<499, <<497>>>>, <<501, <<500>>>>, <<505, <<504>>>>, <<507, <<506>>>>, <<509, <<508>>>>, <<511, <<510>>>>,
    <<513, <<512>>>>, <<515, <<514>>>>, <<517, <<516>>>>, <<519, <<518>>>>, <<521, <<520>>>>, <<523, <<522>>>>, <<525, <<524>>>>, <<527, <<526>>>>,
    <<529, <<528>>>>, <<531, <<530>>>>, <<533, <<532>>>>, <<535, <<534>>>>, <<537, <<536>>>>, <<539, <<538>>>>, <<541, <<540>>>>, <<543, <<542>>>>,
    <<547, <<546>>>>, <<549, <<548>>>>, <<551, <<550>>>>, <<553, <<552>>>>, <<555, <<554>>>>, <<557, <<556>>>>, <<559, <<558>>>>, <<561, <<560>>>>,
    <<563, <<562>>>>, <<572, <<571>>>>, <<575, <<11390>>>>, <<576, <<11391>>>>, <<578, <<577>>>>, <<583, <<582>>>>, <<585, <<584>>>>, <<587, <<586>>>>,
    <<589, <<588>>>>, <<591, <<590>>>>, <<592, <<11375>>>>, <<593, <<11373>>>>, <<594, <<11376>>>>, <<595, <<385>>>>, <<596, <<390>>>>, <<598, <<393>>>>,
    <<599, <<394>>>>, <<601, <<399>>>>, <<603, <<400>>>>, <<604, <<42923>>>>, <<608, <<403>>>>, <<609, <<42924>>>>, <<611, <<404>>>>, <<613, <<42893>>>>,
    <<614, <<42922>>>>, <<616, <<407>>>>, <<617, <<406>>>>, <<618, <<42926>>>>, <<619, <<11362>>>>, <<620, <<42925>>>>, <<623, <<412>>>>, <<625, <<11374>>>>,
    <<626, <<413>>>>, <<629, <<415>>>>, <<637, <<11364>>>>, <<640, <<422>>>>, <<642, <<42949>>>>, <<643, <<425>>>>, <<647, <<42929>>>>, <<648, <<430>>>>,
    <<649, <<580>>>>, <<650, <<433>>>>, <<651, <<434>>>>, <<652, <<581>>>>, <<658, <<439>>>>, <<669, <<42930>>>>, <<670, <<42928>>>>, <<837, <<921>>>>,
    <<881, <<880>>>>, <<883, <<882>>>>, <<887, <<886>>>>, <<891, <<1021>>>>, <<892, <<1022>>>>, <<893, <<1023>>>>, <<912, <<921, 776, 769>>>>, <<940, <<902>>>>,
    <<941, <<904>>>>, <<942, <<905>>>>, <<943, <<906>>>>, <<944, <<933, 776, 769>>>>, <<945, <<913>>>>, <<946, <<914>>>>, <<947, <<915>>>>, <<948, <<916>>>>,
    <<949, <<917>>>>, <<950, <<918>>>>, <<951, <<919>>>>, <<952, <<920>>>>, <<953, <<921>>>>, <<954, <<922>>>>, <<955, <<923>>>>, <<956, <<924>>>>,
    <<957, <<925>>>>, <<958, <<926>>>>, <<959, <<927>>>>, <<960, <<928>>>>, <<961, <<929>>>>, <<962, <<931>>>>, <<963, <<931>>>>, <<964, <<932>>>>,
    <<965, <<933>>>>, <<966, <<934>>>>, <<967, <<935>>>>, <<968, <<936>>>>, <<969, <<937>>>>, <<970, <<938>>>>, <<971, <<939>>>>, <<972, <<908>>>>,
    <<973, <<910>>>>, <<974, <<911>>>>, <<976, <<914>>>>, <<977, <<920>>>>, <<981, <<934>>>>, <<982, <<928>>>>, <<983, <<975>>>>, <<985, <<984>>>>,
    <<987, <<986>>>>, <<989, <<988>>>>, <<991, <<990>>>>, <<993, <<992>>>>, <<995, <<994>>>>, <<997, <<996>>>>, <<999, <<998>>>>, <<1001, <<1000>>>>,
    <<1003, <<1002>>>>, <<1005, <<1004>>>>, <<1007, <<1006>>>>, <<1008, <<922>>>>, <<1009, <<929>>>>, <<1010, <<1017>>>>, <<1011, <<895>>>>, <<1013, <<917>>>>,
    <<1016, <<1015>>>>, <<1019, <<1018>>>>, <<1072, <<1040>>>>, <<1073, <<1041>>>>, <<1074, <<1042>>>>, <<1075, <<1043>>>>, <<1076, <<1044>>>>, <<1077, <<1045>>>>,
    <<1078, <<1046>>>>, <<1079, <<1047>>>>, <<1080, <<1048>>>>, <<1081, <<1049>>>>, <<1082, <<1050>>>>, <<1083, <<1051>>>>, <<1084, <<1052>>>>, <<1085, <<1053>>>>,
    <<1086, <<1054>>>>, <<1087, <<1055>>>>, <<1088, <<1056>>>>, <<1089, <<1057>>>>, <<1090, <<1058>>>>, <<1091, <<1059>>>>, <<1092, <<1060>>>>, <<1093, <<1061>>>>,
    <<1094, <<1062>>>>, <<1095, <<1063>>>>, <<1096, <<1064>>>>, <<1097, <<1065>>>>, <<1098, <<1066>>>>, <<1099, <<1067>>>>, <<1100, <<1068>>>>, <<1101, <<1069>>>>,
    <<1102, <<1070>>>>, <<1103, <<1071>>>>, <<1104, <<1024>>>>, <<1105, <<1025>>>>, <<1106, <<1026>>>>, <<1107, <<1027>>>>, <<1108, <<1028>>>>, <<1109, <<1029>>>>,
    <<1110, <<1030>>>>, <<1111, <<1031>>>>, <<1112, <<1032>>>>, <<1113, <<1033>>>>, <<1114, <<1034>>>>, <<1115, <<1035>>>>, <<1116, <<1036>>>>, <<1117, <<1037>>>>,
    <<1118, <<1038>>>>, <<1119, <<1039>>>>, <<1121, <<1120>>>>, <<1123, <<1122>>>>, <<1125, <<1124>>>>, <<1127, <<1126>>>>, <<1129, <<1128>>>>, <<1131, <<1130>>>>,
    <<1133, <<1132>>>>, <<1135, <<1134>>>>, <<1137, <<1136>>>>, <<1139, <<1138>>>>, <<1141, <<1140>>>>, <<1143, <<1142>>>>, <<1145, <<1144>>>>, <<1147, <<1146>>>>,
    <<1149, <<1148>>>>, <<1151, <<1150>>>>, <<1153, <<1152>>>>, <<1163, <<1162>>>>, <<1165, <<1164>>>>, <<1167, <<1166>>>>, <<1169, <<1168>>>>, <<1171, <<1170>>>>,
    <<1173, <<1172>>>>, <<1175, <<1174>>>>, <<1177, <<1176>>>>, <<1179, <<1178>>>>, <<1181, <<1180>>>>, <<1183, <<1182>>>>, <<1185, <<1184>>>>, <<1187, <<1186>>>>,
    <<1189, <<1188>>>>, <<1191, <<1190>>>>, <<1193, <<1192>>>>, <<1195, <<1194>>>>, <<1197, <<1196>>>>, <<1199, <<1198>>>>, <<1201, <<1200>>>>, <<1203, <<1202>>>>,
    <<1205, <<1204>>>>, <<1207, <<1206>>>>, <<1209, <<1208>>>>, <<1211, <<1210>>>>, <<1213, <<1212>>>>, <<1215, <<1214>>>>, <<1218, <<1217>>>>, <<1220, <<1219>>>>,
    <<1222, <<1221>>>>, <<1224, <<1223>>>>, <<1226, <<1225>>>>, <<1228, <<1227>>>>, <<1230, <<1229>>>>, <<1231, <<1216>>>>, <<1233, <<1232>>>>, <<1235, <<1234>>>>,
    <<1237, <<1236>>>>, <<1239, <<1238>>>>, <<1241, <<1240>>>>, <<1243, <<1242>>>>, <<1245, <<1244>>>>, <<1247, <<1246>>>>, <<1249, <<1248>>>>, <<1251, <<1250>>>>,
    <<1253, <<1252>>>>, <<1255, <<1254>>>>, <<1257, <<1256>>>>, <<1259, <<1258>>>>, <<1261, <<1260>>>>, <<1263, <<1262>>>>, <<1265, <<1264>>>>, <<1267, <<1266>>>>,
    <<1269, <<1268>>>>, <<1271, <<1270>>>>, <<1273, <<1272>>>>, <<1275, <<1274>>>>, <<1277, <<1276>>>>, <<1279, <<1278>>>>, <<1281, <<1280>>>>, <<1283, <<1282>>>>,
    <<1285, <<1284>>>>, <<1287, <<1286>>>>, <<1289, <<1288>>>>, <<1291, <<1290>>>>, <<1293, <<1292>>>>, <<1295, <<1294>>>>, <<1297, <<1296>>>>, <<1299, <<1298>>>>,
    <<1301, <<1300>>>>, <<1303, <<1302>>>>, <<1305, <<1304>>>>, <<1307, <<1306>>>>, <<1309, <<1308>>>>, <<1311, <<1310>>>>, <<1313, <<1312>>>>, <<1315, <<1314>>>>,
    <<1317, <<1316>>>>, <<1319, <<1318>>>>, <<1321, <<1320>>>>, <<1323, <<1322>>>>, <<1325, <<1324>>>>, <<1327, <<1326>>>> >>

LowerPairs == <<
    <<65, <<97>>>>, <<66, <<98>>>>, <<67, <<99>>>>, <<68, <<100>>>>, <<69, <<101>>>>, <<70, <<102>>>>, <<71, <<103>>>>, <<72, <<104>>>>,
    <<73, <<105>>>>, <<74, <<106>>>>, <<75, <<107>>>>, <<76, <<108>>>>, <<77, <<109>>>>, <<78, <<110>>>>, <<79, <<111>>>>, <<80, <<112>>>>,
    <<81, <<113>>>>, <<82, <<114>>>>, <<83, <<115>>>>, <<84, <<116>>>>, <<85, <<117>>>>, <<86, <<118>>>>, <<87, <<119>>>>, <<88, <<120>>>>,
    <<89, <<121>>>>, <<90, <<122>>>>, <<192, <<224>>>>, <<193, <<225>>>>, <<194, <<226>>>>, <<195, <<227>>>>, <<196, <<228>>>>, <<197, <<229>>>>,
    <<198, <<230>>>>, <<199, <<231>>>>, <<200, <<232>>>>, <<201, <<233>>>>, <<202, <<234>>>>, <<203, <<235>>>>, <<204, <<236>>>>, <<205, <<237>>>>,
    <<206, <<238>>>>, <<207, <<239>>>>, <<208, <<240>>>>, <<209, <<241>>>>, <<210, <<242>>>>, <<211, <<243>>>>, <<212, <<244>>>>, <<213, <<245>>>>,
    <<214, <<246>>>>, <<216, <<248>>>>, <<217, <<249>>>>, <<218, <<250>>>>, <<219, <<251>>>>, <<220, <<252>>>>, <<221, <<253>>>>, <<222, <<254>>>>,
    <<256, <<257>>>>, <<258, <<259>>>>, <<260, <<261>>>>, <<262, <<263>>>>, <<264, <<265>>>>, <<266, <<267>>>>, <<268, <<269>>>>, <<270, <<271>>>>,
    <<272, <<273>>>>, <<274, <<275>>>>, <<276, <<277>>>>, <<278, <<279>>>>, <<280, <<281>>>>, <<282, <<283>>>>, <<284, <<285>>>>, <<286, <<287>>>>,
    <<288, <<289>>>>, <<290, <<291>>>>, <<292, <<293>>>>, <<294, <<295>>>>, <<296, <<297>>>>, <<298, <<299>>>>, <<300, <<301>>>>, <<302, <<303>>>>,
    <<304, <<105, 775>>>>, <<306, <<307>>>>, <<308, <<309>>>>, <<310, <<311>>>>, <<313, <<314>>>>, <<315, <<316>>>>, <<317, <<318>>>>, <<319, <<320>>>>,
    <<321, <<322>>>>, <<323, <<324>>>>, <<325, <<326>>>>, <<327, <<328>>>>, <<330, <<331>>>>, <<332, <<333>>>>, <<334, <<335>>>>, <<336, <<337>>>>,
    <<338, <<339>>>>, <<340, <<341>>>>, <<342, <<343>>>>, <<344, <<345>>>>, <<346, <<347>>>>, <<348, <<349>>>>, <<350, <<351>>>>, <<352, <<353>>>>,
    <<354, <<355>>>>, <<356, <<357>>>>, <<358, <<359>>>>, <<360, <<361>>>>, <<362, <<363>>>>, <<364, <<365>>>>, <<366, <<367>>>>, <<368, <<369>>>>,
    <<370, <<371>>>>, <<372, <<373>>>>, <<374, <<375>>>>, <<376, <<255>>>>, <<377, <<378>>>>, <<379, <<380>>>>, <<381, <<382>>>>, <<385, <<595>>>>,
    <<386, <<387>>>>, <<388, <<389>>>>, <<390, <<596>>>>, <<391, <<392>>>>, <<393, <<598>>>>, <<394, <<599>>>>, <<395, <<396>>>>, <<398, <<477>>>>,
    <<399, <<601>>>>, <<400, <<603>>>>, <<401, <<402>>>>, <<403, <<608>>>>, <<404, <<611>>>>, <<406, <<617>>>>, <<407, <<616>>>>, <<408, <<409>>>>,
    <<412, <<623>>>>, <<413, <<626>>>>, <<415, <<629>>>>, <<416, <<417>>>>, <<418, <<419>>>>, <<420, <<421>>>>, <<422, <<640>>>>, <<423, <<424>>>>,
    <<425, <<643>>>>, <<428, <<429>>>>, <<430, <<648>>>>, <<431, <<432>>>>, <<433, <<650>>>>, <<434, <<651>>>>, <<435, <<436>>>>, <<437, <<438>>>>,
    <<439, <<658>>>>, <<440, <<441>>>>, <<444, <<445>>>>, <<452, <<454>>>>, <<453, <<454>>>>, <<455, <<457>>>>, <<456, <<457>>>>, <<458, <<460>>>>,
    <<459, <<460>>>>, <<461, <<462>>>>, <<463, <<464>>>>, <<465, <<466>>>>, <<467, <<468>>>>, <<469, <<470>>>>, <<471, <<472>>>>, <<473, <<474>>>>,
    <<475, <<476>>>>, <<478, <<479>>>>, <<480, <<481>>>>, <<482, <<483>>>>, <<484, <<485>>>>, <<486, <<487>>>>, <<488, <<489>>>>, <<490, <<491>>>>,
    <<492, <<493>>>>, <<494, <<495>>>>, <<497, <<499>>>>, <<498, <<499>>>>, <<500, <<501>>>>, <<502, <<405>>>>, <<503, <<447>>>>, <<504, <<505>>>>,
    <<506, <<507>>>>, <<508, <<509>>>>, <<510, <<511>>>>, <<512, <<513>>>>, <<514, <<515>>>>, <<516, <<517>>>>, <<518, <<519>>>>, <<520, <<521>>>>,
    <<522, <<523>>>>, <<524, <<525>>>>, <<526, <<527>>>>, <<528, <<529>>>>, <<530, <<531>>>>, <<532, <<533>>>>, <<534, <<535>>>>, <<536, <<537>>>>,
    <<538, <<539>>>>, <<540, <<541>>>>, <<542, <<543>>>>, <<544, <<414>>>>, <<546, <<547>>>>, <<548, <<549>>>>, <<550, <<551>>>>, <<552, <<553>>>>,
    <<554, <<555>>>>, <<556, <<557>>>>, <<558, <<559>>>>, <<560, <<561>>>>, <<562, <<563>>>>, <<570, <<11365>>>>, <<571, <<572>>>>, <<573, <<410>>>>,
    <<574, <<11366>>>>, <<577, <<578>>>>, <<579, <<384>>>>, <<580, <<649>>>>, <<581, <<652>>>>, <<582, <<583>>>>, <<584, <<585>>>>, <<586, <<587>>>>,
    <<588, <<589>>>>, <<590, <<591>>>>, <<880, <<881>>>>, <<882, <<883>>>>, <<886, <<887>>>>, <<895, <<1011>>>>, <<902, <<940>>>>, <<904, <<941>>>>,
    <<905, <<942>>>>, <<906, <<943>>>>, <<908, <<972>>>>, <<910, <<973>>>>, <<911, <<974>>>>, <<913, <<945>>>>, <<914, <<946>>>>, <<915, <<947>>>>,
    <<916, <<948>>>>, <<917, <<949>>>>, <<918, <<950>>>>, <<919, <<951>>>>, <<920, <<952>>>>, <<921, <<953>>>>, <<922, <<954>>>>, <<923, <<955>>>>,
    <<924, <<956>>>>, <<925, <<957>>>>, <<926, <<958>>>>, <<927, <<959>>>>, <<928, <<960>>>>, <<929, <<961>>>>, <<931, <<963>>>>, <<932, <<964>>>>,
    <<933, <<965>>>>, <<934, <<966>>>>, <<935, <<967>>>>, <<936, <<968>>>>, <<937, <<969>>>>, <<938, <<970>>>>, <<939, <<971>>>>, <<975, <<983>>>>,
    <<984, <<985>>>>, <<986, <<987>>>>, <<988, <<989>>>>, <<990, <<991>>>>, <<992, <<993>>>>, <<994, <<995>>>>, <<996, <<997>>>>, <<998, <<999>>>>,
    <<1000, <<1001>>>>, <<1002, <<1003>>>>, <<1004, <<1005>>>>, <<1006, <<1007>>>>, <<1012, <<952>>>>, <<1015, <<1016>>>>, <<1017, <<1010>>>>, <<1018, <<1019>>>>,
    <<1021, <<891>>>>, <<1022, <<892>>>>, <<1023, <<893>>>>, <<1024, <<1104>>>>, <<1025, <<1105>>>>, <<1026, <<1106>>>>, <<1027, <<1107>>>>, <<1028, <<1108>>>>,
    <<1029, <<1109>>>>, <<1030, <<1110>>>>, <<1031, <<1111>>>>, <<1032, <<1112>>>>, <<1033, <<1113>>>>, <<1034, <<1114>>>>, <<1035, <<1115>>>>, <<1036, <<1116>>>>,
    <<1037, <<1117>>>>, <<1038, <<1118>>>>, <<1039, <<1119>>>>, <<1040, <<1072>>>>, <<1041, <<1073>>>>, <<1042, <<1074>>>>, <<1043, <<1075>>>>, <<1044, <<1076>>>>,
    <<1045, <<1077>>>>, <<1046, <<1078>>>>, <<1047, <<1079>>>>, <<1048, <<1080>>>>, <<1049, <<1081>>>>, <<1050, <<1082>>>>, <<1051, <<1083>>>>, <<1052, <<1084>>>>,
    <<1053, <<1085>>>>, <<1054, <<1086>>>>, <<1055, <<1087>>>>, <<1056, <<1088>>>>, <<1057, <<1089>>>>, <<1058, <<1090>>>>, <<1059, <<1091>>>>, <<1060, <<1092>>>>,
    <<1061, <<1093>>>>, <<1062, <<1094>>>>, <<1063, <<1095>>>>, <<1064, <<1096>>>>, <<1065, <<1097>>>>, <<1066, <<1098>>>>, <<1067, <<1099>>>>, <<1068, <<1100>>>>,
    <<1069, <<1101>>>>, <<1070, <<1102>>>>, <<1071, <<1103>>>>, <<1120, <<1121>>>>, <<1122, <<1123>>>>, <<1124, <<1125>>>>, <<1126, <<1127>>>>, <<1128, <<1129>>>>,
    <<1130, <<1131>>>>, <<1132, <<1133>>>>, <<1134, <<1135>>>>, <<1136, <<1137>>>>, <<1138, <<1139>>>>, <<1140, <<1141>>>>, <<1142, <<1143>>>>, <<1144, <<1145>>>>,
    <<1146, <<1147>>>>, <<1148, <<1149>>>>, <<1150, <<1151>>>>, <<1152, <<1153>>>>, <<1162, <<1163>>>>, <<1164, <<1165>>>>, <<1166, <<1167>>>>, <<1168, <<1169>>>>,
    <<1170, <<1171>>>>, <<1172, <<1173>>>>, <<1174, <<1175>>>>, <<1176, <<1177>>>>, <<1178, <<1179>>>>, <<1180, <<1181>>>>, <<1182, <<1183>>>>, <<1184, <<1185>>>>,
    <<1186, <<1187>>>>, <<1188, <<1189>>>>, <<1190, <<1191>>>>, <<1192, <<1193>>>>, <<1194, <<1195>>>>, <<1196, <<1197>>>>, <<1198, <<1199>>>>, <<1200, <<1201>>>>,
    <<1202, <<1203>>>>, <<1204, <<1205>>>>, <<1206, <<1207>>>>, <<1208, <<1209>>>>, <<1210, <<1211>>>>, <<1212, <<1213>>>>, <<1214, <<1215>>>>, <<1216, <<1231>>>>,
    <<1217, <<1218>>>>, <<1219, <<1220>>>>, <<1221, <<1222>>>>, <<1223, <<1224>>>>, <<1225, <<1226>>>>, <<1227, <<1228>>>>, <<1229, <<1230>>>>, <<1232, <<1233>>>>,
    <<1234, <<1235>>>>, <<1236, <<1237>>>>, <<1238, <<1239>>>>, <<1240, <<1241>>>>, <<1242, <<1243>>>>, <<1244, <<1245>>>>, <<1246, <<1247>>>>, <<1248, <<1249>>>>,
    <<1250, <<1251>>>>, <<1252, <<1253>>>>, <<1254, <<1255>>>>, <<1256, <<1257>>>>, <<1258, <<1259>>>>, <<1260, <<1261>>>>, <<1262, <<1263>>>>, <<1264, <<1265>>>>,
    <<1266, <<1267>>>>, <<1268, <<1269>>>>, <<1270, <<1271>>>>, <<1272, <<1273>>>>, <<1274, <<1275>>>>, <<1276, <<1277>>>>, <<1278, <<1279>>>>, <<1280, <<1281>>>>,
    <<1282, <<1283>>>>, <<1284, <<1285>>>>, <<1286, <<1287>>>>, <<1288, <<1289>>>>, <<1290, <<1291>>>>, <<1292, <<1293>>>>, <<1294, <<1295>>>>, <<1296, <<1297>>>>,
    <<1298, <<1299>>>>, <<1300, <<1301>>>>, <<1302, <<1303>>>>, <<1304, <<1305>>>>, <<1306, <<1307>>>>, <<1308, <<1309>>>>, <<1310, <<1311>>>>, <<1312, <<1313>>>>,
    <<1314, <<1315>>>>, <<1316, <<1317>>>>, <<1318, <<1319>>>>, <<1320, <<1321>>>>, <<1322, <<1323>>>>, <<1324, <<1325>>>>, <<1326, <<1327>>>> >>
=============================================================================
