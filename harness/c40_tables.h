// generated by tools/gen_oracle.py; do not edit
#pragma once
struct Piece { double lo, hi, c, h, err; int n; double a[24]; };
static const Piece P_H0[] = {
  {0.0, 1.0, 0.5, 0.5, 4.918520482126401e-12, 9, {0.3095559145837547, 0.2922230140193282, -0.02565105326131807, -0.00797341927469454, 0.000426482358120405, 7.911793685710487e-05, -3.042149861090454e-06, -3.9916214709874995e-07, 1.1993566253095434e-08}},
  {1.0, 2.0, 1.5, 0.5, 1.0232535065470292e-12, 9, {0.7367234656043998, 0.1131656481921446, -0.05789972686747677, -0.0020808996336629344, 0.0009405966538768476, 1.643399281721394e-05, -6.623009344776859e-06, -7.132216436186597e-08, 2.5896990590735277e-08}},
  {2.0, 3.0, 2.5, 0.5, 4.033319227739678e-12, 9, {0.7299577377373715, -0.11326721710966717, -0.04808700688277824, 0.005048086686916578, 0.0007165462879692595, -5.752930974283868e-05, -4.796125668717734e-06, 3.0938950427559715e-07, 1.814452707680914e-08}},
  {3.0, 4.0, 3.5, 0.5, 5.226504435887976e-12, 9, {0.36082077337782953, -0.227476272911634, -0.0061178710196872375, 0.007913089101660784, -4.336267228345087e-05, -8.303087570093289e-05, 8.258832982116763e-07, 4.2699489306915834e-07, -4.450766236278598e-09}},
  {4.0, 5.0, 4.5, 0.5, 2.359677770941184e-12, 9, {-0.05854331596920385, -0.1646772903028179, 0.03415053541107981, 0.004602918087520201, -0.0007138485576380148, -4.151364800470533e-05, 5.530619555636366e-06, 1.9126584785920914e-07, -2.2681121424754103e-08}},
  {5.0, 6.0, 5.5, 0.5, 2.8082342010972188e-12, 9, {-0.22684990543059236, 0.0021193729665003255, 0.04272853423121371, -0.0018186350856685147, -0.0007701938674318091, 3.019076472155152e-05, 5.508681968128291e-06, -1.9069344394546198e-07, -2.1437341015348543e-08}},
  {6.0, 7.0, 6.5, 0.5, 4.992538516102297e-12, 9, {-0.07728023128723159, 0.12993033694067727, 0.01690539618764591, -0.0060330137874916095, -0.00021235892401505956, 7.222357607625837e-05, 1.0071145751616729e-06, -3.9620619993989756e-07, -2.4302117589202216e-09}},
  {7.0, 8.0, 7.5, 0.5, 3.2617132177190166e-12, 9, {0.20086479668164503, 0.12415334615395755, -0.01863621491678523, -0.004902737271072099, 0.00046095613402964773, 5.222873946834283e-05, -4.019147940265293e-06, -2.623647678706749e-07, 1.769871440270139e-08}},
  {8.0, 9.0, 8.5, 0.5, 1.558229524868093e-12, 9, {0.34416526024406624, 0.00883440763114074, -0.03391843757074069, 0.00011849202374896256, 0.0006905800133611749, -9.038428858277428e-06, -5.369734237015626e-06, 8.197728247064123e-08, 2.1959883288054093e-08}},
  {9.0, 10.0, 9.5, 0.5, 4.475640547474091e-12, 9, {0.2375406397318753, -0.10501438698925829, -0.018552467512934448, 0.004505640245803927, 0.0003238028451479838, -5.774683233062338e-05, -2.141647844501298e-06, 3.3636688252649144e-07, 7.484595023739895e-09}},
  {10.0, 11.0, 10.5, 0.5, 3.720861668402722e-12, 9, {-0.007412346661406157, -0.11966911716782497, 0.011354614840560787, 0.004640455859717603, -0.00028356567862467257, -5.396034891373068e-05, 2.6628814879389786e-06, 2.908155620904726e-07, -1.2539736495222139e-08}},
  {11.0, 12.0, 11.5, 0.5, 4.828433739078252e-13, 9, {-0.17026804865989886, -0.03132858533711269, 0.028884342417911494, 0.0007765870479906909, -0.0005987032558075225, -4.58100442349189e-06, 4.873703222845005e-06, 7.345927652797726e-10, -2.0766946787460087e-08}},
  {12.0, 13.0, 12.5, 0.5, 3.7977471565251836e-12, 9, {-0.1205942542313132, 0.07491792603103038, 0.019942120980385357, -0.0034523792772069876, -0.0003743210549456618, 4.5160358925452864e-05, 2.7646927472812213e-06, -2.7235083218617903e-07, -1.0741351582365232e-08}},
  {13.0, 14.0, 13.5, 0.5, 3.859480096375141e-12, 9, {0.07698664382041044, 0.1052916404874481, -0.005678548149624203, -0.004365746719137029, 0.00015833028018061952, 5.250789802543964e-05, -1.5925901164698589e-06, -2.9472514647510503e-07, 7.995435729352448e-09}},
  {14.0, 15.0, 14.5, 0.5, 7.691928636002643e-13, 9, {0.2340059415726384, 0.03902734982986938, -0.024435526550839134, -0.0014006186986597457, 0.0005172594557965649, 1.3770815426438225e-05, -4.303652925420346e-06, -6.060720443935743e-08, 1.8816678411983454e-08}},
  {15.0, 16.0, 15.5, 0.5, 3.0943506144918263e-12, 9, {0.2115520404189839, -0.05870234943406093, -0.020363162540834968, 0.002599504204190414, 0.0004007918020301304, -3.462458315467545e-05, -3.107865640448409e-06, 2.1336634970594294e-07, 1.2717095894845442e-08}}};
static const Piece P_H1[] = {
  {0.0, 1.0, 0.5, 0.5, 2.5800665484403776e-12, 9, {0.05217374424234107, 0.10260421302823307, 0.047840519110091954, -0.0034118586945970997, -0.0007912001344047586, 3.6505389496058484e-05, 5.627025331005191e-06, -1.916245218906616e-07, -2.2142605076903466e-08}},
  {1.0, 2.0, 1.5, 0.5, 5.103338102704743e-12, 9, {0.41028847596941564, 0.23159890743332562, 0.012485398356826686, -0.007524772865256108, -0.00016434325642278877, 7.94752344056794e-05, 1.0047219106993137e-06, -4.137667374798786e-07, -3.5490091721328585e-09}},
  {2.0, 3.0, 2.5, 0.5, 3.650580123161261e-12, 9, {0.8631542066565353, 0.19234802750607422, -0.03028852290510845, -0.005732370053403926, 0.0005753097943781107, 5.7552907244239614e-05, -4.36261442836106e-06, -2.899119415422554e-07, 1.7803809076899743e-08}},
  {3.0, 4.0, 3.5, 0.5, 1.266682073750907e-12, 9, {1.091572318284191, 0.02447148408618677, -0.047478538342083286, 0.00034690130390195226, 0.0008303311435401263, -9.910421121085789e-06, -6.01970845446131e-06, 7.1093297722308e-08, 2.3870727312436293e-08}},
  {4.0, 5.0, 4.5, 0.5, 4.657500413929124e-12, 9, {0.9659743530116511, -0.13660214161137643, -0.02761751006188237, 0.005710788131727088, 0.0004151456982314299, -6.636664424450637e-05, -2.6949259713394515e-06, 3.6237103296168285e-07, 9.829553976416074e-09}},
  {5.0, 6.0, 5.5, 0.5, 4.28406618206253e-12, 9, {0.6323810263876727, -0.17091413689487397, 0.01091181238949161, 0.006161550639690955, -0.0003019188967482968, -6.610346425739797e-05, 2.6907028768747476e-06, 3.425179172416458e-07, -1.1995035674205224e-08}},
  {6.0, 7.0, 6.5, 0.5, 4.811195919280349e-13, 9, {0.3767590983964179, -0.06762158474878846, 0.03619808631578339, 0.001698871374169606, -0.000722257299685856, -1.2085331821149452e-05, 5.587084685393526e-06, 3.885466823422223e-08, -2.2966748073360464e-08}},
  {7.0, 8.0, 7.5, 0.5, 3.865545037124704e-12, 9, {0.3883130800042056, 0.0745448596402304, 0.029416425843970296, -0.0036876488031749827, -0.0005223006963603575, 4.822912960278091e-05, 3.697931815616852e-06, -2.827490096343841e-07, -1.4183724138423383e-08}},
  {8.0, 9.0, 8.5, 0.5, 4.463973910276844e-12, 9, {0.6189509571294519, 0.13567375025128947, -0.000710953108094833, -0.005524639790205483, 9.039008026773241e-05, 6.443605088070784e-05, -1.158490538557796e-06, -3.5085152738762486e-07, 6.175236163248057e-09}},
  {9.0, 10.0, 9.5, 0.5, 1.4985851479453686e-12, 9, {0.8466485464256736, 0.07420987004245648, -0.027033844656462885, -0.002590422668383147, 0.0005774874075927249, 2.5699551432052885e-05, -4.744752959034309e-06, -1.1960506181915058e-07, 2.034917489598863e-08}},
  {10.0, 11.0, 10.5, 0.5, 2.945332422080599e-12, 9, {0.8759580067678335, -0.045418459342170876, -0.027842737741325434, 0.0022685252283080495, 0.0005396189829762383, -3.195409625425403e-05, -4.100333996425919e-06, 2.003147419966516e-07, 1.652105632844348e-08}},
  {11.0, 12.0, 11.5, 0.5, 4.308922487764761e-12, 9, {0.6992769430369574, -0.11553736964073172, -0.004659522094128313, 0.004789625737366344, 4.5808881959518796e-05, -5.848369692678677e-05, -8.11554386689391e-09, 3.3177668743221547e-07, -1.238934591927539e-09}},
  {12.0, 13.0, 12.5, 0.5, 2.2152249869605805e-12, 9, {0.48678392023884315, -0.07976848390687954, 0.02071427832914192, 0.002994568292967759, -0.00045161957987002445, -3.317596116737546e-05, 3.842754421520915e-06, 1.7162710821389212e-07, -1.705027889299364e-08}},
  {13.0, 14.0, 13.5, 0.5, 2.0507137495104492e-12, 9, {0.42603649132475846, 0.022714192584975843, 0.0261944830307295, -0.0012666421062587638, -0.0005250952710622844, 1.911075698836649e-05, 4.156555378515737e-06, -1.2771071671904164e-07, -1.7370681902447674e-08}},
  {14.0, 15.0, 14.5, 0.5, 3.997140433969672e-12, 9, {0.5585650726975682, 0.09774210617464839, 0.008403712602818835, -0.004138075359337209, -0.00013771061895821311, 5.1643146294135314e-05, 8.53100999582955e-07, -3.0060768247412076e-07, -2.628382386523435e-09}},
  {15.0, 16.0, 15.5, 0.5, 2.6781132240926136e-12, 9, {0.7540244712892465, 0.08145265014510379, -0.015597027365892073, -0.0032063342339078964, 0.0003462586721094279, 3.7293950130134844e-05, -3.0110927008446414e-06, -2.03181851915207e-07, 1.3691355137928449e-08}}};
static const Piece P_Y0[] = {
  {1.0, 2.0, 1.5, 0.5, 2.392308238397589e-12, 14, {0.38244892379611495, 0.20615431348746904, -0.08216516756160698, 0.0043573724400441756, -0.0008091985338531866, 0.0005036741019769027, -0.0001452545485086844, 4.010838766473755e-05, -1.1843351404751282e-05, 3.538676151277783e-06, -1.0013366018373018e-06, 3.0380980225973343e-07, -1.4002960585399367e-07, 4.331335599133277e-08}},
  {2.0, 3.0, 2.5, 0.5, 1.5135850340349515e-12, 11, {0.4980703596152319, -0.07295906896981516, -0.05496288805606556, 0.006217759680232415, 0.0005163923457790564, -2.2936035154505814e-05, -1.0843556320645827e-05, 1.377203699398611e-06, -1.720918591622965e-07, 3.680128240592511e-08, -6.925262310419374e-09}},
  {3.0, 4.0, 3.5, 0.5, 2.2485283626513015e-12, 9, {0.1890219439208265, -0.20509420895554753, -0.008978156629791154, 0.008275524113718966, -8.921901554330701e-05, -7.721573021440339e-05, 8.430314485281117e-08, 5.259016804448617e-07, -1.7233960500068884e-08}},
  {4.0, 5.0, 4.5, 0.5, 1.6519839579743572e-12, 9, {-0.19470500862950454, -0.15049866152132627, 0.032699162829148115, 0.004750029251152395, -0.0007286917939054323, -4.001761681986104e-05, 5.3795804739660325e-06, 2.0692649854899696e-07, -2.427342426276065e-08}},
  {5.0, 6.0, 5.5, 0.5, 2.898815187274653e-12, 9, {-0.339480592881911, 0.011879119453856422, 0.04189511413215642, -0.0017481494766600739, -0.0007761211542191915, 3.068779601387908e-05, 5.467024321931632e-06, -1.8714218207351147e-07, -2.1735854270497507e-08}},
  {6.0, 7.0, 6.5, 0.5, 5.0124247718451175e-12, 9, {-0.17324243491898234, 0.13704563693454794, 0.016384318327095533, -0.005995191511053069, -0.00021508791404803502, 7.241976300900506e-05, 9.930350946305261e-07, -3.951843184688477e-07, -2.5035649758098656e-09}},
  {7.0, 8.0, 7.5, 0.5, 3.2674275068818617e-12, 9, {0.11731328614820863, 0.1295642552152796, -0.01898296927494135, -0.004880692980586446, 0.00045956281715133065, 5.231645572958838e-05, -4.0246569031918155e-06, -2.6201611535116504e-07, 1.7676850125035995e-08}},
  {8.0, 9.0, 8.5, 0.5, 1.5566581381443086e-12, 9, {0.27020510536578746, 0.013084339711329999, -0.0341604716893078, 0.0001321779440728726, 0.0006898103501282428, -8.995317858185266e-06, -5.372142440783421e-06, 8.211252134306843e-08, 2.1952348191834654e-08}},
  {9.0, 10.0, 9.5, 0.5, 4.475105758975089e-12, 9, {0.17121062620272384, -0.10158994965382112, -0.018727908545980596, 0.004514571738601389, 0.0003233504422434532, -5.7724005960078824e-05, -2.142796296764139e-06, 3.3642487783653164e-07, 7.481686536050716e-09}},
  {10.0, 11.0, 10.5, 0.5, 3.720633079831744e-12, 9, {-0.0675303724978764, -0.11685211414633513, 0.01122348975570817, 0.004646525232249392, -0.00028384531518319396, -5.3947512697577146e-05, 2.66229393832741e-06, 2.9084252521722105e-07, -1.2540966245900797e-08}},
  {11.0, 12.0, 11.5, 0.5, 4.829333102595206e-13, 9, {-0.22523211169118787, -0.028971273573925867, 0.028783824254497038, 0.0007808518724447903, -0.0005988834439280957, -4.573417919013238e-06, 4.873384691132442e-06, 7.479907257628757e-10, -2.0767507207124003e-08}},
  {12.0, 13.0, 12.5, 0.5, 3.797785859994579e-12, 9, {-0.1712143068446693, 0.07691912823541151, 0.01986340578929144, -0.003449296876266534, -0.00037444129566311177, 4.516503419455923e-05, 2.764511444068655e-06, -2.7234379281679197e-07, -1.0741623524255518e-08}},
  {13.0, 14.0, 13.5, 0.5, 3.859487262588649e-12, 9, {0.030077009046785588, 0.10701146513605095, -0.0057413199294469, -0.004363464747316007, 0.0001582476122956109, 5.251088379727938e-05, -1.5926976831287685e-06, -2.9472126809495036e-07, 7.995296532012373e-09}},
  {14.0, 15.0, 14.5, 0.5, 7.69203900608803e-13, 9, {0.19030189118784452, 0.04052104545923207, -0.02448637511158737, -0.001398893908277476, 0.0005172011369593251, 1.3772781821052366e-05, -4.303719070102768e-06, -6.060497835682955e-08, 1.881660380760464e-08}},
  {15.0, 16.0, 15.5, 0.5, 3.0943397247649573e-12, 9, {0.17064491122943462, -0.05739307122989954, -0.020404919204850214, 0.002600831638982409, 0.00040074972590633525, -3.462325289179718e-05, -3.107907603138051e-06, 2.1336767379216214e-07, 1.2717054275561726e-08}}};
static const Piece P_Y1[] = {
  {1.0, 2.0, 1.5, 0.5, 4.165491171753805e-12, 15, {-0.4123086269739113, 0.32866067093182705, -0.02614423495573151, 0.006473566226059525, -0.00503673250220711, 0.0017432537772673472, -0.000561589486344073, 0.00018873234993070488, -6.34301504706585e-05, 2.1426071883010752e-05, -7.162470553154494e-06, 2.1367834830039518e-06, -7.135171863925585e-07, 4.0873610125708936e-07, -1.3636316713349299e-07}},
  {2.0, 3.0, 2.5, 0.5, 6.938919185756427e-12, 11, {0.1459181379667858, 0.219851552275258, -0.03730655972019183, -0.004131139584311515, 0.00022937571050937682, 0.000130126118257615, -1.9330153581772635e-05, 2.748216738874904e-06, -5.988814954153477e-07, 1.4113464752090656e-07, -2.829543429260982e-08}},
  {3.0, 4.0, 3.5, 0.5, 1.5757271995503607e-12, 10, {0.4101884178861472, 0.03591262654809261, -0.04965314367740306, 0.0007137513497860627, 0.0007721512446201385, -1.0074473860977337e-06, -7.351278678775888e-06, 2.682854109292638e-07, -6.498844612118146e-09, 4.146561663528677e-09}},
  {4.0, 5.0, 4.5, 0.5, 3.4817372671012706e-12, 9, {0.3009973230696546, -0.13079665129308515, -0.028500176585429415, 0.0058295341163097664, 0.00040018263300990644, -6.455440207005987e-05, -2.9090302487090945e-06, 3.879991496026394e-07, 6.887418045400342e-09}},
  {5.0, 6.0, 5.5, 0.5, 4.100243278460966e-12, 9, {-0.023758238956389618, -0.16758045649984565, 0.010488898806295392, 0.006208968946005876, -0.0003068896352059807, -6.560360135327482e-05, 2.641780085885575e-06, 3.4731336861549e-07, -1.2449483514374056e-08}},
  {6.0, 7.0, 6.5, 0.5, 4.4881621511782235e-13, 9, {-0.27409127395927546, -0.06553727330680113, 0.03597115267199612, 0.0017207032965760947, -0.0007242192581390383, -1.191638319878901e-05, 5.572944795368452e-06, 4.003174979434061e-08, -2.3061898086937244e-08}},
  {7.0, 8.0, 7.5, 0.5, 3.871844609451214e-12, 9, {-0.25912851048611624, 0.07593187707280631, 0.029284160104917346, -0.003676502267662679, -0.0005231778821508237, 4.82952359917877e-05, 3.693093962270371e-06, -2.8239840365555677e-07, -1.4208463658964347e-08}},
  {8.0, 9.0, 8.5, 0.5, 4.465888084712038e-12, 9, {-0.02616867939853747, 0.13664188672554478, -0.000793068628857022, -0.005518482484210196, 8.99589631762425e-05, 6.446494900946961e-05, -1.1603706431205953e-06, -3.5073075485286773e-07, 6.1676689662365295e-09}},
  {9.0, 10.0, 9.5, 0.5, 1.4992541476564887e-12, 9, {0.20317989938720768, 0.07491163417463696, -0.027087433612837473, -0.0025868034451057473, 0.0005772591414253707, 2.571333276041981e-05, -4.745560296711112e-06, -1.1955846015110373e-07, 2.0346547759076257e-08}},
  {10.0, 11.0, 10.5, 0.5, 2.9451580064013767e-12, 9, {0.2337042283572686, -0.044893959002761843, -0.027879153976358505, 0.0022707623207905954, 0.000539490619868459, -3.194704569341859e-05, -4.100709713528781e-06, 2.003344410117559e-07, 1.652004665207354e-08}},
  {11.0, 12.0, 11.5, 0.5, 4.308800146618479e-12, 9, {0.057942547143000823, -0.11513529698707445, -0.0046851110407870305, 0.004791067242336434, 4.573301651936968e-05, -5.8479874559450284e-05, -8.30237718088161e-09, 3.3178566295698277e-07, -1.2393564346363481e-09}},
  {12.0, 13.0, 12.5, 0.5, 2.215175022943094e-12, 9, {-0.1538382565375012, -0.0794536231425041, 0.02069578392352872, 0.002995530218709636, -0.00045166633273823625, -3.317378553429089e-05, 3.8426562010728934e-06, 1.716314629285136e-07, -1.7050467897858253e-08}},
  {13.0, 14.0, 13.5, 0.5, 2.050741120710183e-12, 9, {-0.21402293034002892, 0.02296527970426653, 0.026180791199817404, -0.0012659807631776891, -0.0005251251288649126, 1.9112047785859324e-05, 4.156501238443568e-06, -1.277084879521296e-07, -1.7370771767818294e-08}},
  {14.0, 15.0, 14.5, 0.5, 3.997165659524443e-12, 9, {-0.08104209092873875, 0.09794550041764127, 0.008393363860532242, -0.00413760880863882, -0.00013773028294650571, 5.1643940029196485e-05, 8.530699131181558e-07, -3.006064880521029e-07, -2.6284273561651696e-09}},
  {15.0, 16.0, 15.5, 0.5, 2.678100264243281e-12, 9, {0.11478614251334232, 0.08161967680116475, -0.015604991974640367, -0.003205997624917305, 0.0003462453694585919, 3.729445368185715e-05, -3.0111111968816307e-06, -2.031811856377147e-07, 1.3691331610516981e-08}}};
static const Piece P_K0[] = {
  {0.0009765625, 0.015625, 0.00830078125, 0.00732421875, 6.398441766213388e-13, 6, {0.6365759345294398, -7.731305099274225e-05, -3.402441088134407e-05, 7.410754864270676e-08, 1.603848677588979e-08, -1.450164938347332e-10}},
  {0.015625, 0.03125, 0.0234375, 0.0078125, 4.887465382213574e-13, 6, {0.6362717724429166, -0.00023087780396774342, -3.774129758613582e-05, 2.3975669342152626e-07, 1.7414312996145004e-08, -4.6154579824878004e-10}},
  {0.03125, 0.0625, 0.046875, 0.015625, 1.2049840015785474e-12, 7, {0.6352472326075862, -0.0008983431870573767, -0.00013911381435382307, 3.222652441938292e-06, 1.539067402345048e-07, -1.6482443842526488e-08, 3.3458618755291134e-10}}};
static const Piece P_K1[] = {
  {0.0009765625, 0.015625, 0.00830078125, 0.00732421875, 2.0855709746129963e-12, 5, {0.6366636283023152, 7.737684870419358e-05, 3.4108697685036676e-05, -2.47506269992934e-08, -5.406581649172788e-09}},
  {0.015625, 0.03125, 0.0234375, 0.0078125, 6.393313585197077e-12, 5, {0.6369689064161215, 0.00023237796005683785, 3.8479632831858804e-05, -8.191296953962355e-08, -6.302359094439682e-09}},
  {0.03125, 0.0625, 0.046875, 0.015625, 5.762255960351483e-13, 6, {0.6380096575793285, 0.0009208083233935012, 0.00014972386535363048, -1.1788854811176415e-06, -7.207643160489344e-08, 4.13083950137134e-09}}};
static const Piece P_EIS[] = {
  {0.0, 1.0, 0.5, 0.5, 3.856391171160944e-12, 9, {1.1473670854231188, 0.6487212706669826, 0.08781968232347082, 0.010150265171072403, 0.0009743914246277539, 7.91942812612385e-05, 5.562451580062946e-06, 3.4560419599362634e-07, 1.9005770673223733e-08}},
  {1.0, 2.0, 1.5, 0.5, 9.561675465472505e-12, 9, {2.8958203410216337, 1.1605630233638675, 0.1800469186167616, 0.022235256267592946, 0.0022218964483321823, 0.00018556137158370236, 1.3293151897099284e-05, 8.385308142556504e-07, 4.6659900228371356e-08}},
  {2.0, 3.0, 2.5, 0.5, 5.454626644924136e-13, 10, {6.1574751627049675, 2.2364987921407167, 0.3854748187949901, 0.05012414049528567, 0.005171477010152393, 0.00044157350813629856, 3.215464776825363e-05, 2.0412795931817244e-06, 1.1554122398106212e-07, 5.833927294570347e-09}},
  {3.0, 4.0, 3.5, 0.5, 1.3767309158999852e-12, 10, {12.672591026658287, 4.5879217083846715, 0.8549860192884474, 0.11568854552711043, 0.01224427240427268, 0.0010646019832644105, 7.858913807810864e-05, 5.042950239500864e-06, 2.879564124729644e-07, 1.4644169298391375e-08}},
  {4.0, 5.0, 4.5, 0.5, 3.492484057626583e-12, 10, {26.429619301166653, 9.890792366724789, 1.9509874044736006, 0.2722283927071098, 0.02940754922573434, 0.0025953205280877445, 0.00019379919745823372, 1.2550303386921363e-05, 7.220859056538313e-07, 3.695285955448699e-08}},
  {5.0, 6.0, 5.5, 0.5, 8.903483796469253e-12, 10, {56.76076615759404, 22.153812024020397, 4.554188822668855, 0.6508519359466375, 0.07148165752097863, 0.006387126638801508, 0.00048159992760464477, 3.143463253605766e-05, 1.8205700954176292e-06, 9.368230003903027e-08}}};
static const Piece P_E1S[] = {
  {0.0, 0.5, 0.25, 0.25, 3.038198110909165e-13, 8, {-0.34201172667585605, 0.22119921692858785, -0.013249510589855004, 0.0007204988968209502, -3.33423652177032e-05, 1.3223409450681838e-06, -4.571143338381602e-08, 1.3925130280006675e-09}},
  {0.5, 1.0, 0.75, 0.25, 1.9526159654401742e-13, 8, {0.05265874045963958, 0.17587781575299044, -0.009631029600719468, 0.0005000671574925478, -2.250665626780062e-05, 8.762772565173314e-07, -2.989659381949338e-08, 9.019082207499567e-10}}};
static const Piece P_EIU[] = {
  {0.0009765625, 0.020833333333333332, 0.010904947916666666, 0.009928385416666666, 1.84734722081819e-12, 7, {1.0111509236678766, 0.010384038975940046, 0.00021835269605572505, 7.057240802579102e-06, 3.1193827851512444e-07, 1.788240471520911e-08, 1.256951070533433e-09}},
  {0.020833333333333332, 0.041666666666666664, 0.03125, 0.010416666666666666, 1.8841189121959308e-12, 8, {1.0334135642143751, 0.011940163567946119, 0.00029892595906112643, 1.2321132990101129e-05, 7.582379840275265e-07, 6.790536244500544e-08, 9.479490669705914e-09, 1.6262868324331227e-09}},
  {0.041666666666666664, 0.05555555555555555, 0.048611111111111105, 0.006944444444444444, 8.532624864337977e-12, 7, {1.0542082170659004, 0.00870460684308113, 0.00016794317303179184, 6.099713857846043e-06, 3.857604271760956e-07, 2.705078956287966e-08, -2.7377120500617833e-10}},
  {0.05555555555555555, 0.08333333333333333, 0.06944444444444445, 0.013888888888888888, 9.691575652040313e-12, 9, {1.0820348167308271, 0.019853308921748313, 0.0009920757491146896, 9.227811652987569e-05, 4.3809399612269424e-06, -2.0025868220867145e-06, -3.7308657473510196e-07, 4.834833887631698e-08, 1.178332734964816e-08}},
  {0.08333333333333333, 0.1, 0.09166666666666667, 0.008333333333333338, 1.0699770010448054e-12, 8, {1.1167209932808568, 0.014236266673518466, 0.0005034471040502084, 1.1712206341858073e-05, -2.079824616336196e-06, -1.4963832174356738e-07, 1.4261187581328894e-08, 6.721106637777469e-10}},
  {0.1, 0.125, 0.1125, 0.012499999999999997, 2.78135164126861e-12, 8, {1.1555491101214337, 0.02523440516568772, 0.0011226812107463177, -4.598747741524653e-05, -1.280789115357918e-05, 4.856311989028292e-07, 1.124212150552045e-07, -1.2194119036305437e-08}},
  {0.125, 0.14285714285714285, 0.13392857142857142, 0.008928571428571425, 3.3599607168436474e-13, 8, {1.2017746177378823, 0.020320612980479585, 0.00035490323719517935, -4.075526916242494e-05, -1.5000493647412664e-06, 1.755750035305869e-07, -1.2521743975642887e-09, -5.996543266976603e-10}},
  {0.14285714285714285, 0.16666666666666666, 0.15476190476190477, 0.011904761904761904, 5.790377972096816e-12, 7, {1.2505711646914925, 0.028346465620457482, 7.402306429572739e-05, -0.00010904618648812305, 8.005163063638804e-07, 4.846335216295241e-07, -3.184986298330511e-08}}};
static const Piece P_E1U[] = {
  {0.0009765625, 0.03125, 0.01611328125, 0.01513671875, 6.475656631141006e-12, 7, {0.9843823915878217, -0.014226321181363645, 0.0003993470332549884, -1.63495413641038e-05, 8.687356593312912e-07, -5.6875245915236365e-08, 4.321233933018545e-09}},
  {0.03125, 0.0625, 0.046875, 0.015625, 2.0498954753383106e-12, 7, {0.9569960633634126, -0.013192916163132971, 0.00033815642184491354, -1.2167484494980885e-05, 5.493239965667546e-07, -2.9519343585275445e-08, 1.7963884214240138e-09}},
  {0.0625, 0.125, 0.09375, 0.03125, 3.3611270910245433e-12, 8, {0.9201706542464757, -0.022885877636389898, 0.001008351698141782, -6.002853225254216e-05, 4.345548866613916e-06, -3.6219536691725317e-07, 3.438595220020382e-08, -3.4900961928392374e-09}},
  {0.125, 0.16666666666666666, 0.14583333333333331, 0.02083333333333333, 9.240085992397009e-13, 7, {0.8845800850434573, -0.013304177095693641, 0.0003408993282920213, -1.1471312048966335e-05, 4.593034252654196e-07, -2.090371972787442e-08, 1.0404335549208387e-09}},
  {0.16666666666666666, 0.25, 0.20833333333333331, 0.04166666666666667, 1.685864364742052e-12, 8, {0.8474587196253984, -0.02305211476708414, 0.0010314751746537097, -5.917402645971468e-05, 3.968175709184502e-06, -2.9697535651656055e-07, 2.4526472461550065e-08, -2.130501349119828e-09}},
  {0.25, 0.375, 0.3125, 0.0625, 6.850223870445327e-12, 8, {0.7954814223214629, -0.028204394754493385, 0.0015770964968892828, -0.00011002880595607684, 8.800816962829513e-06, -7.742472431603756e-07, 7.468474017415755e-08, -7.46962529429095e-09}},
  {0.375, 0.5, 0.4375, 0.0625, 1.1852638370709614e-12, 8, {0.7446207436851283, -0.022985247036293868, 0.0010799326536809744, -6.194605392538555e-05, 4.0135790446661285e-06, -2.828515780123982e-07, 2.149339840126677e-08, -1.6940101105667532e-09}},
  {0.5, 0.75, 0.625, 0.125, 2.9019954328653367e-12, 9, {0.683980760479085, -0.03566999542645159, 0.00272858269403327, -0.0002493768099440214, 2.5374457255459334e-05, -2.777621828944127e-06, 3.210996755465921e-07, -4.0165899416937815e-08, 5.019369964076319e-09}},
  {0.75, 1.0, 0.875, 0.125, 5.733336723745313e-12, 8, {0.6218937472466293, -0.027110330790862204, 0.0016765904276689965, -0.00012158314333176085, 9.695436690229846e-06, -8.24825956271844e-07, 7.490691994135096e-08, -6.9392762025573625e-09}}};
