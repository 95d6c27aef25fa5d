//! Coefficient tables of IAPWS-IF97 and its supplementary releases (reference copy of this
//! framework; validated by `selfcheck` against the published verification values and by the
//! published consistency requirements between the equations).
#![allow(clippy::all)]
pub type T3 = (f64, f64, f64);

pub const G1: [T3; 34] = [
    (0.0, -2.0, 0.14632971213167),
    (0.0, -1.0, -0.84548187169114),
    (0.0, 0.0, -3.756360367204),
    (0.0, 1.0, 3.3855169168385),
    (0.0, 2.0, -0.95791963387872),
    (0.0, 3.0, 0.15772038513228),
    (0.0, 4.0, -0.016616417199501),
    (0.0, 5.0, 0.00081214629983568),
    (1.0, -9.0, 0.00028319080123804),
    (1.0, -7.0, -0.00060706301565874),
    (1.0, -1.0, -0.018990068218419),
    (1.0, 0.0, -0.032529748770505),
    (1.0, 1.0, -0.021841717175414),
    (1.0, 3.0, -5.283835796993e-05),
    (2.0, -3.0, -0.00047184321073267),
    (2.0, 0.0, -0.00030001780793026),
    (2.0, 1.0, 4.7661393906987e-05),
    (2.0, 3.0, -4.4141845330846e-06),
    (2.0, 17.0, -7.2694996297594e-16),
    (3.0, -4.0, -3.1679644845054e-05),
    (3.0, 0.0, -2.8270797985312e-06),
    (3.0, 6.0, -8.5205128120103e-10),
    (4.0, -5.0, -2.2425281908e-06),
    (4.0, -2.0, -6.5171222895601e-07),
    (4.0, 10.0, -1.4341729937924e-13),
    (5.0, -8.0, -4.0516996860117e-07),
    (8.0, -11.0, -1.2734301741641e-09),
    (8.0, -6.0, -1.7424871230634e-10),
    (21.0, -29.0, -6.8762131295531e-19),
    (23.0, -31.0, 1.4478307828521e-20),
    (29.0, -38.0, 2.6335781662795e-23),
    (30.0, -39.0, -1.1947622640071e-23),
    (31.0, -40.0, 1.8228094581404e-24),
    (32.0, -41.0, -9.3537087292458e-26),
];

pub const HS2P_REG1: [T3; 19] = [
    (0.0, 0.0, -0.691997014660582),
    (0.0, 1.0, -18.361254878756),
    (0.0, 2.0, -9.28332409297335),
    (0.0, 4.0, 65.9639569909906),
    (0.0, 5.0, -16.2060388912024),
    (0.0, 6.0, 450.620017338667),
    (0.0, 8.0, 854.68067822417),
    (0.0, 14.0, 6075.23214001162),
    (1.0, 0.0, 32.6487682621856),
    (1.0, 1.0, -26.9408844582931),
    (1.0, 4.0, -319.9478483343),
    (1.0, 6.0, -928.35430704332),
    (2.0, 0.0, 30.3634537455249),
    (2.0, 1.0, -65.0540422444146),
    (2.0, 10.0, -4309.9131651613),
    (3.0, 4.0, -747.512324096068),
    (4.0, 1.0, 730.000345529245),
    (4.0, 4.0, 1142.84032569021),
    (5.0, 0.0, -436.407041874559),
];

pub const PH2T_REG1: [T3; 20] = [
    (0.0, 0.0, -238.72489924521),
    (0.0, 1.0, 404.21188637945),
    (0.0, 2.0, 113.49746881718),
    (0.0, 6.0, -5.8457616048039),
    (0.0, 22.0, -0.0001528548241314),
    (0.0, 32.0, -1.0866707695377e-06),
    (1.0, 0.0, -13.391744872602),
    (1.0, 1.0, 43.211039183559),
    (1.0, 2.0, -54.010067170506),
    (1.0, 3.0, 30.535892203916),
    (1.0, 4.0, -6.5964749423638),
    (1.0, 10.0, 0.0093965400878363),
    (1.0, 32.0, 1.157364750534e-07),
    (2.0, 10.0, -2.5858641282073e-05),
    (2.0, 32.0, -4.0644363084799e-09),
    (3.0, 10.0, 6.6456186191635e-08),
    (3.0, 32.0, 8.0670734103027e-11),
    (4.0, 32.0, -9.3477771213947e-13),
    (5.0, 32.0, 5.8265442020601e-15),
    (6.0, 32.0, -1.5020185953503e-17),
];

pub const PS2T_REG1: [T3; 20] = [
    (0.0, 0.0, 174.78268058307),
    (0.0, 1.0, 34.806930892873),
    (0.0, 2.0, 6.5292584978455),
    (0.0, 3.0, 0.33039981775489),
    (0.0, 11.0, -1.9281382923196e-07),
    (0.0, 31.0, -2.4909197244573e-23),
    (1.0, 0.0, -0.26107636489332),
    (1.0, 1.0, 0.22592965981586),
    (1.0, 2.0, -0.064256463395226),
    (1.0, 3.0, 0.0078876289270526),
    (1.0, 12.0, 3.5672110607366e-10),
    (1.0, 31.0, 1.7332496994895e-24),
    (2.0, 0.0, 0.00056608900654837),
    (2.0, 1.0, -0.00032635483139717),
    (2.0, 2.0, 4.4778286690632e-05),
    (2.0, 9.0, -5.1322156908507e-10),
    (2.0, 31.0, -4.2522657042207e-26),
    (3.0, 10.0, 2.6400441360689e-13),
    (3.0, 32.0, 7.8124600459723e-29),
    (4.0, 32.0, -3.0732199903668e-31),
];

pub const G2R: [T3; 43] = [
    (1.0, 0.0, -0.0017731742473213),
    (1.0, 1.0, -0.017834862292358),
    (1.0, 2.0, -0.045996013696365),
    (1.0, 3.0, -0.057581259083432),
    (1.0, 6.0, -0.05032527872793),
    (2.0, 1.0, -3.3032641670203e-05),
    (2.0, 2.0, -0.00018948987516315),
    (2.0, 4.0, -0.0039392777243355),
    (2.0, 7.0, -0.043797295650573),
    (2.0, 36.0, -2.6674547914087e-05),
    (3.0, 0.0, 2.0481737692309e-08),
    (3.0, 1.0, 4.3870667284435e-07),
    (3.0, 3.0, -3.227767723857e-05),
    (3.0, 6.0, -0.0015033924542148),
    (3.0, 35.0, -0.040668253562649),
    (4.0, 1.0, -7.8847309559367e-10),
    (4.0, 2.0, 1.2790717852285e-08),
    (4.0, 3.0, 4.8225372718507e-07),
    (5.0, 7.0, 2.2922076337661e-06),
    (6.0, 3.0, -1.6714766451061e-11),
    (6.0, 16.0, -0.0021171472321355),
    (6.0, 35.0, -23.895741934104),
    (7.0, 0.0, -5.905956432427e-18),
    (7.0, 11.0, -1.2621808899101e-06),
    (7.0, 25.0, -0.038946842435739),
    (8.0, 8.0, 1.1256211360459e-11),
    (8.0, 36.0, -8.2311340897998),
    (9.0, 13.0, 1.9809712802088e-08),
    (10.0, 4.0, 1.0406965210174e-19),
    (10.0, 10.0, -1.0234747095929e-13),
    (10.0, 14.0, -1.0018179379511e-09),
    (16.0, 29.0, -8.0882908646985e-11),
    (16.0, 50.0, 0.10693031879409),
    (18.0, 57.0, -0.33662250574171),
    (20.0, 20.0, 8.9185845355421e-25),
    (20.0, 35.0, 3.0629316876232e-13),
    (20.0, 48.0, -4.2002467698208e-06),
    (21.0, 21.0, -5.9056029685639e-26),
    (22.0, 53.0, 3.7826947613457e-06),
    (23.0, 39.0, -1.2768608934681e-15),
    (24.0, 26.0, 7.3087610595061e-29),
    (24.0, 40.0, 5.5414715350778e-17),
    (24.0, 58.0, -9.436970724121e-07),
];

pub const PH2T_REG2A: [T3; 34] = [
    (0.0, 0.0, 1089.8952318288),
    (0.0, 1.0, 849.51654495535),
    (0.0, 2.0, -107.81748091826),
    (0.0, 3.0, 33.153654801263),
    (0.0, 7.0, -7.4232016790248),
    (0.0, 20.0, 11.765048724356),
    (1.0, 0.0, 1.844574935579),
    (1.0, 1.0, -4.1792700549624),
    (1.0, 2.0, 6.2478196935812),
    (1.0, 3.0, -17.344563108114),
    (1.0, 7.0, -200.58176862096),
    (1.0, 9.0, 271.96065473796),
    (1.0, 11.0, -455.11318285818),
    (1.0, 18.0, 3091.9688604755),
    (1.0, 44.0, 252266.40357872),
    (2.0, 0.0, -0.0061707422868339),
    (2.0, 2.0, -0.31078046629583),
    (2.0, 7.0, 11.670873077107),
    (2.0, 36.0, 128127984.04046),
    (2.0, 38.0, -985549096.23276),
    (2.0, 40.0, 2822454697.3002),
    (2.0, 42.0, -3594897141.0703),
    (2.0, 44.0, 1722734991.3197),
    (3.0, 24.0, -13551.334240775),
    (3.0, 44.0, 12848734.66465),
    (4.0, 12.0, 1.3865724283226),
    (4.0, 32.0, 235988.32556514),
    (4.0, 44.0, -13105236.545054),
    (5.0, 32.0, 7399.9835474766),
    (5.0, 36.0, -551966.9703006),
    (5.0, 42.0, 3715408.5996233),
    (6.0, 34.0, 19127.72923966),
    (6.0, 44.0, -415351.64835634),
    (7.0, 28.0, -62.459855192507),
];

pub const PH2T_REG2B: [T3; 38] = [
    (0.0, 0.0, 1489.5041079516),
    (0.0, 1.0, 743.07798314034),
    (0.0, 2.0, -97.708318797837),
    (0.0, 12.0, 2.4742464705674),
    (0.0, 18.0, -0.63281320016026),
    (0.0, 24.0, 1.1385952129658),
    (0.0, 28.0, -0.47811863648625),
    (0.0, 40.0, 0.0085208123431544),
    (1.0, 0.0, 0.93747147377932),
    (1.0, 2.0, 3.3593118604916),
    (1.0, 6.0, 3.3809355601454),
    (1.0, 12.0, 0.16844539671904),
    (1.0, 18.0, 0.73875745236695),
    (1.0, 24.0, -0.47128737436186),
    (1.0, 28.0, 0.15020273139707),
    (1.0, 40.0, -0.002176411421975),
    (2.0, 2.0, -0.021810755324761),
    (2.0, 8.0, -0.10829784403677),
    (2.0, 18.0, -0.046333324635812),
    (2.0, 40.0, 7.1280351959551e-05),
    (3.0, 1.0, 0.00011032831789999),
    (3.0, 2.0, 0.00018955248387902),
    (3.0, 12.0, 0.0030891541160537),
    (3.0, 24.0, 0.0013555504554949),
    (4.0, 2.0, 2.8640237477456e-07),
    (4.0, 12.0, -1.0779857357512e-05),
    (4.0, 18.0, -7.6462712454814e-05),
    (4.0, 24.0, 1.4052392818316e-05),
    (4.0, 28.0, -3.1083814331434e-05),
    (4.0, 40.0, -1.0302738212103e-06),
    (5.0, 18.0, 2.821728163504e-07),
    (5.0, 24.0, 1.2704902271945e-06),
    (5.0, 40.0, 7.3803353468292e-08),
    (6.0, 28.0, -1.1030139238909e-08),
    (7.0, 2.0, -8.1456365207833e-14),
    (7.0, 28.0, -2.5180545682962e-11),
    (9.0, 1.0, -1.7565233969407e-18),
    (9.0, 40.0, 8.6934156344163e-15),
];

pub const PH2T_REG2C: [T3; 23] = [
    (-7.0, 0.0, -3236839855524.2),
    (-7.0, 4.0, 7326335090218.1),
    (-6.0, 0.0, 358250899454.47),
    (-6.0, 2.0, -583401318515.9),
    (-5.0, 0.0, -10783068217.47),
    (-5.0, 2.0, 20825544563.171),
    (-2.0, 0.0, 610747.83564516),
    (-2.0, 1.0, 859777.2253558),
    (-1.0, 0.0, -25745.72360417),
    (-1.0, 2.0, 31081.088422714),
    (0.0, 0.0, 1208.2315865936),
    (0.0, 1.0, 482.19755109255),
    (1.0, 4.0, 3.7966001272486),
    (1.0, 8.0, -10.842984880077),
    (2.0, 4.0, -0.04536417267666),
    (6.0, 0.0, 1.4559115658698e-13),
    (6.0, 1.0, 1.126159740723e-12),
    (6.0, 4.0, -1.7804982240686e-11),
    (6.0, 10.0, 1.2324579690832e-07),
    (6.0, 12.0, -1.1606921130984e-06),
    (6.0, 16.0, 2.7846367088554e-05),
    (6.0, 20.0, -0.00059270038474176),
    (6.0, 22.0, 0.0012918582991878),
];

pub const HS2P_REG2A: [T3; 29] = [
    (0.0, 1.0, -0.0182575361923032),
    (0.0, 3.0, -0.125229548799536),
    (0.0, 6.0, 0.592290437320145),
    (0.0, 16.0, 6.04769706185122),
    (0.0, 20.0, 238.624965444474),
    (0.0, 22.0, -298.639090222922),
    (1.0, 0.0, 0.051225081304075),
    (1.0, 1.0, -0.437266515606486),
    (1.0, 2.0, 0.413336902999504),
    (1.0, 3.0, -5.16468254574773),
    (1.0, 5.0, -5.57014838445711),
    (1.0, 6.0, 12.8555037824478),
    (1.0, 10.0, 11.414410895329),
    (1.0, 16.0, -119.504225652714),
    (1.0, 20.0, -2847.7798596156),
    (1.0, 22.0, 4317.57846408006),
    (2.0, 3.0, 1.1289404080265),
    (2.0, 16.0, 1974.09186206319),
    (2.0, 20.0, 1516.12444706087),
    (3.0, 0.0, 0.0141324451421235),
    (3.0, 2.0, 0.585501282219601),
    (3.0, 3.0, -2.97258075863012),
    (3.0, 6.0, 5.94567314847319),
    (3.0, 16.0, -6236.56565798905),
    (4.0, 16.0, 9659.86235133332),
    (5.0, 3.0, 6.81500934948134),
    (5.0, 16.0, -6332.07286824489),
    (6.0, 3.0, -5.5891922446576),
    (7.0, 1.0, 0.0400645798472063),
];

pub const HS2P_REG2B: [T3; 33] = [
    (0.0, 0.0, 0.0801496989929495),
    (0.0, 1.0, -0.543862807146111),
    (0.0, 2.0, 0.337455597421283),
    (0.0, 4.0, 8.9055545115745),
    (0.0, 8.0, 313.840736431485),
    (1.0, 0.0, 0.797367065977789),
    (1.0, 1.0, -1.2161697355624),
    (1.0, 2.0, 8.72803386937477),
    (1.0, 3.0, -16.9769781757602),
    (1.0, 5.0, -186.552827328416),
    (1.0, 12.0, 95115.9274344237),
    (2.0, 1.0, -18.9168510120494),
    (2.0, 6.0, -4334.0703719484),
    (2.0, 18.0, 543212633.012715),
    (3.0, 0.0, 0.144793408386013),
    (3.0, 1.0, 128.024559637516),
    (3.0, 7.0, -67230.9534071268),
    (3.0, 12.0, 33697238.0095287),
    (4.0, 1.0, -586.63419676272),
    (4.0, 16.0, -22140322476.9889),
    (5.0, 1.0, 1716.06668708389),
    (5.0, 12.0, -570817595.806302),
    (6.0, 1.0, -3121.09693178482),
    (6.0, 8.0, -2078413.8463301),
    (6.0, 18.0, 3056059461577.86),
    (7.0, 1.0, 3221.57004314333),
    (7.0, 16.0, 326810259797.295),
    (8.0, 1.0, -1441.04158934487),
    (8.0, 3.0, 410.694867802691),
    (8.0, 14.0, 109077066873.024),
    (8.0, 18.0, -24796465425889.3),
    (12.0, 10.0, 1888019068.65134),
    (14.0, 16.0, -123651009018773.0),
];

pub const HS2P_REG2C: [T3; 31] = [
    (0.0, 0.0, 0.112225607199012),
    (0.0, 1.0, -3.39005953606712),
    (0.0, 2.0, -32.0503911730094),
    (0.0, 3.0, -197.5973051049),
    (0.0, 4.0, -407.693861553446),
    (0.0, 8.0, 13294.3775222331),
    (1.0, 0.0, 1.70846839774007),
    (1.0, 2.0, 37.3694198142245),
    (1.0, 5.0, 3581.44365815434),
    (1.0, 8.0, 423014.446424664),
    (1.0, 14.0, -751071025.760063),
    (2.0, 2.0, 52.3446127607898),
    (2.0, 3.0, -228.351290812417),
    (2.0, 7.0, -960652.417056937),
    (2.0, 10.0, -80705929.2526074),
    (2.0, 18.0, 1626980172256.69),
    (3.0, 0.0, 0.772465073604171),
    (3.0, 5.0, 46392.9973837746),
    (3.0, 8.0, -13731788.5134128),
    (3.0, 16.0, 1704703926305.12),
    (3.0, 18.0, -25110462818730.8),
    (4.0, 18.0, 31774883083552.0),
    (5.0, 1.0, 53.8685623675312),
    (5.0, 4.0, -55308.9094625169),
    (5.0, 6.0, -1028615.22421405),
    (5.0, 14.0, 2042494187562.34),
    (6.0, 8.0, 273918446.626977),
    (6.0, 18.0, -2639631463126850.0),
    (10.0, 7.0, -1078908541.08088),
    (12.0, 7.0, -29649262098.0124),
    (16.0, 10.0, -1117549073234240.0),
];

pub const PS2T_REG2A: [T3; 46] = [
    (-1.5, -24.0, -392359.83861984),
    (-1.5, -23.0, 515265.7382727),
    (-1.5, -19.0, 40482.443161048),
    (-1.5, -13.0, -321.93790923902),
    (-1.5, -11.0, 96.961424218694),
    (-1.5, -10.0, -22.867846371773),
    (-1.25, -19.0, -449429.14124357),
    (-1.25, -15.0, -5011.8336020166),
    (-1.25, -6.0, 0.35684463560015),
    (-1.0, -26.0, 44235.33584819),
    (-1.0, -21.0, -13673.388811708),
    (-1.0, -17.0, 421632.60207864),
    (-1.0, -16.0, 22516.925837475),
    (-1.0, -9.0, 474.42144865646),
    (-1.0, -8.0, -149.31130797647),
    (-0.75, -15.0, -197811.26320452),
    (-0.75, -14.0, -23554.39947076),
    (-0.5, -26.0, -19070.616302076),
    (-0.5, -13.0, 55375.669883164),
    (-0.5, -9.0, 3829.3691437363),
    (-0.5, -7.0, -603.91860580567),
    (-0.25, -27.0, 1936.3102620331),
    (-0.25, -25.0, 4266.064369861),
    (-0.25, -11.0, -5978.0638872718),
    (-0.25, -6.0, -704.01463926862),
    (0.25, 1.0, 338.36784107553),
    (0.25, 4.0, 20.862786635187),
    (0.25, 8.0, 0.033834172656196),
    (0.25, 11.0, -4.3124428414893e-05),
    (0.5, 0.0, 166.53791356412),
    (0.5, 1.0, -139.86292055898),
    (0.5, 5.0, -0.78849547999872),
    (0.5, 6.0, 0.072132411753872),
    (0.5, 10.0, -0.0059754839398283),
    (0.5, 14.0, -1.2141358953904e-05),
    (0.5, 16.0, 2.3227096733871e-07),
    (0.75, 0.0, -10.538463566194),
    (0.75, 4.0, 2.0718925496502),
    (0.75, 9.0, -0.072193155260427),
    (0.75, 17.0, 2.074988708112e-07),
    (1.0, 7.0, -0.018340657911379),
    (1.0, 18.0, 2.9036272348696e-07),
    (1.25, 3.0, 0.21037527893619),
    (1.25, 15.0, 0.0002568123972999),
    (1.5, 5.0, -0.01279900293381),
    (1.5, 18.0, -8.2198102652018e-06),
];

pub const PS2T_REG2B: [T3; 44] = [
    (-6.0, 0.0, 316876.65083497),
    (-6.0, 11.0, 20.864175881858),
    (-5.0, 0.0, -398593.99803599),
    (-5.0, 11.0, -21.816058518877),
    (-4.0, 0.0, 223697.85194242),
    (-4.0, 1.0, -2784.1703445817),
    (-4.0, 11.0, 9.920743607148),
    (-3.0, 0.0, -75197.512299157),
    (-3.0, 1.0, 2970.8605951158),
    (-3.0, 11.0, -3.4406878548526),
    (-3.0, 12.0, 0.38815564249115),
    (-2.0, 0.0, 17511.29508575),
    (-2.0, 1.0, -1423.7112854449),
    (-2.0, 6.0, 1.0943803364167),
    (-2.0, 10.0, 0.89971619308495),
    (-1.0, 0.0, -3375.9740098958),
    (-1.0, 1.0, 471.62885818355),
    (-1.0, 5.0, -1.9188241993679),
    (-1.0, 8.0, 0.41078580492196),
    (-1.0, 9.0, -0.33465378172097),
    (0.0, 0.0, 1387.0034777505),
    (0.0, 1.0, -406.63326195838),
    (0.0, 2.0, 41.72734715961),
    (0.0, 4.0, 2.1932549434532),
    (0.0, 5.0, -1.0320050009077),
    (0.0, 6.0, 0.35882943516703),
    (0.0, 9.0, 0.0052511453726066),
    (1.0, 0.0, 12.838916450705),
    (1.0, 1.0, -2.8642437219381),
    (1.0, 2.0, 0.56912683664855),
    (1.0, 3.0, -0.099962954584931),
    (1.0, 7.0, -0.0032632037778459),
    (1.0, 8.0, 0.00023320922576723),
    (2.0, 0.0, -0.1533480985745),
    (2.0, 1.0, 0.029072288239902),
    (2.0, 5.0, 0.00037534702741167),
    (3.0, 0.0, 0.0017296691702411),
    (3.0, 1.0, -0.00038556050844504),
    (3.0, 3.0, -3.5017712292608e-05),
    (4.0, 0.0, -1.4566393631492e-05),
    (4.0, 1.0, 5.6420857267269e-06),
    (5.0, 0.0, 4.1286150074605e-08),
    (5.0, 1.0, -2.0684671118824e-08),
    (5.0, 2.0, 1.6409393674725e-09),
];

pub const PS2T_REG2C: [T3; 30] = [
    (-2.0, 0.0, 909.68501005365),
    (-2.0, 1.0, 2404.566708842),
    (-1.0, 0.0, -591.6232638713),
    (0.0, 0.0, 541.45404128074),
    (0.0, 1.0, -270.98308411192),
    (0.0, 2.0, 979.76525097926),
    (0.0, 3.0, -469.66772959435),
    (1.0, 0.0, 14.399274604723),
    (1.0, 1.0, -19.104204230429),
    (1.0, 3.0, 5.3299167111971),
    (1.0, 4.0, -21.252975375934),
    (2.0, 0.0, -0.3114733441376),
    (2.0, 1.0, 0.60334840894623),
    (2.0, 2.0, -0.042764839702509),
    (3.0, 0.0, 0.0058185597255259),
    (3.0, 1.0, -0.014597008284753),
    (3.0, 5.0, 0.0056631175631027),
    (4.0, 0.0, -7.6155864584577e-05),
    (4.0, 1.0, 0.00022440342919332),
    (4.0, 4.0, -1.2561095013413e-05),
    (5.0, 0.0, 6.3323132660934e-07),
    (5.0, 1.0, -2.0541989675375e-06),
    (5.0, 2.0, 3.6405370390082e-08),
    (6.0, 0.0, -2.9759897789215e-09),
    (6.0, 1.0, 1.0136618529763e-08),
    (7.0, 0.0, 5.9925719692351e-12),
    (7.0, 1.0, -2.0677870105164e-11),
    (7.0, 3.0, -2.0874278181886e-11),
    (7.0, 4.0, 1.0162166825089e-10),
    (7.0, 5.0, -1.6429828281347e-10),
];

pub const F3: [T3; 39] = [
    (0.0, 0.0, -15.732845290239),
    (0.0, 1.0, 20.944396974307),
    (0.0, 2.0, -7.6867707878716),
    (0.0, 7.0, 2.6185947787954),
    (0.0, 10.0, -2.808078114862),
    (0.0, 12.0, 1.2053369696517),
    (0.0, 23.0, -0.0084566812812502),
    (1.0, 2.0, -1.2654315477714),
    (1.0, 6.0, -1.1524407806681),
    (1.0, 15.0, 0.88521043984318),
    (1.0, 17.0, -0.64207765181607),
    (2.0, 0.0, 0.38493460186671),
    (2.0, 2.0, -0.85214708824206),
    (2.0, 6.0, 4.8972281541877),
    (2.0, 7.0, -3.0502617256965),
    (2.0, 22.0, 0.039420536879154),
    (2.0, 26.0, 0.12558408424308),
    (3.0, 0.0, -0.2799932969871),
    (3.0, 2.0, 1.389979956946),
    (3.0, 4.0, -2.018991502357),
    (3.0, 16.0, -0.0082147637173963),
    (3.0, 26.0, -0.47596035734923),
    (4.0, 0.0, 0.0439840744735),
    (4.0, 2.0, -0.44476435428739),
    (4.0, 4.0, 0.90572070719733),
    (4.0, 26.0, 0.70522450087967),
    (5.0, 1.0, 0.10770512626332),
    (5.0, 3.0, -0.32913623258954),
    (5.0, 26.0, -0.50871062041158),
    (6.0, 0.0, -0.022175400873096),
    (6.0, 2.0, 0.094260751665092),
    (6.0, 26.0, 0.16436278447961),
    (7.0, 2.0, -0.013503372241348),
    (8.0, 26.0, -0.014834345352472),
    (9.0, 2.0, 0.00057922953628084),
    (9.0, 26.0, 0.0032308904703711),
    (10.0, 0.0, 8.0964802996215e-05),
    (10.0, 1.0, -0.00016557679795037),
    (11.0, 26.0, -4.4923899061815e-05),
];

pub const HS2P3A_REG3: [T3; 33] = [
    (0.0, 0.0, 7.70889828326934),
    (0.0, 1.0, -26.0835009128688),
    (0.0, 5.0, 267.416218930389),
    (1.0, 0.0, 17.2221089496844),
    (1.0, 3.0, -293.54233214597),
    (1.0, 4.0, 614.135601882478),
    (1.0, 8.0, -61056.2757725674),
    (1.0, 14.0, -65127225.1118219),
    (2.0, 6.0, 73591.9313521937),
    (2.0, 16.0, -11664650591.4191),
    (3.0, 0.0, 35.5267086434461),
    (3.0, 2.0, -596.144543825955),
    (3.0, 3.0, -475.842430145708),
    (4.0, 0.0, 69.6781965359503),
    (4.0, 1.0, 335.674250377312),
    (4.0, 4.0, 25052.6809130882),
    (4.0, 5.0, 146997.380630766),
    (5.0, 28.0, 5.38069315091534e+19),
    (6.0, 28.0, 1.43619827291346e+21),
    (7.0, 24.0, 3.64985866165994e+19),
    (8.0, 1.0, -2547.41561156775),
    (10.0, 32.0, 2.40120197096563e+27),
    (10.0, 36.0, -3.93847464679496e+29),
    (14.0, 22.0, 1.47073407024852e+24),
    (18.0, 28.0, -4.26391250432059e+31),
    (20.0, 36.0, 1.94509340621077e+38),
    (22.0, 16.0, 6.66212132114896e+23),
    (22.0, 28.0, 7.06777016552858e+33),
    (24.0, 36.0, 1.75563621975576e+41),
    (28.0, 16.0, 1.08408607429124e+28),
    (28.0, 36.0, 7.30872705175151e+43),
    (32.0, 10.0, 1.5914584739887e+24),
    (32.0, 28.0, 3.77121605943324e+40),
];

pub const HS2P3B_REG3: [T3; 35] = [
    (-12.0, 2.0, 1.25244360717979e-13),
    (-12.0, 10.0, -0.0126599322553713),
    (-12.0, 12.0, 5.06878030140626),
    (-12.0, 14.0, 31.7847171154202),
    (-12.0, 20.0, -391041.161399932),
    (-10.0, 2.0, -9.75733406392044e-11),
    (-10.0, 10.0, -18.6312419488279),
    (-10.0, 14.0, 510.973543414101),
    (-10.0, 18.0, 373847.005822362),
    (-8.0, 2.0, 2.99804024666572e-08),
    (-8.0, 8.0, 20.0544393820342),
    (-6.0, 2.0, -4.98030487662829e-06),
    (-6.0, 6.0, -10.230180636003),
    (-6.0, 7.0, 55.2819126990325),
    (-6.0, 8.0, -206.211367510878),
    (-5.0, 10.0, -7940.12232324823),
    (-4.0, 4.0, 7.82248472028153),
    (-4.0, 5.0, -58.6544326902468),
    (-4.0, 8.0, 3550.73647696481),
    (-3.0, 1.0, -0.000115303107290162),
    (-3.0, 3.0, -1.75092403171802),
    (-3.0, 5.0, 257.98168774816),
    (-3.0, 6.0, -727.048374179467),
    (-2.0, 0.0, 0.000121644822609198),
    (-2.0, 1.0, 0.0393137871762692),
    (-1.0, 0.0, 0.00704181005909296),
    (0.0, 3.0, -82.910820069811),
    (2.0, 0.0, -0.26517881813125),
    (2.0, 1.0, 13.7531682453991),
    (5.0, 0.0, -52.2394090753046),
    (6.0, 1.0, 2405.56298941048),
    (8.0, 1.0, -22736.1631268929),
    (10.0, 1.0, 89074.6343932567),
    (14.0, 3.0, -23923456.5822486),
    (14.0, 7.0, 5687958081.29714),
];

pub const PT2V_3A: [T3; 30] = [
    (-12.0, 5.0, 0.00110879558823853),
    (-12.0, 10.0, 572.616740810616),
    (-12.0, 12.0, -76705.1948380852),
    (-10.0, 5.0, -0.0253321069529674),
    (-10.0, 10.0, 6280.08049345689),
    (-10.0, 12.0, 234105.654131876),
    (-8.0, 5.0, 0.216867826045856),
    (-8.0, 8.0, -156.237904341963),
    (-8.0, 10.0, -26989.3956176613),
    (-6.0, 1.0, -0.000180407100085505),
    (-5.0, 1.0, 0.00116732227668261),
    (-5.0, 5.0, 26.698704085604),
    (-5.0, 10.0, 28277.6617243286),
    (-4.0, 8.0, -2424.31520029523),
    (-3.0, 0.0, 0.000435217323022733),
    (-3.0, 1.0, -0.0122494831387441),
    (-3.0, 3.0, 1.79357604019989),
    (-3.0, 6.0, 44.2729521058314),
    (-2.0, 0.0, -0.00593223489018342),
    (-2.0, 2.0, 0.453186261685774),
    (-2.0, 3.0, 1.3582570312914),
    (-1.0, 0.0, 0.0408748415856745),
    (-1.0, 1.0, 0.474686397863312),
    (-1.0, 2.0, 1.18646814997915),
    (0.0, 0.0, 0.546987265727549),
    (0.0, 1.0, 0.195266770452643),
    (1.0, 0.0, -0.0502268790869663),
    (1.0, 2.0, -0.369645308193377),
    (2.0, 0.0, 0.0063382803752842),
    (2.0, 2.0, 0.0797441793901017),
];

pub const PT2V_3B: [T3; 32] = [
    (-12.0, 10.0, -0.0827670470003621),
    (-12.0, 12.0, 41.6887126010565),
    (-10.0, 8.0, 0.0483651982197059),
    (-10.0, 14.0, -29103.2084950276),
    (-8.0, 8.0, -111.422582236948),
    (-6.0, 5.0, -0.0202300083904014),
    (-6.0, 6.0, 294.002509338515),
    (-6.0, 8.0, 140.244997609658),
    (-5.0, 5.0, -344.384158811459),
    (-5.0, 8.0, 361.182452612149),
    (-5.0, 10.0, -1406.99677420738),
    (-4.0, 2.0, -0.00202023902676481),
    (-4.0, 4.0, 171.346792457471),
    (-4.0, 5.0, -4.25597804058632),
    (-3.0, 0.0, 6.91346085000334e-06),
    (-3.0, 1.0, 0.00151140509678925),
    (-3.0, 2.0, -0.0416375290166236),
    (-3.0, 3.0, -41.3754957011042),
    (-3.0, 5.0, -50.6673295721637),
    (-2.0, 0.0, -0.000572212965569023),
    (-2.0, 2.0, 6.08817368401785),
    (-2.0, 5.0, 23.9600660256161),
    (-1.0, 0.0, 0.0122261479925384),
    (-1.0, 2.0, 2.16356057692938),
    (0.0, 0.0, 0.398198903368642),
    (0.0, 1.0, -0.116892827834085),
    (1.0, 0.0, -0.102845919373532),
    (1.0, 2.0, -0.492676637589284),
    (2.0, 0.0, 0.065554045640679),
    (3.0, 2.0, -0.24046253507853),
    (4.0, 0.0, -0.0269798180310075),
    (4.0, 1.0, 0.128369435967012),
];

pub const PT2V_3C: [T3; 35] = [
    (-12.0, 6.0, 3.1196778876303),
    (-12.0, 8.0, 27671.3458847564),
    (-12.0, 10.0, 32258310.3403269),
    (-10.0, 6.0, -342.416065095363),
    (-10.0, 8.0, -899732.529907377),
    (-10.0, 10.0, -79389204.9821251),
    (-8.0, 5.0, 95.3193003217388),
    (-8.0, 6.0, 2297.84742345072),
    (-8.0, 7.0, 175336.675322499),
    (-6.0, 8.0, 7912143.65222792),
    (-5.0, 1.0, 3.19933345844209e-05),
    (-5.0, 4.0, -65.9508863555767),
    (-5.0, 7.0, -833426.563212851),
    (-4.0, 2.0, 0.0645734680583292),
    (-4.0, 8.0, -3820310.20570813),
    (-3.0, 0.0, 4.06398848470079e-05),
    (-3.0, 3.0, 31.0327498492008),
    (-2.0, 0.0, -0.000892996718483724),
    (-2.0, 4.0, 234.604891591616),
    (-2.0, 5.0, 3775.15668966951),
    (-1.0, 0.0, 0.0158646812591361),
    (-1.0, 1.0, 0.707906336241843),
    (-1.0, 2.0, 12.601622514657),
    (0.0, 0.0, 0.736143655772152),
    (0.0, 1.0, 0.676544268999101),
    (0.0, 2.0, -17.8100588189137),
    (1.0, 0.0, -0.156531975531713),
    (1.0, 2.0, 11.7707430048158),
    (2.0, 0.0, 0.0840143653860447),
    (2.0, 1.0, -0.186442467471949),
    (2.0, 3.0, -44.0170203949645),
    (2.0, 7.0, 1232904.23502494),
    (3.0, 0.0, -0.0240650039730845),
    (3.0, 7.0, -1070777.16660869),
    (8.0, 1.0, 0.0438319858566475),
];

pub const PT2V_3D: [T3; 38] = [
    (-12.0, 4.0, -4.52484847171645e-10),
    (-12.0, 6.0, 3.15210389538801e-05),
    (-12.0, 7.0, -0.00214991352047545),
    (-12.0, 10.0, 508.058874808345),
    (-12.0, 12.0, -12712303.6845932),
    (-12.0, 16.0, 1153711331204.97),
    (-10.0, 0.0, -1.97805728776273e-16),
    (-10.0, 2.0, 2.41554806033972e-11),
    (-10.0, 4.0, -1.56481703640525e-06),
    (-10.0, 6.0, 0.00277211346836625),
    (-10.0, 8.0, -20.3578994462286),
    (-10.0, 10.0, 1443694.89909053),
    (-10.0, 14.0, -41125421794.6539),
    (-8.0, 3.0, 6.23449786243773e-06),
    (-8.0, 7.0, -22.1774281146038),
    (-8.0, 8.0, -68931.5087933158),
    (-8.0, 10.0, -19541952.5060713),
    (-6.0, 6.0, 3163.73510564015),
    (-6.0, 8.0, 2240407.54426988),
    (-5.0, 1.0, -4.36701347922356e-06),
    (-5.0, 2.0, -0.000404213852833996),
    (-5.0, 5.0, -348.153203414663),
    (-5.0, 7.0, -385294.213555289),
    (-4.0, 0.0, 1.35203700099403e-07),
    (-4.0, 1.0, 0.000134648383271089),
    (-4.0, 7.0, 125031.835351736),
    (-3.0, 2.0, 0.0968123678455841),
    (-3.0, 4.0, 225.660517512438),
    (-2.0, 0.0, -0.000190102435341872),
    (-2.0, 1.0, -0.0299628410819229),
    (-1.0, 0.0, 0.00500833915372121),
    (-1.0, 1.0, 0.387842482998411),
    (-1.0, 5.0, -1385.35367777182),
    (0.0, 0.0, 0.870745245971773),
    (0.0, 2.0, 1.71946252068742),
    (1.0, 0.0, -0.0326650121426383),
    (1.0, 6.0, 4980.44171727877),
    (3.0, 0.0, 0.00551478022765087),
];

pub const PT2V_3E: [T3; 29] = [
    (-12.0, 14.0, 715815808.404721),
    (-12.0, 16.0, -114328360753.449),
    (-10.0, 3.0, 3.7653100201572e-12),
    (-10.0, 6.0, -9.03983668691157e-05),
    (-10.0, 10.0, 665695.908836252),
    (-10.0, 14.0, 5353641749.60127),
    (-10.0, 16.0, 79497740233.5603),
    (-8.0, 7.0, 92.2230563421437),
    (-8.0, 8.0, -142586.073991215),
    (-8.0, 10.0, -1117963.81424162),
    (-6.0, 6.0, 8961.2162964076),
    (-5.0, 6.0, -6699.89239070491),
    (-4.0, 2.0, 0.00451242538486834),
    (-4.0, 4.0, -33.9731325977713),
    (-3.0, 2.0, -1.20523111552278),
    (-3.0, 6.0, 47599.2667717124),
    (-3.0, 7.0, -266627.750390341),
    (-2.0, 0.0, -0.000153314954386524),
    (-2.0, 1.0, 0.305638404828265),
    (-2.0, 3.0, 123.654999499486),
    (-2.0, 4.0, -1043.90794213011),
    (-1.0, 0.0, -0.0157496516174308),
    (0.0, 0.0, 0.685331118940253),
    (0.0, 1.0, 1.78373462873903),
    (1.0, 0.0, -0.54467412487891),
    (1.0, 4.0, 2045.29931318843),
    (1.0, 6.0, -22834.2359328752),
    (2.0, 0.0, 0.413197481515899),
    (2.0, 2.0, -34.1931835910405),
];

pub const PT2V_3F: [T3; 42] = [
    (0.0, -3.0, -2.51756547792325e-08),
    (0.0, -2.0, 6.01307193668763e-06),
    (0.0, -1.0, -0.00100615977450049),
    (0.0, 0.0, 0.999969140252192),
    (0.0, 1.0, 2.14107759236486),
    (0.0, 2.0, -16.5175571959086),
    (1.0, -1.0, -0.00141987303638727),
    (1.0, 1.0, 2.69251915156554),
    (1.0, 2.0, 34.9741815858722),
    (1.0, 3.0, -30.0208695771783),
    (2.0, 0.0, -1.31546288252539),
    (2.0, 1.0, -8.39091277286169),
    (3.0, -5.0, 1.81545608337015e-10),
    (3.0, -2.0, -0.000591099206478909),
    (3.0, 0.0, 1.52115067087106),
    (4.0, -3.0, 2.52956470663225e-05),
    (5.0, -8.0, 1.00726265203786e-15),
    (5.0, 1.0, -1.4977453386065),
    (6.0, -6.0, -7.93940970562969e-10),
    (7.0, -4.0, -0.000150290891264717),
    (7.0, 1.0, 1.51205531275133),
    (10.0, -6.0, 4.70942606221652e-06),
    (12.0, -10.0, 1.95049710391712e-13),
    (12.0, -8.0, -9.11627886266077e-09),
    (12.0, -4.0, 0.000604374640201265),
    (14.0, -12.0, -2.25132933900136e-16),
    (14.0, -10.0, 6.10916973582981e-12),
    (14.0, -8.0, -3.03063908043404e-07),
    (14.0, -6.0, -1.37796070798409e-05),
    (14.0, -4.0, -0.000919296736666106),
    (16.0, -10.0, 6.39288223132545e-10),
    (16.0, -8.0, 7.53259479898699e-07),
    (18.0, -12.0, -4.00321478682929e-13),
    (18.0, -10.0, 7.56140294351614e-09),
    (20.0, -12.0, -9.12082054034891e-12),
    (20.0, -10.0, -2.37612381140539e-08),
    (20.0, -6.0, 2.69586010591874e-05),
    (22.0, -12.0, -7.32828135157839e-11),
    (24.0, -12.0, 2.4199557830666e-10),
    (24.0, -4.0, -0.000405735532730322),
    (28.0, -12.0, 1.89424143498011e-10),
    (32.0, -12.0, -4.86632965074563e-10),
];

pub const PT2V_3G: [T3; 38] = [
    (-12.0, 7.0, 4.12209020652996e-05),
    (-12.0, 12.0, -1149872.38280587),
    (-12.0, 14.0, 9481808850.3208),
    (-12.0, 18.0, -1.95788865718971e+17),
    (-12.0, 22.0, 4.962507048713e+24),
    (-12.0, 24.0, -1.05549884548496e+28),
    (-10.0, 14.0, -758642165988.278),
    (-10.0, 20.0, -9.22172769596101e+22),
    (-10.0, 24.0, 7.25379072059348e+29),
    (-8.0, 7.0, -61.7718249205859),
    (-8.0, 8.0, 10755.5033344858),
    (-8.0, 10.0, -37954580.2336487),
    (-8.0, 12.0, 228646846221.831),
    (-6.0, 8.0, -4997410.93010619),
    (-6.0, 22.0, -2.80214310054101e+30),
    (-5.0, 7.0, 1049154.06769586),
    (-5.0, 20.0, 6.13754229168619e+27),
    (-4.0, 22.0, 8.02056715528378e+31),
    (-3.0, 7.0, -29861781.9828065),
    (-2.0, 3.0, -91.0782540134681),
    (-2.0, 5.0, 135033.227281565),
    (-2.0, 14.0, -7.12949383408211e+18),
    (-2.0, 24.0, -1.04578785289542e+36),
    (-1.0, 2.0, 30.4331584444093),
    (-1.0, 8.0, 5932507979.59445),
    (-1.0, 18.0, -3.64174062110798e+27),
    (0.0, 0.0, 0.921791403532461),
    (0.0, 1.0, -0.337693609657471),
    (0.0, 2.0, -72.4644143758508),
    (1.0, 0.0, -0.110480239272601),
    (1.0, 1.0, 5.36516031875059),
    (1.0, 3.0, -2914.41872156205),
    (3.0, 24.0, 6.16338176535305e+39),
    (5.0, 22.0, -1.2088917586118e+38),
    (6.0, 12.0, 8.18396024524612e+22),
    (8.0, 3.0, 940781944.835829),
    (10.0, 0.0, -36727.9669545448),
    (10.0, 6.0, -8375139317986550.0),
];

pub const PT2V_3H: [T3; 29] = [
    (-12.0, 8.0, 0.0561379678887577),
    (-12.0, 12.0, 7741354215.87083),
    (-10.0, 4.0, 1.11482975877938e-09),
    (-10.0, 6.0, -0.00143987128208183),
    (-10.0, 8.0, 1936.9655876492),
    (-10.0, 10.0, -605971823.585005),
    (-10.0, 14.0, 17195156812433.7),
    (-10.0, 16.0, -1.85461154985145e+16),
    (-8.0, 0.0, 3.8785116807801e-17),
    (-8.0, 1.0, -3.95464327846105e-14),
    (-8.0, 6.0, -170.875935679023),
    (-8.0, 7.0, -2120.1062070122),
    (-8.0, 8.0, 17768333.7348191),
    (-6.0, 4.0, 11.0177443629575),
    (-6.0, 6.0, -234396.091693313),
    (-6.0, 8.0, -6561744.21999594),
    (-5.0, 2.0, 1.56362212977396e-05),
    (-5.0, 3.0, -2.129462570214),
    (-5.0, 4.0, 13.5249306374858),
    (-4.0, 2.0, 0.177189164145813),
    (-4.0, 4.0, 1394.99167345464),
    (-3.0, 1.0, -0.00703670932036388),
    (-3.0, 2.0, -0.152011044389648),
    (-2.0, 0.0, 9.81916922991113e-05),
    (-1.0, 0.0, 0.00147199658618076),
    (-1.0, 2.0, 20.2618487025578),
    (0.0, 0.0, 0.89934551894424),
    (1.0, 0.0, -0.211346402240858),
    (1.0, 2.0, 24.9971752957491),
];

pub const PT2V_3I: [T3; 42] = [
    (0.0, 0.0, 1.06905684359136),
    (0.0, 1.0, -1.48620857922333),
    (0.0, 10.0, 259862256980408.0),
    (1.0, -4.0, -4.46352055678749e-12),
    (1.0, -2.0, -5.66620757170032e-07),
    (1.0, -1.0, -0.00235302885736849),
    (1.0, 0.0, -0.269226321968839),
    (2.0, 0.0, 9.22024992944392),
    (3.0, -5.0, 3.57633505503772e-12),
    (3.0, 0.0, -17.3942565562222),
    (4.0, -3.0, 7.00681785556229e-06),
    (4.0, -2.0, -0.000267050351075768),
    (4.0, -1.0, -2.31779669675624),
    (5.0, -6.0, -7.53533046979752e-13),
    (5.0, -1.0, 4.81337131452891),
    (5.0, 12.0, -2.23286270422356e+21),
    (7.0, -4.0, -1.18746004987383e-05),
    (7.0, -3.0, 0.00646412934136496),
    (8.0, -6.0, -4.10588536330937e-10),
    (8.0, 10.0, 4.22739537057241e+19),
    (10.0, -8.0, 3.13698180473812e-13),
    (12.0, -12.0, 1.6439533434504e-24),
    (12.0, -6.0, -3.39823323754373e-06),
    (12.0, -4.0, -0.0135268639905021),
    (14.0, -10.0, -7.23252514211625e-15),
    (14.0, -8.0, 1.84386437538366e-09),
    (14.0, -4.0, -0.0463959533752385),
    (14.0, 5.0, -99226310037675.0),
    (18.0, -12.0, 6.88169154439335e-17),
    (18.0, -10.0, -2.22620998452197e-11),
    (18.0, -8.0, -5.40843018624083e-08),
    (18.0, -6.0, 0.00345570606200257),
    (18.0, 2.0, 42227580030.4086),
    (20.0, -12.0, -1.26974478770487e-15),
    (20.0, -10.0, 9.27237985153679e-10),
    (22.0, -12.0, 6.12670812016489e-14),
    (24.0, -12.0, -7.22693924063497e-12),
    (24.0, -8.0, -0.000383669502636822),
    (32.0, -10.0, 0.000374684572410204),
    (32.0, -5.0, -93197.6897511086),
    (36.0, -10.0, -0.0247690616026922),
    (36.0, -8.0, 65.8110546759474),
];

pub const PT2V_3J: [T3; 29] = [
    (0.0, -1.0, -0.00011137131739554),
    (0.0, 0.0, 1.00342892423685),
    (0.0, 1.0, 5.30615581928979),
    (1.0, -2.0, 1.79058760078792e-06),
    (1.0, -1.0, -0.000728541958464774),
    (1.0, 1.0, -18.7576133371704),
    (2.0, -1.0, 0.00199060874071849),
    (2.0, 1.0, 24.357475537729),
    (3.0, -2.0, -0.000177040785499444),
    (4.0, -2.0, -0.0025968038522713),
    (4.0, 2.0, -198.704578406823),
    (5.0, -3.0, 7.38627790224287e-05),
    (5.0, -2.0, -0.00236264692844138),
    (5.0, 0.0, -1.61023121314333),
    (6.0, 3.0, 6223.22971786473),
    (10.0, -6.0, -9.60754116701669e-09),
    (12.0, -8.0, -5.10572269720488e-11),
    (12.0, -3.0, 0.00767373781404211),
    (14.0, -10.0, 6.63855469485254e-15),
    (14.0, -8.0, -7.17590735526745e-10),
    (14.0, -5.0, 1.46564542926508e-05),
    (16.0, -10.0, 3.09029474277013e-12),
    (18.0, -12.0, -4.64216300971708e-16),
    (20.0, -12.0, -3.90499637961161e-14),
    (20.0, -10.0, -2.36716126781431e-10),
    (24.0, -12.0, 4.54652854268717e-12),
    (24.0, -6.0, -0.00422271787482497),
    (28.0, -12.0, 2.83911742354706e-11),
    (28.0, -5.0, 2.70929002720228),
];

pub const PT2V_3K: [T3; 34] = [
    (-2.0, 10.0, -401215699.576099),
    (-2.0, 12.0, 48450147831.8406),
    (-1.0, -5.0, 3.94721471363678e-15),
    (-1.0, 6.0, 37262.9967374147),
    (0.0, -12.0, -3.69794374168666e-30),
    (0.0, -6.0, -3.80436407012452e-15),
    (0.0, -2.0, 4.75361629970233e-07),
    (0.0, -1.0, -0.000879148916140706),
    (0.0, 0.0, 0.844317863844331),
    (0.0, 1.0, 12.24331626566),
    (0.0, 2.0, -104.529634830279),
    (0.0, 3.0, 589.702771277429),
    (0.0, 14.0, -29102685116444.4),
    (1.0, -3.0, 1.7034307284185e-06),
    (1.0, -2.0, -0.000277617606975748),
    (1.0, 0.0, -3.44709605486686),
    (1.0, 1.0, 22.1333862447095),
    (1.0, 2.0, -194.646110037079),
    (2.0, -8.0, 8.08354639772825e-16),
    (2.0, -6.0, -1.8084520914547e-11),
    (2.0, -3.0, -6.96664158132412e-06),
    (2.0, -2.0, -0.00181057560300994),
    (2.0, 0.0, 2.55830298579027),
    (2.0, 4.0, 3289.13873658481),
    (5.0, -12.0, -1.73270241249904e-19),
    (5.0, -6.0, -6.61876792558034e-07),
    (5.0, -3.0, -0.0039568892342125),
    (6.0, -12.0, 6.04203299819132e-18),
    (6.0, -10.0, -4.00879935920517e-14),
    (6.0, -8.0, 1.60751107464958e-09),
    (6.0, -5.0, 3.83719409025556e-05),
    (8.0, -12.0, -6.49565446702457e-15),
    (10.0, -12.0, -1.49095328506e-12),
    (12.0, -10.0, 5.41449377329581e-09),
];

pub const PT2V_3L: [T3; 43] = [
    (-12.0, 14.0, 2607020586.47537),
    (-12.0, 16.0, -188277213604704.0),
    (-12.0, 18.0, 5.54923870289667e+18),
    (-12.0, 20.0, -7.58966946387758e+22),
    (-12.0, 22.0, 4.13865186848908e+26),
    (-10.0, 14.0, -815038000738.06),
    (-10.0, 24.0, -3.81458260489955e+32),
    (-8.0, 6.0, -0.0123239564600519),
    (-8.0, 10.0, 22609563.1437174),
    (-8.0, 12.0, -495017809506.72),
    (-8.0, 14.0, 5294829964228630.0),
    (-8.0, 18.0, -4.44359478746295e+22),
    (-8.0, 24.0, 5.21635864527315e+34),
    (-8.0, 36.0, -4.87095672740742e+54),
    (-6.0, 8.0, -714430.209937547),
    (-5.0, 4.0, 0.127868634615495),
    (-5.0, 5.0, -10.0752127917598),
    (-4.0, 7.0, 7774514.3796099),
    (-4.0, 16.0, -1.08105480796471e+24),
    (-3.0, 1.0, -3.57578581169659e-06),
    (-3.0, 3.0, -2.12857169423484),
    (-3.0, 18.0, 2.70706111085238e+29),
    (-3.0, 20.0, -6.95953622348829e+32),
    (-2.0, 2.0, 0.11060902747228),
    (-2.0, 3.0, 72.1559163361354),
    (-2.0, 10.0, -306367307532219.0),
    (-1.0, 0.0, 2.6583961888553e-05),
    (-1.0, 1.0, 0.0253392392889754),
    (-1.0, 3.0, -214.443041836579),
    (0.0, 0.0, 0.937846601489667),
    (0.0, 1.0, 2.231840431017),
    (0.0, 2.0, 33.8401222509191),
    (0.0, 12.0, 4.94237237179718e+20),
    (1.0, 0.0, -0.198068404154428),
    (1.0, 16.0, -1.4141534988114e+30),
    (2.0, 1.0, -99.3862421613651),
    (4.0, 0.0, 125.070534142731),
    (5.0, 0.0, -996.473529004439),
    (5.0, 1.0, 47313.7909872765),
    (6.0, 14.0, 1.16662121219322e+32),
    (10.0, 4.0, -3158749762715330.0),
    (10.0, 12.0, -4.45703369196945e+32),
    (14.0, 10.0, 6.42794932373694e+32),
];

pub const PT2V_3M: [T3; 40] = [
    (0.0, 0.0, 0.811384363481847),
    (3.0, 0.0, -5681.99310990094),
    (8.0, 0.0, -17865719817.2556),
    (20.0, 2.0, 7.95537657613427e+31),
    (1.0, 5.0, -81456.8209346872),
    (3.0, 5.0, -65977456.7602874),
    (4.0, 5.0, -15286114865.9302),
    (5.0, 5.0, -560165667510.446),
    (1.0, 6.0, 458384.828593949),
    (6.0, 6.0, -38575400038384.8),
    (2.0, 7.0, 45373580.0004273),
    (4.0, 8.0, 939454935735.563),
    (14.0, 8.0, 2.66572856432938e+27),
    (2.0, 10.0, -5475783138.99097),
    (5.0, 10.0, 200725701112386.0),
    (3.0, 12.0, 1850072455632.39),
    (0.0, 14.0, 185135446.828337),
    (1.0, 14.0, -170451090076.385),
    (1.0, 18.0, 157890366037614.0),
    (1.0, 20.0, -2025305097487740.0),
    (28.0, 20.0, 3.6819392618357e+59),
    (2.0, 22.0, 1.70215539458936e+17),
    (16.0, 22.0, 6.39234909918741e+41),
    (0.0, 24.0, -821698160721956.0),
    (5.0, 24.0, -7.95260241872306e+23),
    (0.0, 28.0, 2.3341586947851e+17),
    (3.0, 28.0, -6.00079934586803e+22),
    (4.0, 28.0, 5.94584382273384e+24),
    (12.0, 28.0, 1.89461279349492e+39),
    (16.0, 28.0, -8.10093428842645e+45),
    (1.0, 32.0, 1.88813911076809e+21),
    (8.0, 32.0, 1.11052244098768e+35),
    (14.0, 32.0, 2.91133958602503e+45),
    (0.0, 36.0, -3.2942192395146e+21),
    (2.0, 36.0, -1.37570282536696e+25),
    (3.0, 36.0, 1.81508996303902e+27),
    (4.0, 36.0, -3.46865122768353e+29),
    (8.0, 36.0, -2.1196114877426e+37),
    (14.0, 36.0, -1.28617899887675e+48),
    (24.0, 36.0, 4.79817895699239e+64),
];

pub const PT2V_3N: [T3; 39] = [
    (0.0, -12.0, 2.80967799943151e-39),
    (3.0, -12.0, 6.14869006573609e-31),
    (4.0, -12.0, 5.82238667048942e-28),
    (6.0, -12.0, 3.90628369238462e-23),
    (7.0, -12.0, 8.21445758255119e-21),
    (10.0, -12.0, 4.02137961842776e-15),
    (12.0, -12.0, 6.51718171878301e-13),
    (14.0, -12.0, -2.11773355803058e-08),
    (18.0, -12.0, 0.00264953354380072),
    (0.0, -10.0, -1.35031446451331e-32),
    (3.0, -10.0, -6.07246643970893e-24),
    (5.0, -10.0, -4.02352115234494e-19),
    (6.0, -10.0, -7.44938506925544e-17),
    (8.0, -10.0, 1.89917206526237e-13),
    (12.0, -10.0, 3.64975183508473e-06),
    (0.0, -8.0, 1.77274872361946e-26),
    (3.0, -8.0, -3.34952758812999e-19),
    (7.0, -8.0, -4.21537726098389e-09),
    (12.0, -8.0, -0.0391048167929649),
    (2.0, -6.0, 5.41276911564176e-14),
    (3.0, -6.0, 7.05412100773699e-12),
    (4.0, -6.0, 2.58585887897486e-09),
    (2.0, -5.0, -4.93111362030162e-11),
    (4.0, -5.0, -1.58649699894543e-06),
    (7.0, -5.0, -0.5250374278861),
    (4.0, -4.0, 0.00220019901729615),
    (3.0, -3.0, -0.00643064132636925),
    (5.0, -3.0, 62.9154149015048),
    (6.0, -3.0, 135.147318617061),
    (0.0, -2.0, 2.40560808321713e-07),
    (0.0, -1.0, -0.000890763306701305),
    (3.0, -1.0, -4402.09599407714),
    (1.0, 0.0, -302.807107747776),
    (0.0, 1.0, 1591.58748314599),
    (1.0, 1.0, 232534.272709876),
    (0.0, 2.0, -792681.2071326),
    (1.0, 4.0, -86987136466.2769),
    (0.0, 5.0, 354542769185.671),
    (1.0, 6.0, 400849240129329.0),
];

pub const PT2V_3O: [T3; 24] = [
    (0.0, -12.0, 1.28746023979718e-35),
    (0.0, -4.0, -7.35234770382342e-12),
    (0.0, -1.0, 0.0028907869214915),
    (2.0, -1.0, 0.244482731907223),
    (3.0, -10.0, 1.41733492030985e-24),
    (4.0, -12.0, -3.54533853059476e-29),
    (4.0, -8.0, -5.94539202901431e-18),
    (4.0, -5.0, -5.85188401782779e-09),
    (4.0, -4.0, 2.01377325411803e-06),
    (4.0, -1.0, 1.38647388209306),
    (5.0, -4.0, -1.73959365084772e-05),
    (5.0, -3.0, 0.00137680878349369),
    (6.0, -8.0, 8.14897605805513e-15),
    (7.0, -12.0, 4.25596631351839e-26),
    (8.0, -10.0, -3.87449113787755e-18),
    (8.0, -8.0, 1.3981474793024e-13),
    (8.0, -4.0, -0.00171849638951521),
    (10.0, -12.0, 6.41890529513296e-22),
    (10.0, -8.0, 1.18960578072018e-11),
    (14.0, -12.0, -1.55282762571611e-18),
    (14.0, -8.0, 2.33907907347507e-08),
    (20.0, -12.0, -1.74093247766213e-13),
    (20.0, -10.0, 3.77682649089149e-09),
    (24.0, -12.0, -5.16720236575302e-11),
];

pub const PT2V_3P: [T3; 27] = [
    (0.0, -1.0, -9.82825342010366e-05),
    (0.0, 0.0, 1.05145700850612),
    (0.0, 1.0, 116.033094095084),
    (0.0, 2.0, 3246.64750281543),
    (1.0, 1.0, -1235.92348610137),
    (2.0, -1.0, -0.0561403450013495),
    (3.0, -3.0, 8.56677401640869e-08),
    (3.0, 0.0, 236.313425393924),
    (4.0, -2.0, 0.00972503292350109),
    (6.0, -2.0, -1.03001994531927),
    (7.0, -5.0, -1.49653706199162e-09),
    (7.0, -4.0, -2.15743778861592e-05),
    (8.0, -2.0, -8.34452198291445),
    (10.0, -3.0, 0.586602660564988),
    (12.0, -12.0, 3.43480022104968e-26),
    (12.0, -6.0, 8.16256095947021e-06),
    (12.0, -5.0, 0.00294985697916798),
    (14.0, -10.0, 7.11730466276584e-17),
    (14.0, -8.0, 4.00954763806941e-10),
    (14.0, -3.0, 10.7766027032853),
    (16.0, -8.0, -4.09449599138182e-07),
    (18.0, -8.0, -7.29121307758902e-06),
    (20.0, -10.0, 6.77107970938909e-09),
    (22.0, -10.0, 6.02745973022975e-08),
    (24.0, -12.0, -3.82323011855257e-11),
    (24.0, -8.0, 0.00179946628317437),
    (36.0, -12.0, -0.000345042834640005),
];

pub const PT2V_3Q: [T3; 24] = [
    (-12.0, 10.0, -82043.384325995),
    (-12.0, 12.0, 47327151846.1586),
    (-10.0, 6.0, -0.0805950021005413),
    (-10.0, 7.0, 32.860002543598),
    (-10.0, 8.0, -3566.1702998249),
    (-10.0, 10.0, -1729857814.33335),
    (-8.0, 8.0, 35176923.2729192),
    (-6.0, 6.0, -775489.259985144),
    (-5.0, 2.0, 7.10346691966018e-05),
    (-5.0, 5.0, 99349.9883820274),
    (-4.0, 3.0, -0.64209417190457),
    (-4.0, 4.0, -6128.42816820083),
    (-3.0, 3.0, 232.808472983776),
    (-2.0, 0.0, -1.42808220416837e-05),
    (-2.0, 1.0, -0.00643596060678456),
    (-2.0, 2.0, -4.28577227475614),
    (-2.0, 4.0, 2256.89939161918),
    (-1.0, 0.0, 0.0010035565172151),
    (-1.0, 1.0, 0.333491455143516),
    (-1.0, 2.0, 1.09697576888873),
    (0.0, 0.0, 0.961917379376452),
    (1.0, 0.0, -0.0838165632204598),
    (1.0, 1.0, 2.47795908411492),
    (1.0, 3.0, -3191.14969006533),
];

pub const PT2V_3R: [T3; 27] = [
    (-8.0, 6.0, 0.00144165955660863),
    (-8.0, 14.0, -7014385996282.58),
    (-3.0, -3.0, -8.30946716459219e-17),
    (-3.0, 3.0, 0.261975135368109),
    (-3.0, 4.0, 393.097214706245),
    (-3.0, 5.0, -10433.4030654021),
    (-3.0, 8.0, 490112654.154211),
    (0.0, -1.0, -0.000147104222772069),
    (0.0, 0.0, 1.03602748043408),
    (0.0, 1.0, 3.05308890065089),
    (0.0, 5.0, -3997452.76971264),
    (3.0, -6.0, 5.6923371959375e-12),
    (3.0, -2.0, -0.0464923504407778),
    (8.0, -12.0, -5.35400396512906e-18),
    (8.0, -10.0, 3.99988795693162e-13),
    (8.0, -8.0, -5.36479560201811e-07),
    (8.0, -5.0, 0.0159536722411202),
    (10.0, -12.0, 2.70303248860217e-15),
    (10.0, -10.0, 2.44247453858506e-08),
    (10.0, -8.0, -9.83430636716454e-06),
    (10.0, -6.0, 0.0663513144224454),
    (10.0, -5.0, -9.93456957845006),
    (10.0, -4.0, 546.491323528491),
    (10.0, -3.0, -14336.5406393758),
    (10.0, -2.0, 150764.974125511),
    (12.0, -12.0, -3.37209709340105e-10),
    (14.0, -12.0, 3.77501980025469e-09),
];

pub const PT2V_3S: [T3; 29] = [
    (-12.0, 20.0, -5.32466612140254e+22),
    (-12.0, 24.0, 1.00415480000824e+31),
    (-10.0, 22.0, -1.91540001821367e+29),
    (-8.0, 14.0, 1.05618377808847e+16),
    (-6.0, 36.0, 2.02281884477061e+58),
    (-5.0, 8.0, 88458547.2596134),
    (-5.0, 16.0, 1.66540181638363e+22),
    (-4.0, 6.0, -313563.197669111),
    (-4.0, 32.0, -1.85662327545324e+53),
    (-3.0, 3.0, -0.0624942093918942),
    (-3.0, 8.0, -5041607241.3259),
    (-2.0, 4.0, 18751.4491833092),
    (-1.0, 1.0, 0.00121399979993217),
    (-1.0, 2.0, 1.88317043049455),
    (-1.0, 3.0, -1670.7350396206),
    (0.0, 0.0, 0.965961650599775),
    (0.0, 1.0, 2.94885696802488),
    (0.0, 4.0, -65391.5627346115),
    (0.0, 28.0, 6.04012200163444e+49),
    (1.0, 0.0, -0.198339358557937),
    (1.0, 32.0, -1.75984090163501e+57),
    (3.0, 0.0, 3.56314881403987),
    (3.0, 1.0, -575.991255144384),
    (3.0, 2.0, 45621.3415338071),
    (4.0, 3.0, -10917404.4987829),
    (4.0, 18.0, 4.37796099975134e+33),
    (4.0, 24.0, -6.16552611135792e+45),
    (5.0, 4.0, 1935687689.17797),
    (14.0, 24.0, 9.50898170425042e+53),
];

pub const PT2V_3T: [T3; 33] = [
    (0.0, 0.0, 1.55287249586268),
    (0.0, 1.0, 6.64235115009031),
    (0.0, 4.0, -2893.6623672721),
    (0.0, 12.0, -3859232023098.48),
    (1.0, 0.0, -2.91002915783761),
    (1.0, 10.0, -829088246858.083),
    (2.0, 0.0, 1.76814899675218),
    (2.0, 6.0, -534686695.713469),
    (2.0, 14.0, 1.60464608687834e+17),
    (3.0, 3.0, 196435.366560186),
    (3.0, 8.0, 1566374275417.29),
    (4.0, 0.0, -1.78154560260006),
    (4.0, 10.0, -2297462376236920.0),
    (7.0, 3.0, 38565900.1648006),
    (7.0, 4.0, 1105544467.90543),
    (7.0, 7.0, -67707383068734.9),
    (7.0, 20.0, -3.27910592086523e+30),
    (7.0, 36.0, -3.41552040860644e+50),
    (10.0, 10.0, -5.27251339709047e+20),
    (10.0, 12.0, 2.45375640937055e+23),
    (10.0, 14.0, -1.68776617209269e+26),
    (10.0, 16.0, 3.58958955867578e+28),
    (10.0, 22.0, -6.56475280339411e+35),
    (18.0, 18.0, 3.55286045512301e+38),
    (20.0, 32.0, 5.6902145441327e+57),
    (22.0, 22.0, -7.00584546433113e+47),
    (22.0, 36.0, -7.05772623326374e+64),
    (24.0, 24.0, 1.66861176200148e+52),
    (28.0, 28.0, -3.00475129680486e+60),
    (32.0, 22.0, -6.68481295196808e+50),
    (32.0, 32.0, 4.28432338620678e+68),
    (32.0, 36.0, -4.44227367758304e+71),
    (36.0, 36.0, -2.81396013562745e+76),
];

pub const PT2V_3U: [T3; 38] = [
    (-12.0, 14.0, 1.22088349258355e+17),
    (-10.0, 10.0, 1042164686.08488),
    (-10.0, 12.0, -8826669315646520.0),
    (-10.0, 14.0, 2.59929510849499e+19),
    (-8.0, 10.0, 222612779142211.0),
    (-8.0, 12.0, -8.78473585050085e+17),
    (-8.0, 14.0, -3.14432577551552e+21),
    (-6.0, 8.0, -2169349169962.85),
    (-6.0, 12.0, 1.59079648196849e+20),
    (-5.0, 4.0, -339.567617303423),
    (-5.0, 8.0, 8843876513378.36),
    (-5.0, 12.0, -8.43405926846418e+20),
    (-3.0, 2.0, 11.4178193518022),
    (-1.0, -1.0, -0.000122708229235641),
    (-1.0, 1.0, -106.201671767107),
    (-1.0, 12.0, 9.03443213959313e+24),
    (-1.0, 14.0, -6.93996270370852e+27),
    (0.0, -3.0, 6.48916718965575e-09),
    (0.0, 1.0, 7189.57567127851),
    (1.0, -2.0, 0.00105581745346187),
    (2.0, 5.0, -651903203602581.0),
    (2.0, 10.0, -1.60116813274676e+24),
    (3.0, -5.0, -5.10254294237837e-09),
    (5.0, -4.0, -0.152355388953402),
    (5.0, 2.0, 677143292290.144),
    (5.0, 3.0, 276378438378930.0),
    (6.0, -5.0, 0.0116862983141686),
    (6.0, 2.0, -30142694798017.1),
    (8.0, -8.0, 1.6971981388484e-08),
    (8.0, 8.0, 1.04674840020929e+26),
    (10.0, -4.0, -10801.690456014),
    (12.0, -12.0, -9.90623601934295e-13),
    (12.0, -4.0, 5361164.83602738),
    (12.0, 4.0, 2.26145963747881e+21),
    (14.0, -12.0, -4.8873156577621e-10),
    (14.0, -10.0, 1.5100154888067e-05),
    (14.0, -6.0, -22770.046464392),
    (14.0, 6.0, -7.81754507698846e+27),
];

pub const PT2V_3V: [T3; 39] = [
    (-10.0, -8.0, -4.15652812061591e-55),
    (-8.0, -12.0, 1.77441742924043e-61),
    (-6.0, -12.0, -3.57078668203377e-55),
    (-6.0, -3.0, 3.59252213604114e-26),
    (-6.0, 5.0, -25.9123736380269),
    (-6.0, 6.0, 59461.976619346),
    (-6.0, 8.0, -62418400710.3158),
    (-6.0, 10.0, 3.13080299915944e+16),
    (-5.0, 1.0, 1.05006446192036e-09),
    (-5.0, 2.0, -1.92824336984852e-06),
    (-5.0, 6.0, 654144.373749937),
    (-5.0, 8.0, 5131174628650.44),
    (-5.0, 10.0, -6.97595750347391e+18),
    (-5.0, 14.0, -1.03977184454767e+28),
    (-4.0, -12.0, 1.19563135540666e-48),
    (-4.0, -10.0, -4.36677034051655e-42),
    (-4.0, -6.0, 9.26990036530639e-30),
    (-4.0, 10.0, 5.87793105620748e+20),
    (-3.0, -3.0, 2.80375725094731e-18),
    (-3.0, 10.0, -1.92359972440634e+22),
    (-3.0, 12.0, 7.42705723302738e+26),
    (-2.0, 2.0, -51.7429682450605),
    (-2.0, 4.0, 8206120.48645469),
    (-1.0, -2.0, -1.88214882341448e-09),
    (-1.0, 0.0, 0.0184587261114837),
    (0.0, -2.0, -1.35830407782663e-06),
    (0.0, 6.0, -7.23681885626348e+16),
    (0.0, 10.0, -2.23449194054124e+26),
    (1.0, -12.0, -1.11526741826431e-35),
    (1.0, -10.0, 2.76032601145151e-29),
    (3.0, 3.0, 134856491567853.0),
    (4.0, -6.0, 6.5244029334586e-10),
    (4.0, 3.0, 5.1065511977436e+16),
    (4.0, 10.0, -4.68138358908732e+31),
    (5.0, 2.0, -7606674911832790.0),
    (8.0, -12.0, -4.17247986986821e-19),
    (10.0, -2.0, 31254567775610.4),
    (12.0, -3.0, -100375333864186.0),
    (14.0, 1.0, 2.47761392329058e+26),
];

pub const PT2V_3W: [T3; 35] = [
    (-12.0, 8.0, -5.86219133817016e-08),
    (-12.0, 14.0, -89446035500.5526),
    (-10.0, -1.0, 5.31168037519774e-31),
    (-10.0, 8.0, 0.109892402329239),
    (-8.0, 6.0, -0.0575368389425212),
    (-8.0, 8.0, 22827.6853990249),
    (-8.0, 14.0, -1.58548609655002e+18),
    (-6.0, -4.0, 3.29865748576503e-28),
    (-6.0, -3.0, -6.34987981190669e-25),
    (-6.0, 2.0, 6.15762068640611e-09),
    (-6.0, 8.0, -96110924.0985747),
    (-5.0, -10.0, -4.06274286652625e-45),
    (-4.0, -1.0, -4.71103725498077e-13),
    (-4.0, 3.0, 0.725937724828145),
    (-3.0, -10.0, 1.87768525763682e-39),
    (-3.0, 3.0, -1033.08436323771),
    (-2.0, 1.0, -0.0662552816342168),
    (-2.0, 2.0, 579.51404176571),
    (-1.0, -8.0, 2.37416732616644e-27),
    (-1.0, -4.0, 2.71700235739893e-15),
    (-1.0, 1.0, -90.78862134836),
    (0.0, -12.0, -1.71242509570207e-37),
    (0.0, 1.0, 156.792067854621),
    (1.0, -1.0, 0.92326135790147),
    (2.0, -1.0, -5.97865988422577),
    (2.0, 2.0, 3219887.67636389),
    (3.0, -12.0, -3.99441390042203e-30),
    (3.0, -5.0, 4.93429086046981e-08),
    (5.0, -10.0, 8.12036983370565e-20),
    (5.0, -8.0, -2.07610284654137e-12),
    (5.0, -6.0, -3.40821291419719e-07),
    (8.0, -12.0, 5.42000573372233e-18),
    (8.0, -10.0, -8.56711586510214e-13),
    (10.0, -12.0, 2.66170454405981e-14),
    (10.0, -8.0, 8.58133791857099e-06),
];

pub const PT2V_3X: [T3; 36] = [
    (-8.0, 14.0, 3.77373741298151e+18),
    (-6.0, 10.0, -5071008837229.13),
    (-5.0, 10.0, -1033632255988600.0),
    (-4.0, 1.0, 1.84790814320773e-06),
    (-4.0, 2.0, -0.000924729378390945),
    (-4.0, 14.0, -4.25999562292738e+23),
    (-3.0, -2.0, -4.62307771873973e-13),
    (-3.0, 12.0, 1.07319065855767e+21),
    (-1.0, 5.0, 64866249228.0682),
    (0.0, 0.0, 2.44200600688281),
    (0.0, 4.0, -8515357334.84258),
    (0.0, 10.0, 1.69894481433592e+21),
    (1.0, -10.0, 2.1578022250902e-27),
    (1.0, -1.0, -0.320850551367334),
    (2.0, 6.0, -3.8264244845861e+16),
    (3.0, -12.0, -2.75386077674421e-29),
    (3.0, 0.0, -563199.253391666),
    (3.0, 8.0, -3.26068646279314e+20),
    (4.0, 3.0, 39794900155318.4),
    (5.0, -6.0, 1.00824008584757e-07),
    (5.0, -2.0, 16223.4569738433),
    (5.0, 1.0, -43235522531.9745),
    (6.0, 1.0, -592874245598.61),
    (8.0, -6.0, 1.33061647281106),
    (8.0, -3.0, 1573381.97797544),
    (8.0, 1.0, 25818961427085.3),
    (8.0, 8.0, 2.62413209706358e+24),
    (10.0, -8.0, -0.0920011937431142),
    (12.0, -10.0, 0.00220213765905426),
    (12.0, -8.0, -11.0433759109547),
    (12.0, -5.0, 8470048.70612087),
    (12.0, -4.0, -592910695.762536),
    (14.0, -12.0, -1.8302717326966e-05),
    (14.0, -10.0, 0.181339603516302),
    (14.0, -8.0, -1192.28759669889),
    (14.0, -6.0, 4308676.58061468),
];

pub const PT2V_3Y: [T3; 20] = [
    (0.0, -3.0, -5.25597995024633e-10),
    (0.0, 1.0, 5834.41305228407),
    (0.0, 5.0, -1.34778968457925e+16),
    (0.0, 8.0, 1.18973500934212e+25),
    (1.0, 8.0, -1.59096490904708e+26),
    (2.0, -4.0, -3.15839902302021e-07),
    (2.0, -1.0, 496.212197158239),
    (2.0, 4.0, 3.27777227273171e+18),
    (2.0, 5.0, -5.27114657850696e+21),
    (3.0, -8.0, 2.10017506281863e-17),
    (3.0, 4.0, 7.05106224399834e+20),
    (3.0, 8.0, -2.66713136106469e+30),
    (4.0, -6.0, -1.45370512554562e-08),
    (4.0, 6.0, 1.4933391705313e+27),
    (5.0, -2.0, -14979562.0287641),
    (5.0, 1.0, -3818819062711000.0),
    (8.0, -8.0, 7.24660165585797e-05),
    (8.0, -2.0, -93780816955019.3),
    (10.0, -5.0, 5144114683.76383),
    (12.0, -8.0, -82819.8594040141),
];

pub const PT2V_3Z: [T3; 23] = [
    (-8.0, 3.0, 2.4400789229065e-11),
    (-6.0, 6.0, -4630574.3033124),
    (-5.0, 6.0, 7288032747.7771),
    (-5.0, 8.0, 3277763028588600.0),
    (-4.0, 5.0, -1105981701.1841),
    (-4.0, 6.0, -3238999157299.6),
    (-4.0, 8.0, 9238140070232500.0),
    (-3.0, -2.0, 8.4225008041371e-13),
    (-3.0, 5.0, 663221436245.51),
    (-3.0, 6.0, -167170186672140.0),
    (-2.0, 2.0, 2537.4935870139),
    (-1.0, -6.0, -8.1973155961052e-21),
    (0.0, 3.0, 328380587890.66),
    (1.0, 1.0, -62500479.117154),
    (2.0, 6.0, 8.0319795746202e+20),
    (3.0, -6.0, -2.0439701133835e-11),
    (3.0, -2.0, -3783.9104705594),
    (6.0, -6.0, 0.0097287654593862),
    (6.0, -5.0, 15.435572168146),
    (6.0, -4.0, -3739.6286292864),
    (6.0, -1.0, -68285901137.457),
    (8.0, -8.0, -0.00024848801561454),
    (8.0, -4.0, 3945360.4949707),
];

pub const PH2T_3A_REG3: [T3; 31] = [
    (-12.0, 0.0, -1.33645667811215e-07),
    (-12.0, 1.0, 4.55912656802978e-06),
    (-12.0, 2.0, -1.46294640700979e-05),
    (-12.0, 6.0, 0.0063934131297008),
    (-12.0, 14.0, 372.783927268847),
    (-12.0, 16.0, -7186.54377460447),
    (-12.0, 20.0, 573494.7521034),
    (-12.0, 22.0, -2675693.29111439),
    (-10.0, 1.0, -3.34066283302614e-05),
    (-10.0, 5.0, -0.0245479214069597),
    (-10.0, 12.0, 47.8087847764996),
    (-8.0, 0.0, 7.64664131818904e-06),
    (-8.0, 2.0, 0.00128350627676972),
    (-8.0, 4.0, 0.0171219081377331),
    (-8.0, 10.0, -8.51007304583213),
    (-5.0, 2.0, -0.0136513461629781),
    (-3.0, 0.0, -3.84460997596657e-06),
    (-2.0, 1.0, 0.00337423807911655),
    (-2.0, 3.0, -0.551624873066791),
    (-2.0, 4.0, 0.72920227710747),
    (-1.0, 0.0, -0.00992522757376041),
    (-1.0, 2.0, -0.119308831407288),
    (0.0, 0.0, 0.793929190615421),
    (0.0, 1.0, 0.454270731799386),
    (1.0, 1.0, 0.20999859125991),
    (3.0, 0.0, -0.00642109823904738),
    (3.0, 1.0, -0.023515586860454),
    (4.0, 0.0, 0.00252233108341612),
    (4.0, 3.0, -0.00764885133368119),
    (10.0, 4.0, 0.0136176427574291),
    (12.0, 5.0, -0.0133027883575669),
];

pub const PH2T_3B_REG3: [T3; 33] = [
    (-12.0, 0.0, 3.2325457364492e-05),
    (-12.0, 1.0, -0.000127575556587181),
    (-10.0, 0.0, -0.000475851877356068),
    (-10.0, 1.0, 0.00156183014181602),
    (-10.0, 5.0, 0.105724860113781),
    (-10.0, 10.0, -85.8514221132534),
    (-10.0, 12.0, 724.140095480911),
    (-8.0, 0.0, 0.00296475810273257),
    (-8.0, 1.0, -0.00592721983365988),
    (-8.0, 2.0, -0.0126305422818666),
    (-8.0, 4.0, -0.115716196364853),
    (-8.0, 10.0, 84.9000969739595),
    (-6.0, 0.0, -0.0108602260086615),
    (-6.0, 1.0, 0.0154304475328851),
    (-6.0, 2.0, 0.0750455441524466),
    (-4.0, 0.0, 0.0252520973612982),
    (-4.0, 1.0, -0.0602507901232996),
    (-3.0, 5.0, -3.07622221350501),
    (-2.0, 0.0, -0.0574011959864879),
    (-2.0, 4.0, 5.03471360939849),
    (-1.0, 2.0, -0.925081888584834),
    (-1.0, 4.0, 3.91733882917546),
    (-1.0, 6.0, -77.314600713019),
    (-1.0, 10.0, 9493.08762098587),
    (-1.0, 14.0, -1410437.19679409),
    (-1.0, 16.0, 8491662.30819026),
    (0.0, 0.0, 0.861095729446704),
    (0.0, 2.0, 0.32334644281172),
    (1.0, 1.0, 0.873281936020439),
    (3.0, 1.0, -0.436653048526683),
    (5.0, 1.0, 0.286596714529479),
    (6.0, 1.0, -0.131778331276228),
    (8.0, 1.0, 0.00676682064330275),
];

pub const PH2V_3A_REG3: [T3; 32] = [
    (-12.0, 6.0, 0.00529944062966028),
    (-12.0, 8.0, -0.170099690234461),
    (-12.0, 12.0, 11.1323814312927),
    (-12.0, 18.0, -2178.98123145125),
    (-10.0, 4.0, -0.000506061827980875),
    (-10.0, 7.0, 0.556495239685324),
    (-10.0, 10.0, -9.43672726094016),
    (-8.0, 5.0, -0.297856807561527),
    (-8.0, 12.0, 93.9353943717186),
    (-6.0, 3.0, 0.0192944939465981),
    (-6.0, 4.0, 0.421740664704763),
    (-6.0, 22.0, -3689141.2628233),
    (-4.0, 2.0, -0.00737566847600639),
    (-4.0, 3.0, -0.354753242424366),
    (-3.0, 7.0, -1.99768169338727),
    (-2.0, 3.0, 1.15456297059049),
    (-2.0, 16.0, 5683.6687581596),
    (-1.0, 0.0, 0.00808169540124668),
    (-1.0, 1.0, 0.172416341519307),
    (-1.0, 2.0, 1.04270175292927),
    (-1.0, 3.0, -0.297691372792847),
    (0.0, 0.0, 0.560394465163593),
    (0.0, 1.0, 0.275234661176914),
    (1.0, 0.0, -0.148347894866012),
    (1.0, 1.0, -0.0651142513478515),
    (1.0, 2.0, -2.92468715386302),
    (2.0, 0.0, 0.0664876096952665),
    (2.0, 2.0, 3.52335014263844),
    (3.0, 0.0, -0.0146340792313332),
    (4.0, 2.0, -2.24503486668184),
    (5.0, 2.0, 1.10533464706142),
    (8.0, 2.0, -0.0408757344495612),
];

pub const PH2V_3B_REG3: [T3; 30] = [
    (-12.0, 0.0, -2.25196934336318e-09),
    (-12.0, 1.0, 1.40674363313486e-08),
    (-8.0, 0.0, 2.3378408528056e-06),
    (-8.0, 1.0, -3.31833715229001e-05),
    (-8.0, 3.0, 0.00107956778514318),
    (-8.0, 6.0, -0.271382067378863),
    (-8.0, 7.0, 1.07202262490333),
    (-8.0, 8.0, -0.853821329075382),
    (-6.0, 0.0, -2.15214194340526e-05),
    (-6.0, 1.0, 0.00076965608822273),
    (-6.0, 2.0, -0.00431136580433864),
    (-6.0, 5.0, 0.453342167309331),
    (-6.0, 6.0, -0.507749535873652),
    (-6.0, 10.0, -100.475154528389),
    (-4.0, 3.0, -0.219201924648793),
    (-4.0, 6.0, -3.21087965668917),
    (-4.0, 10.0, 607.567815637771),
    (-3.0, 0.0, 0.000557686450685932),
    (-3.0, 2.0, 0.18749904002955),
    (-2.0, 1.0, 0.00905368030448107),
    (-2.0, 2.0, 0.285417173048685),
    (-1.0, 0.0, 0.0329924030996098),
    (-1.0, 1.0, 0.239897419685483),
    (-1.0, 4.0, 4.82754995951394),
    (-1.0, 5.0, -11.8035753702231),
    (0.0, 0.0, 0.169490044091791),
    (1.0, 0.0, -0.0179967222507787),
    (1.0, 1.0, 0.0371810116332674),
    (2.0, 2.0, -0.0536288335065096),
    (2.0, 6.0, 1.6069710109252),
];

pub const PS2T_3A_REG3: [T3; 33] = [
    (-12.0, 28.0, 1500420082.63875),
    (-12.0, 32.0, -159397258480.424),
    (-10.0, 4.0, 0.000502181140217975),
    (-10.0, 10.0, -67.2057767855466),
    (-10.0, 12.0, 1450.58545404456),
    (-10.0, 14.0, -8238.8953488889),
    (-8.0, 5.0, -0.154852214233853),
    (-8.0, 7.0, 11.2305046746695),
    (-8.0, 8.0, -29.7000213482822),
    (-8.0, 28.0, 43856513263.5495),
    (-6.0, 2.0, 0.00137837838635464),
    (-6.0, 6.0, -2.97478527157462),
    (-6.0, 32.0, 9717779473494.13),
    (-5.0, 0.0, -5.71527767052398e-05),
    (-5.0, 14.0, 28830.794977842),
    (-5.0, 32.0, -74442828926270.3),
    (-4.0, 6.0, 12.8017324848921),
    (-4.0, 10.0, -368.275545889071),
    (-4.0, 36.0, 6647689047791770.0),
    (-2.0, 1.0, 0.044935925195888),
    (-2.0, 4.0, -4.22897836099655),
    (-1.0, 1.0, -0.240614376434179),
    (-1.0, 6.0, -4.74341365254924),
    (0.0, 0.0, 0.72409399912611),
    (0.0, 1.0, 0.923874349695897),
    (0.0, 4.0, 3.99043655281015),
    (1.0, 0.0, 0.0384066651868009),
    (2.0, 0.0, -0.00359344365571848),
    (2.0, 3.0, -0.735196448821653),
    (3.0, 2.0, 0.188367048396131),
    (8.0, 0.0, 0.000141064266818704),
    (8.0, 1.0, -0.00257418501496337),
    (10.0, 2.0, 0.00123220024851555),
];

pub const PS2T_3B_REG3: [T3; 28] = [
    (-12.0, 1.0, 0.52711170160166),
    (-12.0, 3.0, -40.1317830052742),
    (-12.0, 4.0, 153.020073134484),
    (-12.0, 7.0, -2247.99398218827),
    (-8.0, 0.0, -0.193993484669048),
    (-8.0, 1.0, -1.40467557893768),
    (-8.0, 3.0, 42.6799878114024),
    (-6.0, 0.0, 0.752810643416743),
    (-6.0, 2.0, 22.6657238616417),
    (-6.0, 4.0, -622.873556909932),
    (-5.0, 0.0, -0.660823667935396),
    (-5.0, 1.0, 0.841267087271658),
    (-5.0, 2.0, -25.3717501764397),
    (-5.0, 4.0, 485.708963532948),
    (-5.0, 6.0, 880.531517490555),
    (-4.0, 12.0, 2650155.92794626),
    (-3.0, 1.0, -0.359287150025783),
    (-3.0, 6.0, -656.991567673753),
    (-2.0, 2.0, 2.41768149185367),
    (0.0, 0.0, 0.856873461222588),
    (2.0, 1.0, 0.655143675313458),
    (3.0, 1.0, -0.213535213206406),
    (4.0, 0.0, 0.00562974957606348),
    (5.0, 24.0, -316955725450471.0),
    (6.0, 0.0, -0.000699997000152457),
    (8.0, 3.0, 0.0119845803210767),
    (12.0, 1.0, 1.93848122022095e-05),
    (14.0, 2.0, -2.15095749182309e-05),
];

pub const PS2V_3A_REG3: [T3; 28] = [
    (-12.0, 10.0, 79.5544074093975),
    (-12.0, 12.0, -2382.6124298459),
    (-12.0, 14.0, 17681.3100617787),
    (-10.0, 4.0, -0.00110524727080379),
    (-10.0, 8.0, -15.3213833655326),
    (-10.0, 10.0, 297.544599376982),
    (-10.0, 20.0, -35031520.6871242),
    (-8.0, 5.0, 0.277513761062119),
    (-8.0, 6.0, -0.523964271036888),
    (-8.0, 14.0, -148011.182995403),
    (-8.0, 16.0, 1600148.99374266),
    (-6.0, 28.0, 1708023226634.27),
    (-5.0, 1.0, 0.000246866996006494),
    (-4.0, 5.0, 1.6532608479798),
    (-3.0, 2.0, -0.118008384666987),
    (-3.0, 4.0, 2.537986423559),
    (-2.0, 3.0, 0.965127704669424),
    (-2.0, 8.0, -28.2172420532826),
    (-1.0, 1.0, 0.203224612353823),
    (-1.0, 2.0, 1.10648186063513),
    (0.0, 0.0, 0.52612794845128),
    (0.0, 1.0, 0.277000018736321),
    (0.0, 3.0, 1.08153340501132),
    (1.0, 0.0, -0.0744127885357893),
    (2.0, 0.0, 0.0164094443541384),
    (4.0, 2.0, -0.0680468275301065),
    (5.0, 2.0, 0.025798857610164),
    (6.0, 0.0, -0.000145749861944416),
];

pub const PS2V_3B_REG3: [T3; 31] = [
    (-12.0, 0.0, 5.91599780322238e-05),
    (-12.0, 1.0, -0.00185465997137856),
    (-12.0, 2.0, 0.0104190510480013),
    (-12.0, 3.0, 0.0059864730203859),
    (-12.0, 5.0, -0.771391189901699),
    (-12.0, 6.0, 1.72549765557036),
    (-10.0, 0.0, -0.000467076079846526),
    (-10.0, 1.0, 0.0134533823384439),
    (-10.0, 2.0, -0.0808094336805495),
    (-10.0, 4.0, 0.508139374365767),
    (-8.0, 0.0, 0.00128584643361683),
    (-5.0, 1.0, -1.63899353915435),
    (-5.0, 2.0, 5.86938199318063),
    (-5.0, 3.0, -2.92466667918613),
    (-4.0, 0.0, -0.00614076301499537),
    (-4.0, 1.0, 5.76199014049172),
    (-4.0, 2.0, -12.1613320606788),
    (-4.0, 3.0, 1.67637540957944),
    (-3.0, 1.0, -7.44135838773463),
    (-2.0, 0.0, 0.0378168091437659),
    (-2.0, 1.0, 4.01432203027688),
    (-2.0, 2.0, 16.0279837479185),
    (-2.0, 3.0, 3.17848779347728),
    (-2.0, 4.0, -3.58362310304853),
    (-2.0, 12.0, -1159952.60446827),
    (0.0, 0.0, 0.199256573577909),
    (0.0, 1.0, -0.122270624794624),
    (0.0, 2.0, -19.1449143716586),
    (1.0, 0.0, -0.0150448002905284),
    (1.0, 2.0, 14.6407900162154),
    (2.0, 2.0, -3.2747778718823),
];

pub const H2P_SAT_REG3: [T3; 14] = [
    (0.0, 0.0, 0.600073641753024),
    (1.0, 1.0, -9.36203654849857),
    (1.0, 3.0, 24.6590798594147),
    (1.0, 4.0, -107.014222858224),
    (1.0, 36.0, -91582131580576.8),
    (5.0, 3.0, -8623.32011700662),
    (7.0, 0.0, -23.5837344740032),
    (8.0, 24.0, 2.52304969384128e+17),
    (14.0, 16.0, -3.89718771997719e+18),
    (20.0, 16.0, -3.33775713645296e+22),
    (22.0, 3.0, 35649946963.6328),
    (24.0, 18.0, -1.48547544720641e+26),
    (28.0, 8.0, 3.30611514838798e+18),
    (36.0, 24.0, 8.13641294467829e+37),
];

pub const S2P_SAT_REG3: [T3; 10] = [
    (0.0, 0.0, 0.639767553612785),
    (1.0, 1.0, -12.9727445396014),
    (1.0, 32.0, -2245951258484030.0),
    (4.0, 7.0, 1774667.41801846),
    (12.0, 4.0, 7170793495.71538),
    (12.0, 14.0, -3.78829107169011e+17),
    (16.0, 36.0, -9.55586736431328e+34),
    (24.0, 10.0, 1.87269814676188e+23),
    (28.0, 0.0, 119254746466.473),
    (32.0, 18.0, 1.10649277244882e+36),
];

pub const HS_REGION_H1_S: [T3; 27] = [
    (0.0, 14.0, 0.332171191705237),
    (0.0, 36.0, 0.000611217706323496),
    (1.0, 3.0, -8.82092478906822),
    (1.0, 16.0, -0.45562819254325),
    (2.0, 0.0, -2.63483840850452e-05),
    (2.0, 5.0, -22.3949661148062),
    (3.0, 4.0, -4.28398660164013),
    (3.0, 36.0, -0.616679338856916),
    (4.0, 4.0, -14.682303110404),
    (4.0, 16.0, 284.523138727299),
    (4.0, 24.0, -113.398503195444),
    (5.0, 18.0, 1156.71380760859),
    (5.0, 24.0, 395.551267359325),
    (7.0, 1.0, -1.54891257229285),
    (8.0, 4.0, 19.4486637751291),
    (12.0, 2.0, -3.57915139457043),
    (12.0, 4.0, -3.35369414148819),
    (14.0, 1.0, -0.66442679633246),
    (14.0, 22.0, 32332.1885383934),
    (16.0, 10.0, 3317.66744667084),
    (20.0, 12.0, -22350.1257931087),
    (20.0, 28.0, 5739538.75852936),
    (22.0, 8.0, 173.226193407919),
    (24.0, 3.0, -0.0363968822121321),
    (28.0, 0.0, 8.34596332878346e-07),
    (32.0, 6.0, 5.03611916682674),
    (32.0, 8.0, 65.5444787064505),
];

pub const HS_REGION_H3A_S: [T3; 19] = [
    (0.0, 1.0, 0.822673364673336),
    (0.0, 4.0, 0.181977213534479),
    (0.0, 10.0, -0.0112000260313624),
    (0.0, 16.0, -0.000746778287048033),
    (2.0, 1.0, -0.179046263257381),
    (3.0, 36.0, 0.0424220110836657),
    (4.0, 3.0, -0.341355823438768),
    (4.0, 16.0, -2.09881740853565),
    (5.0, 20.0, -8.22477343323596),
    (5.0, 36.0, -4.99684082076008),
    (6.0, 4.0, 0.191413958471069),
    (7.0, 2.0, 0.0581062241093136),
    (7.0, 28.0, -1655.05498701029),
    (7.0, 32.0, 1588.70443421201),
    (10.0, 14.0, -85.0623535172818),
    (10.0, 32.0, -31771.4386511207),
    (10.0, 36.0, -94589.0406632871),
    (32.0, 0.0, -1.3927384708869e-06),
    (32.0, 6.0, 0.63105253224098),
];

pub const HS_REGION_H2AB_S: [T3; 30] = [
    (1.0, 8.0, -524.581170928788),
    (1.0, 24.0, -9269472.18142218),
    (2.0, 4.0, -237.385107491666),
    (2.0, 32.0, 21077015581.2776),
    (4.0, 1.0, -23.9494562010986),
    (4.0, 2.0, 221.802480294197),
    (7.0, 7.0, -5104725.33393438),
    (8.0, 5.0, 1249813.96109147),
    (8.0, 12.0, 2000084369.96201),
    (10.0, 1.0, -815.158509791035),
    (12.0, 0.0, -157.612685637523),
    (12.0, 7.0, -11420042233.2791),
    (18.0, 10.0, 6623646807768720.0),
    (20.0, 12.0, -2.27622818296144e+18),
    (24.0, 32.0, -1.71048081348406e+31),
    (28.0, 8.0, 6607887669380910.0),
    (28.0, 12.0, 1.66320055886021e+22),
    (28.0, 20.0, -2.18003784381501e+29),
    (28.0, 22.0, -7.87276140295618e+29),
    (28.0, 24.0, 1.51062329700346e+31),
    (32.0, 2.0, 7957321.70300541),
    (32.0, 7.0, 1319576473553470.0),
    (32.0, 12.0, -3.2509706829914e+23),
    (32.0, 14.0, -4.18600611419248e+25),
    (32.0, 24.0, 2.97478906557467e+34),
    (36.0, 10.0, -9.53588761745473e+19),
    (36.0, 12.0, 1.66957699620939e+24),
    (36.0, 20.0, -1.75407764869978e+32),
    (36.0, 22.0, 3.47581490626396e+34),
    (36.0, 28.0, -7.10971318427851e+38),
];

pub const HS_REGION_H2C3B_S: [T3; 16] = [
    (0.0, 0.0, 1.04351280732769),
    (0.0, 3.0, -2.27807912708513),
    (0.0, 4.0, 1.80535256723202),
    (1.0, 0.0, 0.420440834792042),
    (1.0, 12.0, -105721.24483466),
    (5.0, 36.0, 4.36911607493884e+24),
    (6.0, 12.0, -328032702839.753),
    (7.0, 16.0, -6786867608042700.0),
    (8.0, 2.0, 7439.57464645363),
    (8.0, 20.0, -3.56896445355761e+19),
    (12.0, 32.0, 1.67590585186801e+31),
    (16.0, 36.0, -3.55028625419105e+37),
    (22.0, 2.0, 396611982166.538),
    (22.0, 32.0, -4.14716268484468e+40),
    (24.0, 7.0, 3.59080103867382e+18),
    (36.0, 20.0, -1.16994334851995e+40),
];

pub const HS_REGION_H13_S: [T3; 6] = [
    (0.0, 0.0, 0.913965547600543),
    (1.0, -2.0, -4.30944856041991e-05),
    (1.0, 2.0, 60.3235694765419),
    (3.0, -12.0, 1.17518273082168e-18),
    (5.0, -4.0, 0.220000904781292),
    (6.0, -3.0, -69.0815545851641),
];

pub const HS_REGION_T_HS: [T3; 25] = [
    (-12.0, 10.0, 0.00062909626082981),
    (-10.0, 8.0, -0.000823453502583165),
    (-8.0, 3.0, 5.15446951519474e-08),
    (-4.0, 4.0, -1.17565945784945),
    (-3.0, 3.0, 3.48519684726192),
    (-2.0, -6.0, -5.07837382408313e-12),
    (-2.0, 2.0, -2.84637670005479),
    (-2.0, 3.0, -2.36092263939673),
    (-2.0, 4.0, 6.01492324973779),
    (0.0, 0.0, 1.48039650824546),
    (1.0, -3.0, 0.000360075182221907),
    (1.0, -2.0, -0.0126700045009952),
    (1.0, 10.0, -1221843.32521413),
    (3.0, -2.0, 0.149276502463272),
    (3.0, -1.0, 0.698733471798484),
    (5.0, -5.0, -0.0252207040114321),
    (6.0, -6.0, 0.0147151930985213),
    (6.0, -3.0, -1.08618917681849),
    (8.0, -8.0, -0.000936875039816322),
    (8.0, -2.0, 81.9877897570217),
    (8.0, -1.0, -182.041861521835),
    (12.0, -12.0, 2.61907376402688e-06),
    (12.0, -1.0, -29162.6417025961),
    (14.0, -12.0, 1.40660774926165e-05),
    (14.0, 1.0, 7832370.62349385),
];

pub const HS2T_REG43: [T3; 36] = [
    (0.0, 0.0, 0.179882673606601),
    (0.0, 3.0, -0.267507455199603),
    (0.0, 12.0, 1.162767226126),
    (1.0, 0.0, 0.147545428713616),
    (1.0, 1.0, -0.512871635973248),
    (1.0, 2.0, 0.421333567697984),
    (1.0, 5.0, 0.56374952218987),
    (2.0, 0.0, 0.429274443819153),
    (2.0, 5.0, -3.3570455214214),
    (2.0, 8.0, 10.8890916499278),
    (3.0, 0.0, -0.248483390456012),
    (3.0, 2.0, 0.30415322190639),
    (3.0, 3.0, -0.494819763939905),
    (3.0, 4.0, 1.07551674933261),
    (4.0, 0.0, 0.0733888415457688),
    (4.0, 1.0, 0.0140170545411085),
    (5.0, 1.0, -0.106110975998808),
    (5.0, 2.0, 0.0168324361811875),
    (5.0, 4.0, 1.25028363714877),
    (5.0, 16.0, 1013.16840309509),
    (6.0, 6.0, -1.51791558000712),
    (6.0, 8.0, 52.4277865990866),
    (6.0, 22.0, 23049.5545563912),
    (8.0, 1.0, 0.0249459806365456),
    (10.0, 20.0, 2107964.67412137),
    (10.0, 36.0, 366836848.613065),
    (12.0, 24.0, -144814105.365163),
    (14.0, 1.0, -0.0017927637300359),
    (14.0, 28.0, 4899556021.00459),
    (16.0, 12.0, 471.262212070518),
    (16.0, 32.0, -82929439019.8652),
    (18.0, 14.0, -1715.45662263191),
    (18.0, 22.0, 3557776.82973575),
    (18.0, 36.0, 586062760258.436),
    (20.0, 24.0, -12988763.5078195),
    (28.0, 36.0, 31724744937.1057),
];

pub const G5R: [T3; 6] = [
    (1.0, 1.0, 0.0015736404855259),
    (1.0, 2.0, 0.00090153761673944),
    (1.0, 3.0, -0.0050270077677648),
    (2.0, 3.0, 2.2440037409485e-06),
    (2.0, 9.0, -4.1163275453471e-06),
    (3.0, 7.0, 3.7919454822955e-08),
];
