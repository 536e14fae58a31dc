------------------------------- MODULE Curves -------------------------------
(* Small multiples of the generators of the curves that precompiled contracts use   *)
(* (written by bin/mkcurves.py).  Points are known by their logarithm.                *)
EXTENDS Words
SecpN == <<65,65,54,208,140,94,210,191,59,160,72,175,230,220,174,186,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255>>
SecpP == <<47,252,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255>>
(* x of kG, parity of its y, inverse of k modulo N, addresses of kG and -kG *)
Secp == <<
  [x |-> <<152,23,248,22,91,129,242,89,217,40,206,45,219,252,155,2,7,11,135,206,149,98,160,85,172,187,220,249,126,102,190,121>>, odd |-> 0, inv |-> <<1>>, a |-> <<223,91,57,41,144,101,194,184,183,252,93,93,18,105,26,9,82,69,95,126>>, na |-> <<178,74,65,227,66,213,185,10,151,216,157,197,113,64,34,57,242,219,192,128>>],
  [x |-> <<229,158,112,92,185,9,172,171,167,60,239,140,75,142,119,92,216,124,192,149,110,64,69,48,109,125,237,65,148,127,4,198>>, odd |-> 0, inv |-> <<161,32,27,104,70,47,233,223,29,80,164,87,115,110,87,93,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127>>, a |-> <<207,214,204,141,33,94,33,122,124,49,248,20,101,2,92,121,196,213,90,43>>, na |-> <<74,7,15,8,230,33,189,180,145,97,66,170,4,155,60,82,245,143,212,146>>],
  [x |-> <<249,54,224,188,19,241,1,134,176,153,111,131,69,200,49,181,41,82,157,248,133,79,52,73,16,195,88,146,1,138,48,249>>, odd |-> 0, inv |-> <<129,43,36,224,93,148,225,127,210,106,48,202,153,232,201,209,169,170,170,170,170,170,170,170,170,170,170,170,170,170,170,170>>, a |-> <<105,186,28,103,25,248,195,219,177,243,0,98,239,46,55,98,147,235,19,104>>, na |-> <<236,255,174,5,30,205,150,45,212,75,175,15,108,128,68,50,126,244,241,46>>],
  [x |-> <<19,205,196,232,171,148,250,116,132,117,224,14,144,19,108,204,4,20,11,147,4,73,30,88,243,128,13,193,241,219,147,228>>, odd |-> 0, inv |-> <<241,176,40,156,233,198,221,207,44,120,118,3,173,37,3,12,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,191>>, a |-> <<24,167,106,254,81,119,227,16,93,11,35,75,93,164,16,58,188,71,255,30>>, na |-> <<54,140,130,178,78,111,134,232,28,236,137,12,194,250,60,110,137,37,159,182>>],
  [x |-> <<228,239,64,178,105,213,168,203,183,154,97,220,189,132,139,232,40,81,92,10,37,167,180,85,147,32,7,26,77,222,139,47>>, odd |-> 0, inv |-> <<231,230,72,83,56,140,186,76,126,166,182,223,245,241,69,228,101,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102>>, a |-> <<118,178,160,163,1,249,147,199,24,26,213,51,201,93,229,247,69,129,171,225>>, na |-> <<118,182,181,127,108,26,132,43,169,13,160,112,106,226,120,39,3,113,17,148>>],
  [x |-> <<86,117,41,96,20,122,5,47,139,161,104,133,47,71,246,130,211,53,82,53,20,58,69,32,164,238,94,117,213,123,249,255>>, odd |-> 1, inv |-> <<97,54,45,88,117,249,217,31,135,133,188,60,192,98,60,70,84,85,85,85,85,85,85,85,85,85,85,85,85,85,85,213>>, a |-> <<65,17,62,120,160,114,175,229,55,191,71,143,137,25,184,68,159,254,123,229>>, na |-> <<104,106,43,129,115,213,42,10,26,79,127,227,62,136,57,53,81,153,105,220>>]>>

(* no points have these as x *)
SecpOff == <<<<5>>, <<7>>, <<9>>>>

BnP == <<71,253,124,216,22,140,32,60,141,202,113,104,145,106,129,151,93,88,129,129,182,69,80,184,41,160,49,225,114,78,100,48>>
BnN == <<1,0,0,240,147,245,225,67,145,112,185,121,72,232,51,40,93,88,129,129,182,69,80,184,41,160,49,225,114,78,100,48>>
(* x, y of mG *)
BnG == <<
  <<<<1>>, <<2>>, <<1>>>>,
  <<<<211,207,135,109,193,8,194,211,168,28,135,22,169,22,120,217,133,21,24,104,91,4,133,155,2,26,19,46,231,68,6,3>>, <<196,162,24,90,122,191,62,255,199,143,83,227,73,164,166,104,10,156,174,178,150,95,132,231,146,124,10,14,140,115,237,21>>, <<1,0,0,248,201,250,240,161,72,184,220,60,36,244,25,148,46,172,192,64,219,34,40,220,20,208,152,112,57,39,50,24>>>>,
  <<<<240,171,21,25,150,85,211,242,121,230,184,21,71,216,21,147,21,189,182,177,188,50,2,244,63,234,107,197,154,191,105,7>>, <<97,34,254,217,61,255,241,205,87,91,156,11,180,99,158,49,117,100,8,141,124,219,79,85,41,148,72,224,190,153,183,42>>, <<1,0,0,160,98,78,65,45,182,245,208,251,218,154,34,112,147,229,0,1,207,131,53,208,27,192,203,64,247,222,66,32>>>>,
  <<<<118,26,20,233,46,109,170,76,130,153,101,238,131,43,89,155,140,32,165,29,91,69,239,190,188,20,244,248,74,182,167,6>>, <<188,47,231,65,90,239,136,206,100,86,231,166,248,216,151,138,233,95,228,148,155,229,76,16,172,49,238,140,67,78,231,8>>, <<1,0,0,244,46,120,233,242,108,20,75,91,54,238,38,222,69,2,33,225,72,52,60,74,31,56,229,40,214,58,75,36>>>>,
  <<<<169,63,22,250,167,168,73,232,156,163,83,137,216,222,228,98,67,119,43,118,4,2,188,102,247,224,254,14,223,57,193,23>>, <<124,204,212,198,24,87,252,63,39,89,185,224,88,146,170,11,231,159,138,175,87,163,100,71,102,96,177,172,155,85,224,1>>, <<103,102,102,198,212,251,243,231,6,45,74,202,233,92,174,169,139,86,205,51,124,181,185,73,170,217,19,90,148,82,91,19>>>>,
  <<<<249,74,104,140,91,61,254,42,118,42,179,211,21,146,113,86,152,119,146,231,217,47,121,224,244,82,63,26,65,202,244,9>>, <<200,217,116,52,88,100,15,157,146,38,158,66,89,170,115,82,51,173,228,34,171,102,67,93,179,212,172,149,215,243,142,13>>, <<1,0,0,72,251,161,145,184,35,51,197,186,145,65,43,76,248,30,65,193,194,228,66,196,34,176,254,16,181,150,83,40>>>>,
  <<<<120,224,255,171,134,107,58,152,118,189,1,184,236,198,111,203,134,147,98,119,244,37,83,154,117,141,187,211,46,43,7,23>>, <<158,175,212,96,127,159,128,119,27,244,24,93,240,59,254,173,122,55,25,250,75,181,123,1,82,221,48,209,108,218,138,22>>, <<110,219,182,253,203,144,178,9,167,52,136,90,10,216,226,78,13,232,237,237,208,192,157,172,115,59,80,105,16,194,233,6>>>>,
  <<<<99,106,48,44,136,55,57,4,247,90,21,254,33,193,56,130,168,254,156,59,233,245,114,244,16,12,72,35,29,213,177,8>>, <<33,32,130,66,70,167,90,208,123,157,11,197,142,175,102,195,21,96,70,18,164,122,51,78,163,63,173,61,113,54,152,41>>, <<1,0,0,114,225,182,101,27,127,66,130,106,63,107,45,131,81,45,81,177,255,60,70,129,36,108,11,133,164,196,87,42>>>>,
  <<<<105,184,67,59,196,24,79,25,63,104,22,230,183,16,199,169,41,125,119,234,192,233,254,192,84,18,255,141,234,48,151,3>>, <<152,61,180,36,144,191,21,92,90,58,131,91,214,130,105,53,119,229,140,229,214,35,7,195,40,122,252,198,252,95,58,7>>, <<1,0,0,128,131,104,172,145,157,71,193,79,121,206,216,234,25,50,1,172,190,175,156,21,37,0,101,86,244,211,3,43>>>>,
  <<<<180,69,64,75,146,29,149,198,4,121,202,244,24,165,127,218,114,28,167,78,53,226,169,4,216,26,159,185,87,162,211,9>>, <<108,202,204,24,37,155,32,2,232,202,14,103,15,202,36,26,149,63,16,250,135,228,211,85,157,137,253,227,42,225,75,23>>, <<52,51,51,91,180,248,234,21,204,206,1,34,153,34,241,104,116,87,167,90,153,253,4,1,234,188,162,157,131,208,223,33>>>>,
  <<<<239,73,61,252,128,31,183,168,44,193,42,233,127,71,130,36,184,205,238,81,134,128,168,157,24,9,176,55,85,112,20,42>>, <<56,236,103,234,25,126,23,182,125,113,212,159,119,140,97,122,135,88,146,2,20,223,29,142,179,168,62,36,127,238,247,45>>, <<47,186,232,226,146,112,105,1,239,40,44,207,235,37,42,61,150,241,209,23,43,95,215,136,131,81,41,105,181,214,152,17>>>>,
  <<<<81,200,43,0,209,183,192,159,176,38,101,243,228,217,90,247,102,1,4,141,17,180,201,154,171,209,140,28,71,44,211,37>>, <<156,182,133,85,9,249,91,174,11,32,28,203,99,43,244,127,54,240,120,144,6,4,52,223,173,185,12,188,233,154,176,45>>, <<1,0,0,156,199,203,57,126,218,81,63,26,237,148,47,186,170,59,97,161,60,149,73,62,38,40,24,249,147,242,91,44>>>>,
  <<<<63,47,245,48,224,41,181,8,228,105,20,180,253,195,184,248,23,159,103,101,52,9,86,15,241,164,167,200,140,111,232,5>>, <<144,205,43,210,37,7,2,111,221,23,84,113,143,115,200,43,43,180,204,211,19,233,216,190,103,151,192,187,20,189,87,40>>, <<1,0,0,64,156,167,11,102,114,5,53,250,125,17,166,194,164,140,237,158,30,143,172,71,117,108,6,70,27,92,171,44>>>>,
  <<<<102,207,83,78,216,155,164,181,127,195,87,202,209,255,123,97,157,255,110,244,177,210,28,93,75,20,128,120,177,43,191,21>>, <<95,53,209,147,137,22,76,98,215,141,89,54,224,46,33,42,234,242,54,94,43,179,222,131,112,209,224,156,127,121,156,4>>, <<183,109,219,254,101,72,217,132,83,26,68,45,5,108,113,167,6,244,246,118,104,224,78,214,185,29,168,52,8,225,116,3>>>>,
  <<<<60,246,87,116,80,205,93,176,79,82,3,105,51,58,152,193,108,138,47,125,229,73,245,123,218,185,106,72,33,177,150,45>>, <<227,167,218,32,153,69,121,226,250,34,202,62,46,181,201,177,161,115,226,118,164,73,222,223,53,202,121,25,115,69,203,29>>, <<205,204,204,236,70,169,166,162,87,100,195,152,248,30,58,227,131,199,153,102,41,231,61,195,56,243,91,115,49,198,115,6>>>>,
  <<<<68,63,24,106,170,157,248,184,217,228,195,149,57,228,119,169,192,26,61,169,247,133,227,160,252,16,110,127,51,133,244,23>>, <<173,149,92,2,136,60,64,64,68,12,153,116,70,108,156,187,209,57,221,110,198,98,218,22,53,150,219,97,21,220,204,5>>, <<1,0,0,177,58,214,163,47,136,217,29,242,195,169,176,85,215,66,105,25,91,65,203,28,39,134,30,179,139,9,94,45>>>>>>

(* imaginary and real part of x and of y of mG2 *)
BnG2 == <<
  <<<<194,18,243,174,183,133,228,151,18,231,169,53,51,73,170,241,37,93,251,49,183,191,96,114,58,72,13,146,147,147,142,25>>, <<237,246,146,217,92,189,222,70,221,218,94,247,212,34,67,103,121,68,92,94,102,0,106,66,118,30,31,18,239,222,0,24>>, <<91,151,34,209,220,218,172,85,243,142,179,112,51,49,75,188,149,51,12,105,173,153,158,236,117,240,95,88,208,137,6,9>>, <<170,125,250,102,1,204,230,76,123,211,67,12,105,231,209,227,143,64,203,141,128,113,171,74,235,109,140,219,165,94,200,18>>>>,
  <<<<121,173,40,57,140,237,87,153,132,53,216,198,49,100,184,109,112,51,115,58,184,33,1,182,55,155,241,180,93,32,62,32>>, <<185,179,180,98,9,19,248,73,238,42,166,169,207,211,92,157,20,111,62,124,39,89,108,195,232,211,17,253,52,114,220,39>>, <<82,225,157,80,240,133,225,152,212,72,223,78,107,86,5,53,157,87,49,57,21,140,43,114,99,116,130,183,165,138,94,25>>, <<46,93,43,18,173,109,42,110,70,192,177,230,79,155,165,68,9,131,196,66,39,55,188,160,146,95,126,151,184,83,187,4>>>>,
  <<<<133,110,182,255,50,79,130,201,167,160,120,104,107,21,4,188,235,228,207,93,205,145,81,115,66,151,187,87,47,119,20,16>>, <<245,199,251,148,6,250,222,18,0,94,154,176,140,71,126,141,94,113,146,225,38,40,229,81,144,14,177,77,120,78,6,6>>, <<178,17,119,20,202,234,42,69,65,84,181,73,172,83,148,221,35,51,141,243,194,252,47,146,183,75,53,243,53,35,30,2>>, <<151,85,108,102,87,109,3,101,151,231,33,69,215,32,185,105,160,104,44,141,156,15,75,7,224,185,181,129,86,29,142,5>>>>,
  <<<<111,35,113,149,194,133,109,90,63,140,161,144,246,102,111,32,132,215,118,249,147,90,72,162,213,122,86,158,71,104,6,41>>, <<44,226,54,180,221,180,9,119,253,69,76,8,229,112,21,19,66,196,204,80,168,99,128,195,71,47,106,111,248,219,221,41>>, <<246,168,97,230,190,245,255,142,75,65,201,112,182,211,212,2,4,176,19,36,27,67,22,91,122,38,156,81,191,164,116,30>>, <<247,55,188,40,103,84,162,220,90,110,39,20,189,65,208,5,59,200,67,36,195,60,124,202,147,58,43,247,247,10,159,41>>>>,
  <<<<161,178,40,228,16,229,113,6,213,89,55,175,197,122,181,87,36,22,225,222,8,18,28,157,217,95,181,97,245,204,9,10>>, <<216,16,100,160,144,131,112,19,145,154,138,174,248,93,219,245,234,72,57,96,60,119,229,244,19,45,48,59,66,156,83,46>>, <<99,199,252,28,1,20,20,210,87,64,33,228,254,87,214,193,27,28,201,120,13,189,238,228,54,167,36,57,81,99,183,25>>, <<246,107,111,251,148,211,70,157,212,90,83,207,76,4,35,235,229,182,183,60,6,236,47,122,199,39,55,184,154,159,141,47>>>>,
  <<<<46,119,35,238,46,126,146,117,86,183,86,218,200,119,89,74,7,22,227,25,78,192,255,226,167,0,231,58,39,96,75,27>>, <<150,155,50,200,169,172,159,86,7,98,126,210,50,192,129,246,82,193,79,87,10,109,235,133,107,68,59,67,133,249,135,22>>, <<216,49,220,41,102,216,39,54,159,136,87,188,112,201,37,217,183,236,165,9,240,25,71,30,216,192,75,139,253,242,124,30>>, <<134,229,117,37,98,116,184,242,184,110,123,102,135,53,43,80,136,208,54,218,140,102,170,126,202,215,246,76,175,107,251,36>>>>>>

(* on the twist, but not in the subgroup *)
BnOutside == <<<<1>>, <<2>>, <<222,95,143,128,181,182,24,89,93,183,167,246,19,124,127,119,90,0,106,84,133,172,61,150,42,185,155,89,121,193,118,43>>, <<206,1,65,6,127,22,87,240,19,35,214,209,38,77,31,56,197,224,206,45,160,236,153,80,185,8,147,65,120,114,31,16>>>>
BlsR == <<1,0,0,0,255,255,255,255,254,91,254,255,2,164,189,83,5,216,161,9,8,216,57,51,72,125,157,41,83,167,237,115>>
(* compressed cG, from c = 0 *)
BlsG == <<
  <<192,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>,
  <<151,241,211,167,49,151,215,148,38,149,99,140,79,169,172,15,195,104,140,79,151,116,185,5,161,78,58,63,23,27,172,88,108,85,232,63,249,122,26,239,251,58,240,10,219,34,198,187>>,
  <<165,114,203,234,144,77,103,70,136,8,200,235,80,169,69,12,151,33,219,48,145,40,1,37,67,144,45,10,195,88,166,42,226,143,117,187,143,28,124,66,195,154,140,85,41,191,15,78>>,
  <<137,236,227,8,249,209,240,19,23,101,33,45,236,169,150,151,177,18,214,31,155,233,165,241,243,120,10,81,51,91,63,249,129,116,122,11,44,162,23,155,150,210,192,201,2,78,82,36>>,
  <<172,155,96,213,175,203,213,102,58,138,68,183,197,160,47,25,233,167,122,176,163,91,214,88,9,187,92,103,236,88,44,137,127,235,4,222,204,105,75,19,224,133,135,243,255,155,91,96>>,
  <<176,231,121,31,185,114,254,1,65,89,170,51,169,134,34,218,60,220,152,255,112,121,101,229,54,216,99,107,95,204,90,199,169,26,140,70,229,154,0,220,165,117,175,15,24,251,19,220>>>>

(* Constants of SHA-256, as high and low halves *)
ShaK == <<<<17034,12184>>,<<28983,17553>>,<<46528,64463>>,<<59829,56229>>,<<14678,49755>>,<<23025,4593>>,<<37439,33444>>,<<43804,24277>>,<<55303,43672>>,<<4739,23297>>,<<9265,34238>>,<<21772,32195>>,<<29374,23924>>,<<32990,45566>>,<<39900,1703>>,<<49563,61812>>,<<58523,27073>>,<<61374,18310>>,<<4033,40390>>,<<9228,41420>>,<<11753,11375>>,<<19060,33962>>,<<23728,43484>>,<<30457,35034>>,<<38974,20818>>,<<43057,50797>>,<<45059,10184>>,<<48985,32711>>,<<50912,3059>>,<<54695,37191>>,<<1738,25425>>,<<5161,10599>>,<<10167,2693>>,<<11803,8504>>,<<19756,28156>>,<<21304,3347>>,<<25866,29524>>,<<30314,2747>>,<<33218,51502>>,<<37490,11397>>,<<41663,59553>>,<<43034,26187>>,<<49739,35696>>,<<51052,20899>>,<<53650,59417>>,<<54937,1572>>,<<62478,13701>>,<<4202,41072>>,<<6564,49430>>,<<7735,27656>>,<<10056,30540>>,<<13488,48309>>,<<14620,3251>>,<<20184,43594>>,<<23452,51791>>,<<26670,28659>>,<<29839,33518>>,<<30885,25455>>,<<33992,30740>>,<<36039,520>>,<<37054,65530>>,<<42064,27883>>,<<48889,41975>>,<<50801,30962>>>>
ShaH == <<<<27145,58983>>,<<47975,44677>>,<<15470,62322>>,<<42319,62778>>,<<20750,21119>>,<<39685,26764>>,<<8067,55723>>,<<23520,52505>>>>
(* Initial vector of BLAKE2b, low limb first *)
BlakeIV == <<<<51464,62396,58983,27145>>,<<42811,33994,44677,47975>>,<<63531,65172,62322,15470>>,<<14065,24349,62778,42319>>,<<33489,44518,21119,20750>>,<<27679,11070,26764,39685>>,<<48491,64321,55723,8067>>,<<8569,4990,52505,23520>>>>
=============================================================================
