------------------------------ MODULE TagCodes ------------------------------
(* The published code tables of the tag families: words in base 64, least   *)
(* significant digit first, the identity of a word being its place.         *)
EXTENDS Naturals
C16h5 == <<
  <<27,12,2>>,<<37,58,2>>,<<42,17,3>>,<<57,22,4>>,<<38,38,7>>,<<43,61,7>>,<<24,13,11>>,<<5,29,14>>,<<25,57,15>>,
  <<45,21,1>>,<<11,32,3>>,<<43,2,15>>,<<4,54,0>>,<<54,28,4>>,<<50,49,8>>,<<16,60,10>>,<<60,36,0>>,<<52,14,9>>,
  <<3,20,10>>,<<15,26,4>>,<<55,4,14>>,<<21,30,5>>,<<2,61,13>>,<<29,48,1>>,<<28,39,14>>,<<45,14,7>>,<<31,53,10>>,
  <<48,20,13>>,<<10,31,0>>,<<46,60,10>>
  >>
C16h5o == <<
  <<27,12,2>>,<<37,58,2>>,<<42,17,3>>,<<57,22,4>>,<<23,33,6>>,<<43,61,7>>,<<19,54,10>>,<<24,13,11>>,<<29,36,11>>,
  <<5,29,14>>,<<45,21,1>>,<<18,15,13>>,<<28,61,13>>,<<54,28,4>>,<<50,49,8>>,<<2,40,5>>,<<43,12,13>>,<<39,33,1>>,
  <<15,26,4>>,<<17,50,13>>,<<0,37,4>>,<<45,39,10>>,<<21,47,2>>,<<26,38,5>>,<<9,0,9>>,<<54,7,6>>,<<16,33,3>>,
  <<23,5,8>>,<<10,63,11>>,<<60,33,9>>
  >>
C25h7 == <<
  <<13,28,55,18,0>>,<<38,15,41,5,1>>,<<43,38,25,41,1>>,<<53,20,58,48,0>>,<<58,43,42,20,1>>,<<24,54,12,43,0>>,
  <<34,36,45,50,1>>,<<45,62,2,11,0>>,<<50,21,51,46,0>>,<<55,44,35,18,1>>,<<11,9,37,33,1>>,<<12,53,25,50,0>>,
  <<42,63,59,8,0>>,<<52,45,28,16,1>>,<<57,4,13,52,1>>,<<43,43,48,25,1>>,<<53,25,17,33,0>>,<<14,13,3,20,1>>,
  <<24,59,35,27,0>>,<<29,18,20,63,0>>,<<44,23,37,42,0>>,<<54,5,6,50,1>>,<<40,44,41,23,1>>,<<50,26,10,31,0>>,
  <<11,14,60,17,1>>,<<16,37,44,53,1>>,<<12,58,48,34,0>>,<<17,17,33,6,1>>,<<37,45,34,21,1>>,<<8,15,53,15,1>>,
  <<58,53,24,53,0>>,<<9,59,41,32,0>>,<<49,51,44,62,0>>,<<5,16,46,13,1>>,<<6,60,34,30,0>>,<<11,19,19,2,1>>,
  <<22,45,40,26,1>>,<<42,9,42,41,1>>,<<5,21,5,62,0>>,<<36,11,28,37,1>>,<<41,34,12,9,0>>,<<22,50,63,10,1>>,
  <<42,14,1,26,1>>,<<62,42,2,41,1>>,<<36,16,51,21,1>>,<<51,21,4,1,1>>,<<2,27,21,44,0>>,<<17,32,38,23,0>>,
  <<62,47,25,25,1>>,<<35,41,21,53,1>>,<<37,1,63,22,0>>,<<39,25,40,56,0>>,<<20,41,27,58,1>>,<<26,49,23,31,1>>,
  <<2,42,26,61,1>>,<<17,47,43,40,1>>,<<57,39,46,6,0>>,<<17,57,25,9,1>>,<<43,24,0,13,1>>,<<58,29,17,56,0>>,
  <<40,30,16,59,0>>,<<36,56,43,24,1>>,<<11,10,17,22,0>>,<<15,58,35,25,1>>,<<11,15,40,6,0>>,<<25,45,27,17,0>>,
  <<26,25,16,34,1>>,<<48,13,59,18,0>>,<<17,28,59,27,1>>,<<55,1,44,8,1>>,<<58,5,10,59,0>>,<<52,7,60,54,0>>,
  <<3,13,13,34,0>>,<<29,49,10,22,0>>,<<40,11,32,46,0>>,<<29,54,33,6,0>>,<<44,59,50,49,1>>,<<5,47,36,36,0>>,
  <<51,42,12,55,0>>,<<21,52,6,34,0>>,<<37,37,12,30,1>>,<<26,26,60,22,0>>,<<33,9,22,28,1>>,<<12,11,14,29,1>>,
  <<52,3,17,59,1>>,<<40,42,22,5,0>>,<<10,42,34,15,0>>,<<45,11,53,9,0>>,<<17,25,60,20,1>>,<<48,25,1,29,1>>,
  <<5,44,37,29,0>>,<<59,2,28,6,1>>,<<3,30,42,28,1>>,<<33,50,58,19,0>>,<<23,9,49,60,0>>,<<60,7,4,9,1>>,
  <<8,29,19,3,0>>,<<21,60,33,48,0>>,<<55,0,5,43,0>>,<<18,22,14,32,1>>,<<16,8,19,31,0>>,<<7,6,39,40,0>>,
  <<47,58,62,10,0>>,<<23,61,47,9,0>>,<<2,58,16,26,0>>,<<28,25,55,29,0>>,<<23,7,30,42,1>>,<<26,56,11,16,1>>,
  <<58,56,33,42,1>>,<<28,61,4,37,1>>,<<50,0,53,38,1>>,<<23,34,41,5,0>>,<<57,58,40,1,1>>,<<60,54,48,60,0>>,
  <<17,5,42,1,1>>,<<21,58,19,53,1>>,<<46,51,8,13,1>>,<<10,63,52,51,0>>,<<53,46,40,28,1>>,<<44,59,1,55,0>>,
  <<27,35,30,26,0>>,<<35,20,33,27,1>>,<<37,40,31,1,1>>,<<12,44,43,34,1>>,<<29,29,2,49,0>>,<<54,57,24,27,0>>,
  <<27,27,13,58,0>>,<<23,63,22,56,0>>,<<2,26,2,43,1>>,<<27,13,52,29,0>>,<<29,39,53,40,0>>,<<14,49,41,14,0>>,
  <<26,6,57,8,1>>,<<23,32,37,56,1>>,<<54,32,42,0,0>>,<<36,22,20,5,0>>,<<13,50,9,8,1>>,<<41,61,53,46,0>>,
  <<2,60,1,55,1>>,<<62,61,21,23,0>>,<<1,22,16,11,1>>,<<2,27,56,13,1>>,<<9,16,21,56,0>>,<<25,22,35,42,1>>,
  <<24,43,26,14,1>>,<<42,52,9,44,0>>,<<15,34,4,21,0>>,<<28,20,3,15,1>>,<<57,1,54,37,0>>,<<18,44,37,44,0>>,
  <<52,44,29,43,1>>,<<46,14,50,50,1>>,<<56,28,53,5,1>>,<<56,46,3,12,1>>,<<22,28,7,53,0>>,<<42,59,12,34,1>>,
  <<39,37,47,46,0>>,<<57,52,38,8,1>>,<<27,38,30,13,1>>,<<5,55,10,13,0>>,<<13,33,35,11,0>>,<<58,15,13,36,0>>,
  <<19,28,50,8,0>>,<<49,38,20,31,1>>,<<22,19,40,42,0>>,<<56,55,45,48,0>>,<<6,25,37,25,1>>,<<31,17,51,19,0>>,
  <<49,26,39,8,0>>,<<23,55,21,9,1>>,<<12,51,52,27,1>>,<<60,63,42,18,0>>,<<38,54,6,49,0>>,<<51,30,28,33,0>>,
  <<11,63,17,12,1>>,<<15,49,6,39,0>>,<<7,37,61,33,1>>,<<36,35,23,33,0>>,<<11,60,43,56,0>>,<<12,45,1,40,0>>,
  <<59,36,20,40,0>>,<<38,29,45,30,0>>,<<2,58,15,51,0>>,<<27,45,1,38,1>>,<<5,50,44,50,1>>,<<27,51,34,21,0>>,
  <<56,57,48,22,1>>,<<5,27,54,35,0>>,<<63,10,51,12,0>>,<<20,29,14,11,1>>,<<54,41,22,2,0>>,<<58,14,30,53,1>>,
  <<1,41,62,9,0>>,<<31,11,1,17,1>>,<<52,38,59,25,0>>,<<26,20,42,54,0>>,<<23,44,28,7,0>>,<<61,43,20,19,0>>,
  <<21,23,51,24,0>>,<<52,12,34,59,0>>,<<21,57,20,31,1>>,<<48,3,11,46,1>>,<<35,39,25,18,1>>,<<58,55,19,20,1>>,
  <<50,51,37,29,0>>,<<16,62,42,21,0>>,<<44,26,33,11,1>>,<<44,33,61,52,1>>,<<27,30,50,63,0>>,<<29,11,2,34,1>>,
  <<56,17,29,38,0>>,<<18,3,28,35,0>>,<<38,25,11,13,0>>,<<38,20,57,51,0>>,<<61,16,36,33,1>>,<<41,56,40,30,0>>,
  <<37,42,6,39,1>>,<<61,9,42,60,1>>,<<54,4,50,10,1>>,<<13,52,12,52,0>>,<<32,12,11,11,1>>,<<11,44,29,31,1>>,
  <<59,20,19,1,0>>,<<47,50,50,22,1>>,<<7,20,26,57,1>>,<<37,7,15,8,1>>,<<26,1,6,5,1>>,<<12,57,47,19,1>>,
  <<52,4,40,21,0>>,<<18,62,57,6,1>>,<<39,10,13,29,1>>,<<29,44,18,26,0>>,<<62,19,30,14,0>>,<<61,60,47,42,0>>,
  <<12,9,34,37,0>>,<<55,61,9,15,1>>,<<15,58,14,4,1>>,<<42,47,23,60,0>>,<<29,45,31,38,0>>,<<1,5,55,12,0>>,
  <<13,21,43,0,0>>,<<48,41,51,8,1>>
  >>
C25h9 == <<
  <<49,47,28,21,1>>,<<54,6,13,57,1>>,<<40,45,48,30,1>>,<<13,39,44,58,1>>,<<14,19,33,11,1>>,<<59,34,20,13,0>>,
  <<38,31,53,29,0>>,<<43,54,37,1,1>>,<<39,11,42,46,1>>,<<8,26,42,55,0>>,<<39,36,29,32,0>>,<<1,9,27,20,0>>,
  <<46,34,60,54,0>>,<<25,56,16,57,1>>,<<18,39,1,22,1>>,<<2,10,24,27,1>>,<<53,0,62,24,1>>,<<1,46,25,39,0>>,
  <<4,59,62,28,1>>,<<9,40,35,43,0>>,<<17,49,55,23,0>>,<<60,31,19,40,1>>,<<34,21,9,55,0>>,<<5,57,2,32,1>>,
  <<44,16,53,48,1>>,<<36,62,48,33,0>>,<<9,28,20,36,0>>,<<48,19,40,25,1>>,<<37,10,15,50,0>>,<<59,58,51,32,0>>,
  <<63,5,23,22,0>>,<<16,1,13,15,1>>,<<17,43,32,62,0>>,<<48,14,54,45,1>>,<<14,7,25,46,0>>
  >>
C36h11 == <<
  <<4,22,40,24,29,53>>,<<9,45,24,60,23,54>>,<<14,4,9,32,18,55>>,<<24,50,41,39,7,57>>,<<34,32,10,47,60,58>>,
  <<44,14,43,54,49,60>>,<<5,2,29,41,22,1>>,<<20,7,46,20,6,4>>,<<45,58,31,7,43,8>>,<<50,17,16,43,37,9>>,
  <<6,46,17,58,15,13>>,<<21,51,34,37,63,15>>,<<26,10,19,9,58,16>>,<<31,33,3,45,52,17>>,<<41,15,36,52,41,19>>,
  <<46,38,20,24,36,20>>,<<56,20,53,31,25,22>>,<<12,49,54,46,3,26>>,<<17,8,39,18,62,26>>,<<42,59,24,5,35,31>>,
  <<47,18,9,41,29,32>>,<<52,41,57,12,24,33>>,<<62,23,26,20,13,35>>,<<23,11,12,7,50,39>>,<<28,34,60,42,44,40>>,
  <<43,39,13,22,28,43>>,<<48,62,61,57,22,44>>,<<58,44,30,1,12,46>>,<<29,14,49,59,37,52>>,<<34,37,33,31,32,53>>,
  <<54,1,35,46,10,57>>,<<26,15,42,57,29,11>>,<<56,25,12,16,61,16>>,<<17,13,62,2,34,21>>,<<37,41,63,17,12,25>>,
  <<42,0,48,53,6,26>>,<<47,23,32,25,1,27>>,<<52,46,16,61,59,27>>,<<28,39,19,27,16,35>>,<<53,26,5,14,53,39>>,
  <<9,55,6,29,31,43>>,<<29,19,8,44,9,47>>,<<59,29,42,2,41,52>>,<<5,12,11,10,30,54>>,<<20,17,28,53,13,57>>,
  <<50,27,62,11,45,62>>,<<26,20,1,42,1,6>>,<<46,48,2,57,43,9>>,<<56,30,35,0,33,11>>,<<17,18,21,51,5,16>>,
  <<28,44,42,11,52,29>>,<<48,8,44,26,30,33>>,<<58,54,12,34,19,35>>,<<19,42,62,20,56,39>>,<<5,17,34,58,1,49>>,
  <<20,22,51,37,49,51>>,<<51,12,10,13,10,5>>,<<27,5,13,43,30,12>>,<<43,54,18,39,7,27>>,<<53,36,51,46,60,28>>,
  <<19,47,21,5,28,34>>,<<24,6,6,41,22,35>>,<<29,29,54,12,17,36>>,<<59,39,24,35,48,41>>,<<5,22,57,42,37,43>>,
  <<20,27,10,22,21,46>>,<<50,42,3,29,24,46>>,<<26,35,6,59,44,53>>,<<47,43,60,26,16,5>>,<<58,5,18,51,62,18>>,
  <<63,28,2,23,57,19>>,<<29,39,36,45,24,25>>,<<55,6,11,49,54,41>>,<<22,61,33,24,15,59>>,<<23,41,22,41,8,7>>,
  <<58,10,41,35,34,13>>,<<34,3,44,1,55,20>>,<<49,8,61,44,38,23>>,<<20,42,15,39,0,30>>,<<47,53,42,59,23,58>>,
  <<10,1,6,16,47,22>>,<<45,34,24,10,9,29>>,<<18,28,20,38,21,59>>,<<45,39,47,58,44,23>>,<<21,32,50,24,1,31>>,
  <<52,22,9,0,26,48>>,<<43,20,29,9,30,58>>,<<25,16,5,28,38,14>>,<<47,4,48,12,3,42>>,<<16,19,48,21,14,19>>,
  <<21,42,32,57,8,20>>,<<32,4,54,17,55,33>>,<<13,20,41,19,6,42>>,<<39,51,15,23,36,58>>,<<40,31,4,40,29,6>>,
  <<55,36,21,19,13,9>>,<<27,50,28,30,32,27>>,<<23,7,33,11,31,38>>,<<41,16,16,41,58,12>>,<<7,27,50,63,25,18>>,
  <<17,9,19,7,15,20>>,<<47,19,53,29,46,25>>,<<14,15,35,53,42,37>>,<<19,38,19,25,37,38>>,<<44,25,5,12,10,43>>,
  <<10,36,39,34,41,48>>,<<29,25,11,17,62,34>>,<<11,21,51,35,6,55>>,<<27,6,57,31,47,5>>,<<38,32,14,56,29,19>>,
  <<31,54,11,35,20,53>>,<<46,59,28,14,4,56>>,<<22,52,31,44,24,63>>,<<59,45,27,8,37,29>>,<<2,29,53,13,18,54>>,
  <<12,16,45,5,43,50>>,<<50,53,29,50,48,28>>,<<2,39,35,46,25,43>>,<<7,62,19,18,20,44>>,<<31,20,22,5,43,20>>,
  <<45,50,9,16,5,6>>,<<13,26,44,56,58,29>>,<<53,18,47,22,15,37>>,<<21,53,58,14,33,2>>,<<13,31,3,41,30,24>>,
  <<34,39,57,8,2,40>>,<<17,15,22,44,3,8>>,<<14,16,15,42,59,30>>,<<45,16,20,50,27,37>>,<<24,13,53,2,28,16>>,
  <<1,50,44,49,41,35>>,<<48,25,9,21,43,3>>,<<17,45,32,14,26,39>>,<<33,30,38,10,3,54>>,<<60,2,53,16,13,55>>,
  <<18,55,31,1,42,18>>,<<14,17,59,30,12,24>>,<<44,37,11,22,51,18>>,<<5,45,25,10,39,1>>,<<58,23,27,34,28,46>>,
  <<42,43,44,22,23,26>>,<<58,43,55,35,43,24>>,<<23,15,60,25,53,12>>,<<16,37,57,4,44,46>>,<<42,24,60,9,25,41>>,
  <<36,26,46,5,9,23>>,<<21,31,11,59,32,9>>,<<26,54,59,30,27,10>>,<<38,60,5,8,3,36>>,<<36,2,39,8,39,43>>,
  <<39,6,5,59,18,15>>,<<36,12,21,41,46,32>>,<<39,16,51,27,26,4>>,<<54,21,4,7,10,7>>,<<47,43,1,50,0,41>>,
  <<48,28,13,51,29,47>>,<<30,24,53,5,38,3>>,<<15,44,23,12,41,37>>,<<36,13,1,30,63,25>>,<<22,62,18,36,16,24>>,
  <<60,55,31,18,37,44>>,<<43,41,42,22,46,1>>,<<57,12,53,17,44,45>>,<<13,41,54,32,22,49>>,<<43,7,53,56,4,33>>,
  <<52,14,56,31,36,17>>,<<53,19,32,34,16,2>>,<<9,19,3,4,53,31>>,<<10,63,55,20,46,43>>,<<58,18,9,9,41,23>>,
  <<52,35,0,22,4,53>>,<<35,21,11,26,13,10>>,<<11,29,19,9,13,1>>,<<37,61,37,1,60,10>>,<<12,40,62,48,45,37>>,
  <<23,32,30,43,50,18>>,<<2,20,61,15,60,1>>,<<47,50,53,34,54,57>>,<<44,61,28,1,54,5>>,<<36,59,1,29,2,6>>,
  <<60,37,32,17,40,24>>,<<0,62,43,23,43,28>>,<<19,56,38,54,35,9>>,<<53,50,27,16,40,62>>,<<41,49,40,23,36,31>>,
  <<32,62,1,50,19,25>>,<<48,57,53,14,4,29>>,<<61,43,52,8,37,2>>,<<14,9,47,21,7,29>>,<<42,0,63,58,23,5>>,
  <<57,36,6,61,46,32>>,<<36,9,32,16,13,32>>,<<24,58,19,59,46,10>>,<<56,19,29,7,10,44>>,<<19,56,43,13,20,45>>,
  <<59,4,11,45,55,30>>,<<19,27,13,32,14,7>>,<<61,9,4,2,44,5>>,<<29,11,6,17,37,59>>,<<14,51,4,25,55,7>>,
  <<18,50,28,45,7,39>>,<<56,35,19,36,54,56>>,<<17,58,38,41,21,23>>,<<9,61,34,53,5,18>>,<<20,58,25,32,46,57>>,
  <<53,58,0,13,31,44>>,<<34,51,24,6,29,2>>,<<55,16,23,28,32,53>>,<<44,21,56,26,25,0>>,<<37,14,23,24,10,60>>,
  <<6,59,33,3,44,4>>,<<15,23,45,32,43,24>>,<<39,1,12,21,17,43>>,<<50,32,56,29,35,51>>,<<36,33,59,41,48,26>>,
  <<20,26,6,26,7,19>>,<<44,15,63,35,5,20>>,<<35,40,30,8,30,53>>,<<46,27,39,18,63,39>>,<<25,0,1,38,29,39>>,
  <<10,12,13,53,58,6>>,<<17,27,9,6,32,49>>,<<8,45,57,16,51,37>>,<<40,6,3,29,14,7>>,<<22,7,2,32,58,21>>,
  <<38,27,41,46,29,62>>,<<60,57,36,11,58,32>>,<<0,14,5,22,42,35>>,<<4,29,14,48,54,43>>,<<43,46,51,45,53,33>>,
  <<1,36,10,19,35,54>>,<<47,31,50,37,43,10>>,<<26,46,33,60,57,52>>,<<47,16,55,2,33,34>>,<<58,54,18,37,56,23>>,
  <<48,42,49,41,13,62>>,<<22,62,29,62,37,48>>,<<20,54,37,34,47,1>>,<<26,56,35,57,2,57>>,<<27,52,9,16,56,45>>,
  <<29,43,41,8,18,30>>,<<21,17,12,62,44,22>>,<<48,38,26,10,60,11>>,<<59,13,34,33,36,58>>,<<32,22,40,37,12,44>>,
  <<7,41,8,29,45,6>>,<<21,11,49,17,59,0>>,<<48,52,22,8,41,60>>,<<9,57,37,53,26,35>>,<<29,39,48,51,34,2>>,
  <<6,19,23,60,53,2>>,<<3,29,23,61,20,57>>,<<56,53,20,61,28,46>>,<<10,34,42,4,35,18>>,<<34,37,60,42,59,9>>,
  <<17,4,23,34,6,46>>,<<22,4,44,61,47,60>>,<<10,54,11,29,34,32>>,<<30,1,53,8,48,37>>,<<17,55,46,17,45,20>>,
  <<56,20,31,48,5,22>>,<<3,57,0,52,29,47>>,<<31,19,55,2,25,21>>,<<31,40,4,16,41,28>>,<<30,21,8,8,19,25>>,
  <<22,37,54,18,61,52>>,<<20,60,52,13,46,30>>,<<6,56,32,41,23,11>>,<<30,45,25,51,21,12>>,<<44,58,52,26,19,63>>,
  <<43,16,54,61,29,60>>,<<38,28,39,44,29,21>>,<<25,48,43,23,49,35>>,<<49,20,12,62,18,38>>,<<0,41,34,58,45,24>>,
  <<43,50,53,9,40,36>>,<<57,50,35,9,28,26>>,<<30,42,12,19,55,41>>,<<14,4,33,44,38,9>>,<<56,46,44,18,49,6>>,
  <<27,28,10,46,36,24>>,<<43,1,20,14,5,7>>,<<27,10,21,27,8,12>>,<<46,25,29,7,17,0>>,<<63,2,35,53,12,38>>,
  <<28,63,31,52,57,34>>,<<39,7,54,11,43,28>>,<<43,28,22,39,45,39>>,<<51,23,17,55,44,37>>,<<4,20,2,27,54,24>>,
  <<58,28,31,39,10,27>>,<<48,3,22,27,6,40>>,<<29,43,56,18,58,57>>,<<47,31,36,17,38,32>>,<<1,62,27,37,33,42>>,
  <<4,9,56,54,35,38>>,<<42,61,45,52,20,0>>,<<55,22,38,12,54,2>>,<<51,57,13,4,48,11>>,<<6,38,52,29,62,37>>,
  <<41,48,63,43,8,9>>,<<17,52,28,31,53,62>>,<<25,19,62,41,49,2>>,<<61,1,45,40,63,18>>,<<22,62,13,23,14,21>>,
  <<6,50,1,23,1,19>>,<<38,5,33,49,25,51>>,<<42,44,0,14,25,18>>,<<9,52,8,12,0,21>>,<<47,25,62,15,54,34>>,
  <<30,13,43,43,1,50>>,<<28,53,11,56,47,33>>,<<42,48,0,18,34,51>>,<<32,57,30,10,43,6>>,<<21,40,26,35,4,32>>,
  <<57,52,50,58,63,54>>,<<12,22,24,50,39,21>>,<<60,22,28,59,54,10>>,<<2,42,60,35,7,8>>,<<42,10,2,51,26,43>>,
  <<9,61,6,18,18,46>>,<<36,37,5,43,31,20>>,<<32,16,38,59,17,26>>,<<41,4,62,44,35,61>>,<<50,21,62,57,27,14>>,
  <<52,49,38,51,34,54>>,<<28,41,23,60,12,8>>,<<46,45,57,23,37,59>>,<<38,28,50,21,56,62>>,<<8,21,30,11,44,44>>,
  <<18,58,60,38,42,50>>,<<51,54,2,6,41,43>>,<<17,47,37,27,11,29>>,<<47,10,37,44,55,4>>,<<1,34,6,26,31,20>>,
  <<2,48,54,11,39,53>>,<<36,51,6,5,20,25>>,<<37,32,60,18,20,62>>,<<9,32,63,9,3,58>>,<<25,53,63,28,42,29>>,
  <<52,50,36,54,57,61>>,<<27,38,0,62,22,37>>,<<28,21,38,60,53,30>>,<<38,18,17,44,6,52>>,<<16,41,60,37,6,52>>,
  <<23,30,16,14,60,9>>,<<50,38,45,7,6,47>>,<<27,6,29,11,1,51>>,<<44,52,24,32,55,58>>,<<26,51,14,63,18,2>>,
  <<33,58,20,59,29,34>>,<<52,40,11,40,22,9>>,<<39,24,14,18,41,45>>,<<20,1,49,26,47,7>>,<<34,18,41,36,35,33>>,
  <<36,2,56,13,26,59>>,<<29,60,42,56,30,14>>,<<5,55,62,21,18,51>>,<<34,48,43,53,25,11>>,<<61,17,59,52,33,4>>,
  <<45,34,63,8,62,13>>,<<54,51,49,60,25,4>>,<<9,60,52,31,9,11>>,<<32,63,43,10,16,53>>,<<55,41,60,48,11,4>>,
  <<47,3,25,28,61,20>>,<<38,10,38,15,12,36>>,<<53,25,63,58,41,31>>,<<17,15,34,51,57,37>>,<<41,35,9,3,63,9>>,
  <<25,57,10,45,47,58>>,<<61,10,62,31,10,31>>,<<54,35,10,3,9,5>>,<<58,30,56,12,18,36>>,<<8,34,51,49,59,44>>,
  <<37,12,62,33,42,15>>,<<42,18,22,34,8,18>>,<<57,26,10,34,1,40>>,<<38,25,60,32,19,51>>,<<61,15,26,10,0,16>>,
  <<28,49,10,0,28,56>>,<<46,45,50,27,30,14>>,<<34,24,15,25,38,55>>,<<40,23,39,38,23,58>>,<<44,33,12,45,6,31>>,
  <<49,1,46,36,20,63>>,<<24,4,53,44,59,35>>,<<55,38,32,18,11,16>>,<<26,27,61,2,56,43>>,<<33,20,50,2,14,28>>,
  <<19,54,20,49,53,11>>,<<21,35,17,40,52,15>>,<<57,30,9,6,28,2>>,<<44,58,54,29,57,1>>,<<23,44,0,44,4,2>>,
  <<14,36,45,22,41,14>>,<<21,2,4,21,12,10>>,<<5,48,23,17,29,14>>,<<56,41,17,30,35,30>>,<<46,8,14,28,55,46>>,
  <<44,53,43,8,40,38>>,<<45,63,49,18,10,26>>,<<59,44,39,52,31,41>>,<<57,45,21,38,3,3>>,<<49,63,29,6,21,52>>,
  <<25,13,46,59,39,35>>,<<49,2,37,50,19,51>>,<<19,30,11,46,51,45>>,<<3,49,33,50,58,21>>,<<55,9,21,25,2,59>>,
  <<51,6,44,40,5,30>>,<<26,33,57,1,26,29>>,<<41,45,30,0,11,41>>,<<7,13,17,40,24,40>>,<<35,50,40,60,49,54>>,
  <<37,56,3,59,55,33>>,<<56,6,52,24,31,12>>,<<12,41,35,14,54,4>>,<<58,38,11,54,53,1>>,<<41,10,57,1,46,30>>,
  <<17,25,33,40,3,42>>,<<53,62,57,35,48,31>>,<<41,14,55,51,16,3>>,<<14,38,12,55,4,44>>,<<56,3,59,49,37,61>>,
  <<26,26,47,54,29,25>>,<<51,26,56,38,15,11>>,<<37,56,17,45,12,5>>,<<27,45,39,0,8,61>>,<<11,42,46,9,44,3>>,
  <<28,17,61,43,11,17>>,<<4,3,60,49,18,44>>,<<2,54,25,63,25,37>>,<<26,9,23,50,55,49>>,<<34,17,45,8,10,18>>,
  <<50,1,40,35,57,32>>,<<14,23,48,38,8,59>>,<<9,19,45,32,54,46>>,<<63,11,45,33,26,57>>,<<52,4,1,60,24,13>>,
  <<54,51,29,27,21,33>>,<<34,27,11,33,53,25>>,<<31,14,20,2,22,4>>,<<46,5,8,34,4,2>>,<<6,49,34,6,47,42>>,
  <<15,35,9,38,7,62>>,<<55,11,30,57,59,34>>,<<35,13,46,59,1,4>>,<<55,13,41,61,16,26>>,<<25,51,19,54,27,61>>,
  <<54,47,2,19,42,51>>,<<6,28,62,2,21,37>>,<<32,41,56,44,5,11>>,<<7,21,51,0,50,57>>,<<41,24,48,34,5,17>>,
  <<1,53,30,54,40,59>>,<<50,53,24,36,47,52>>,<<19,63,57,48,13,30>>,<<54,27,35,9,33,32>>,<<39,10,39,2,5,29>>,
  <<6,19,15,3,15,49>>,<<13,55,13,47,39,13>>,<<6,51,56,43,28,48>>,<<61,20,56,22,63,41>>,<<11,6,40,13,21,39>>,
  <<48,6,2,56,53,20>>,<<30,10,7,46,62,41>>,<<9,45,39,41,34,16>>,<<38,34,18,58,41,36>>,<<12,63,46,34,14,18>>,
  <<60,36,51,37,24,42>>,<<62,13,29,32,43,23>>,<<55,30,40,0,40,7>>,<<3,36,13,28,7,13>>,<<40,28,6,62,46,11>>,
  <<54,50,44,25,18,22>>,<<33,41,59,2,17,0>>,<<47,19,40,52,31,7>>,<<27,52,57,16,7,17>>,<<25,22,14,56,44,63>>,
  <<3,28,51,39,48,36>>,<<29,7,13,25,7,32>>,<<32,26,30,60,19,13>>,<<12,55,18,48,1,11>>,<<23,39,27,8,29,48>>,
  <<62,20,36,59,23,17>>,<<0,21,47,62,38,53>>,<<18,25,30,12,8,17>>,<<8,33,26,18,61,51>>,<<51,4,20,11,49,36>>,
  <<46,15,61,37,48,15>>,<<58,61,62,58,9,35>>,<<8,58,41,56,25,42>>,<<44,8,43,62,41,3>>,<<59,19,15,18,39,19>>,
  <<8,10,36,59,13,59>>,<<16,7,31,57,60,42>>,<<44,29,40,61,2,49>>,<<32,58,2,16,45,31>>,<<3,11,36,16,28,57>>,
  <<46,6,3,11,27,53>>,<<38,47,35,33,6,10>>,<<20,54,4,17,32,5>>,<<14,2,24,61,48,23>>,<<42,44,4,53,35,43>>,
  <<9,4,29,49,53,39>>,<<23,27,49,36,45,34>>,<<36,1,58,10,2,13>>,<<22,53,17,52,62,11>>,<<4,56,35,27,42,47>>,
  <<44,59,41,0,11,1>>,<<53,16,23,59,30,27>>,<<60,5,14,35,49,13>>,<<34,23,63,21,24,21>>,<<34,45,7,43,45,11>>,
  <<18,20,44,53,5,2>>,<<15,56,8,42,44,53>>,<<41,49,31,56,55,10>>,<<27,48,21,39,41,41>>,<<30,19,23,43,5,60>>,
  <<45,21,59,23,15,19>>,<<33,31,32,23,50,21>>,<<30,11,10,6,47,28>>,<<9,24,18,49,14,7>>,<<60,16,2,13,5,18>>,
  <<41,53,36,14,18,9>>,<<17,3,56,6,28,13>>,<<39,34,51,28,13,41>>,<<18,0,47,6,27,3>>,<<29,29,20,42,33,57>>,
  <<17,62,3,60,29,1>>,<<59,2,38,56,58,37>>,<<47,63,39,24,45,12>>,<<2,15,55,3,36,45>>,<<6,39,44,6,26,17>>,
  <<33,55,2,8,34,26>>,<<50,23,34,15,61,21>>,<<46,33,57,39,42,22>>,<<10,54,25,33,12,3>>,<<40,50,44,49,62,56>>,
  <<46,6,30,37,14,21>>,<<6,44,7,34,6,17>>,<<62,10,51,25,17,29>>,<<53,35,44,30,1,14>>,<<12,14,25,27,34,15>>,
  <<53,8,60,6,40,42>>,<<27,40,60,33,51,55>>,<<50,15,59,40,51,3>>,<<55,25,41,61,11,45>>,<<45,35,6,6,34,43>>,
  <<29,54,18,7,30,32>>,<<12,5,42,39,10,40>>,<<41,30,41,56,46,35>>,<<25,21,0,3,52,17>>,<<55,32,1,5,11,58>>,
  <<61,40,32,39,6,43>>,<<33,7,58,32,45,39>>,<<11,59,21,45,45,23>>,<<1,58,15,16,51,1>>,<<63,26,60,62,13,20>>,
  <<10,2,53,32,53,19>>,<<60,34,55,62,49,50>>,<<47,52,14,23,2,16>>,<<44,47,30,36,23,14>>,<<49,35,56,56,62,20>>,
  <<35,52,11,48,22,31>>,<<62,62,21,38,58,36>>,<<30,35,50,5,36,34>>,<<19,1,14,28,62,11>>,<<58,16,52,54,51,42>>,
  <<5,44,45,19,54,4>>,<<22,59,46,27,59,17>>,<<1,60,26,28,46,4>>,<<7,22,3,62,47,20>>,<<24,55,53,21,33,14>>,
  <<36,21,35,42,62,15>>,<<39,46,56,61,44,58>>,<<56,19,57,10,7,2>>,<<34,38,31,55,40,54>>,<<43,52,32,36,42,38>>,
  <<54,52,14,20,51,7>>,<<31,24,40,23,10,6>>,<<3,39,56,22,3,11>>,<<10,18,44,30,52,12>>,<<46,8,32,15,50,31>>,
  <<59,35,6,36,5,9>>,<<51,45,36,47,3,58>>
  >>
C36h11o == <<
  <<4,22,40,24,29,53>>,<<9,45,24,60,23,54>>,<<14,4,9,32,18,55>>,<<24,50,41,39,7,57>>,<<34,32,10,47,60,58>>,
  <<44,14,43,54,49,60>>,<<5,2,29,41,22,1>>,<<20,7,46,20,6,4>>,<<30,53,14,28,59,5>>,<<45,58,31,7,43,8>>,
  <<50,17,16,43,37,9>>,<<6,46,17,58,15,13>>,<<21,51,34,37,63,15>>,<<26,10,19,9,58,16>>,<<31,33,3,45,52,17>>,
  <<41,15,36,52,41,19>>,<<46,38,20,24,36,20>>,<<56,20,53,31,25,22>>,<<12,49,54,46,3,26>>,<<17,8,39,18,62,26>>,
  <<42,59,24,5,35,31>>,<<47,18,9,41,29,32>>,<<52,41,57,12,24,33>>,<<62,23,26,20,13,35>>,<<23,11,12,7,50,39>>,
  <<28,34,60,42,44,40>>,<<43,39,13,22,28,43>>,<<48,62,61,57,22,44>>,<<58,44,30,1,12,46>>,<<29,14,49,59,37,52>>,
  <<34,37,33,31,32,53>>,<<54,1,35,46,10,57>>,<<26,15,42,57,29,11>>,<<56,25,12,16,61,16>>,<<17,13,62,2,34,21>>,
  <<37,41,63,17,12,25>>,<<42,0,48,53,6,26>>,<<47,23,32,25,1,27>>,<<52,46,16,61,59,27>>,<<28,39,19,27,16,35>>,
  <<48,3,21,42,58,38>>,<<53,26,5,14,53,39>>,<<9,55,6,29,31,43>>,<<29,19,8,44,9,47>>,<<59,29,42,2,41,52>>,
  <<5,12,11,10,30,54>>,<<20,17,28,53,13,57>>,<<50,27,62,11,45,62>>,<<26,20,1,42,1,6>>,<<46,48,2,57,43,9>>,
  <<56,30,35,0,33,11>>,<<17,18,21,51,5,16>>,<<18,62,9,4,63,27>>,<<28,44,42,11,52,29>>,<<48,8,44,26,30,33>>,
  <<58,54,12,34,19,35>>,<<19,42,62,20,56,39>>,<<5,17,34,58,1,49>>,<<20,22,51,37,49,51>>,<<51,12,10,13,10,5>>,
  <<27,5,13,43,30,12>>,<<52,56,62,29,3,17>>,<<43,54,18,39,7,27>>,<<53,36,51,46,60,28>>,<<19,47,21,5,28,34>>,
  <<24,6,6,41,22,35>>,<<29,29,54,12,17,36>>,<<59,39,24,35,48,41>>,<<5,22,57,42,37,43>>,<<20,27,10,22,21,46>>,
  <<50,42,3,29,24,46>>,<<26,35,6,59,44,53>>,<<47,43,60,26,16,5>>,<<58,5,18,51,62,18>>,<<63,28,2,23,57,19>>,
  <<29,39,36,45,24,25>>,<<55,6,11,49,54,41>>,<<22,61,33,24,15,59>>,<<23,41,22,41,8,7>>,<<58,10,41,35,34,13>>,
  <<34,3,44,1,55,20>>,<<20,42,15,39,0,30>>,<<2,38,55,57,8,50>>,<<47,53,42,59,23,58>>,<<10,1,6,16,47,22>>,
  <<43,15,6,25,58,63>>,<<45,39,47,58,44,23>>,<<21,32,50,24,1,31>>,<<52,22,9,0,26,48>>,<<43,20,29,9,30,58>>,
  <<25,16,5,28,38,14>>,<<47,4,48,12,3,42>>,<<16,19,48,21,14,19>>,<<21,42,32,57,8,20>>,<<32,4,54,17,55,33>>,
  <<13,20,41,19,6,42>>,<<39,51,15,23,36,58>>,<<40,31,4,40,29,6>>,<<55,36,21,19,13,9>>,<<56,16,10,36,6,21>>,
  <<27,50,28,30,32,27>>,<<23,7,33,11,31,38>>,<<7,27,50,63,25,18>>,<<17,9,19,7,15,20>>,<<47,19,53,29,46,25>>,
  <<37,42,43,6,29,18>>,<<14,15,35,53,42,37>>,<<19,38,19,25,37,38>>,<<44,25,5,12,10,43>>,<<29,25,11,17,62,34>>,
  <<20,23,31,26,2,45>>,<<11,21,51,35,6,55>>,<<38,32,14,56,29,19>>,<<31,54,11,35,20,53>>,<<22,52,31,44,24,63>>,
  <<59,45,27,8,37,29>>,<<56,46,20,6,29,52>>,<<61,5,5,42,23,53>>,<<2,29,53,13,18,54>>,<<12,16,45,5,43,50>>,
  <<50,53,29,50,48,28>>,<<2,39,35,46,25,43>>,<<7,62,19,18,20,44>>,<<45,50,9,16,5,6>>,<<13,26,44,56,58,29>>,
  <<53,18,47,22,15,37>>,<<21,53,58,14,33,2>>,<<13,31,3,41,30,24>>,<<34,39,57,8,2,40>>,<<10,32,60,38,22,47>>,
  <<17,15,22,44,3,8>>,<<14,16,15,42,59,30>>,<<39,8,24,13,4,30>>,<<17,35,50,45,18,50>>,<<2,40,15,35,42,36>>,
  <<17,45,32,14,26,39>>,<<60,2,53,16,13,55>>,<<18,55,31,1,42,18>>,<<14,17,59,30,12,24>>,<<44,37,11,22,51,18>>,
  <<10,48,45,44,18,24>>,<<6,10,9,10,53,29>>,<<16,56,41,17,42,31>>,<<44,52,16,39,30,2>>,<<5,45,25,10,39,1>>,
  <<58,23,27,34,28,46>>,<<38,0,49,3,22,37>>,<<58,43,55,35,43,24>>,<<16,37,57,4,44,46>>,<<1,52,4,27,11,22>>,
  <<42,24,60,9,25,41>>,<<4,56,34,13,55,57>>,<<49,12,45,63,41,60>>,<<38,60,5,8,3,36>>,<<44,63,42,60,54,48>>,
  <<36,2,39,8,39,43>>,<<39,6,5,59,18,15>>,<<36,12,21,41,46,32>>,<<54,21,4,7,10,7>>,<<47,43,1,50,0,41>>,
  <<48,28,13,51,29,47>>,<<30,24,53,5,38,3>>,<<58,35,33,44,5,22>>,<<15,44,23,12,41,37>>,<<24,51,26,51,8,22>>,
  <<44,15,28,2,51,25>>,<<56,36,43,60,5,35>>,<<29,11,55,11,20,16>>,<<43,41,42,22,46,1>>,<<40,42,35,20,38,24>>,
  <<57,12,53,17,44,45>>,<<13,41,54,32,22,49>>,<<52,14,56,31,36,17>>,<<53,19,32,34,16,2>>,<<59,3,21,10,6,30>>,
  <<52,35,0,22,4,53>>,<<35,21,11,26,13,10>>,<<11,29,19,9,13,1>>,<<0,63,18,53,11,50>>,<<21,7,9,21,47,1>>,
  <<2,23,60,22,62,9>>,<<37,61,37,1,60,10>>,<<12,40,62,48,45,37>>,<<20,13,59,39,27,63>>,<<48,24,39,14,59,17>>,
  <<43,26,42,28,51,53>>,<<37,48,56,25,50,13>>,<<47,50,53,34,54,57>>,<<6,34,26,53,55,16>>,<<23,29,31,36,48,10>>,
  <<1,51,34,20,27,36>>,<<60,37,32,17,40,24>>,<<1,7,63,21,42,14>>,<<19,56,38,54,35,9>>,<<53,50,27,16,40,62>>,
  <<42,0,63,58,23,5>>,<<19,62,41,27,24,61>>,<<14,35,14,60,10,59>>,<<57,36,6,61,46,32>>,<<41,32,16,52,7,33>>,
  <<19,20,30,6,9,26>>,<<24,58,19,59,46,10>>,<<12,24,23,25,18,4>>,<<19,27,13,32,14,7>>,<<52,13,27,48,36,3>>,
  <<39,15,27,3,11,26>>,<<58,9,22,34,3,7>>,<<43,9,28,39,55,62>>,<<36,22,23,38,55,36>>,<<17,14,3,43,36,1>>,
  <<34,43,61,55,6,28>>,<<23,4,59,55,14,17>>,<<8,35,55,19,42,33>>,<<22,32,33,53,43,43>>,<<11,36,22,63,19,61>>,
  <<34,54,28,36,15,46>>,<<37,14,23,24,10,60>>,<<6,59,33,3,44,4>>,<<36,25,32,27,26,52>>,<<16,17,59,13,63,26>>,
  <<15,23,45,32,43,24>>,<<19,5,45,17,31,57>>,<<11,53,56,16,17,3>>,<<52,4,45,32,47,22>>,<<31,36,47,3,42,27>>,
  <<46,27,39,18,63,39>>,<<33,51,22,57,37,55>>,<<24,52,46,32,28,45>>,<<27,30,50,3,53,22>>,<<35,62,23,10,63,53>>,
  <<19,53,10,17,52,59>>,<<19,0,37,38,12,42>>,<<49,19,14,0,19,15>>,<<37,40,15,50,63,12>>,<<34,48,55,9,61,16>>,
  <<53,16,29,48,18,39>>,<<58,54,18,37,56,23>>,<<3,4,25,49,12,60>>,<<54,43,57,29,47,52>>,<<33,17,63,37,30,45>>,
  <<11,6,57,44,48,31>>,<<26,56,35,57,2,57>>,<<23,34,1,47,41,29>>,<<34,1,46,55,59,37>>,<<29,43,41,8,18,30>>,
  <<61,38,40,50,22,32>>,<<53,12,6,17,1,53>>,<<37,1,43,28,53,15>>,<<48,34,47,14,41,10>>,<<9,43,41,55,45,50>>,
  <<1,15,57,26,23,28>>,<<27,10,28,5,11,33>>,<<15,34,28,62,57,38>>,<<43,63,17,20,55,20>>,<<15,53,17,34,40,59>>,
  <<22,2,59,32,28,23>>,<<32,18,27,52,27,1>>,<<12,31,62,28,32,11>>,<<6,19,23,60,53,2>>,<<24,58,21,19,24,44>>,
  <<10,29,14,61,14,52>>,<<55,22,18,43,29,3>>,<<54,15,38,27,17,47>>,<<37,0,15,25,42,18>>,<<52,41,45,11,37,40>>,
  <<52,18,18,3,20,54>>,<<27,16,32,22,52,37>>,<<57,49,34,12,21,1>>,<<3,42,54,11,2,28>>,<<44,58,22,16,49,40>>,
  <<54,3,8,10,43,37>>,<<34,12,5,14,13,18>>,<<57,35,44,17,13,5>>,<<55,14,22,19,30,4>>,<<19,62,20,24,57,13>>,
  <<5,51,37,54,30,28>>,<<57,56,33,23,32,42>>,<<51,12,29,2,46,51>>,<<48,21,54,37,44,20>>,<<56,5,18,9,35,0>>,
  <<52,35,44,62,25,22>>,<<20,33,8,41,48,46>>,<<63,2,35,53,12,38>>,<<36,38,47,61,24,11>>,<<45,28,26,1,28,61>>,
  <<43,28,22,39,45,39>>,<<35,51,56,34,13,20>>,<<8,23,5,43,25,57>>,<<38,34,19,54,9,56>>,<<11,14,15,41,45,18>>,
  <<14,37,39,22,56,46>>,<<21,61,37,19,20,21>>,<<4,9,56,54,35,38>>,<<29,37,14,33,55,56>>,<<43,52,1,50,22,30>>,
  <<33,2,54,46,14,27>>,<<52,22,21,11,59,9>>,<<12,40,5,37,30,27>>,<<57,43,16,39,38,18>>,<<31,43,32,58,47,26>>,
  <<25,34,7,38,24,5>>,<<8,45,15,10,53,6>>,<<30,29,50,32,17,27>>,<<58,52,46,63,58,28>>,<<16,40,55,41,39,6>>,
  <<62,11,29,22,62,18>>,<<18,44,34,20,45,10>>,<<61,23,4,53,2,42>>,<<19,50,25,45,60,46>>,<<21,34,20,58,49,57>>,
  <<47,37,8,5,27,29>>,<<26,8,55,62,10,44>>,<<8,27,14,54,37,1>>,<<28,54,16,32,50,13>>,<<40,28,3,24,55,45>>,
  <<4,61,1,35,23,43>>,<<32,54,17,42,12,36>>,<<52,18,24,16,39,11>>,<<42,2,12,25,41,48>>,<<25,34,58,61,7,44>>,
  <<29,59,20,26,46,35>>,<<7,62,10,31,45,6>>,<<5,27,17,22,3,8>>,<<49,24,48,25,17,51>>,<<55,41,2,7,33,5>>,
  <<34,37,6,40,33,34>>,<<26,18,1,28,57,54>>,<<52,46,6,35,55,21>>,<<62,23,41,45,58,15>>,<<53,48,28,46,20,0>>,
  <<55,13,36,47,4,24>>,<<49,7,16,37,20,63>>,<<13,49,16,28,43,56>>,<<8,42,52,31,63,26>>,<<36,4,24,62,45,2>>,
  <<30,43,9,57,30,49>>,<<42,3,11,13,12,57>>,<<61,17,0,56,53,38>>,<<41,36,53,10,0,16>>,<<18,18,53,40,41,19>>,
  <<41,43,45,43,8,36>>,<<45,3,57,49,11,40>>,<<58,14,24,45,18,52>>,<<36,9,8,44,49,16>>,<<8,63,58,12,59,45>>,
  <<56,11,39,21,17,52>>,<<22,44,22,10,19,9>>,<<45,27,15,57,21,47>>,<<21,49,47,29,18,60>>,<<43,9,36,42,62,23>>,
  <<63,50,21,37,16,11>>,<<14,36,30,43,50,50>>,<<9,29,62,3,11,2>>,<<48,28,22,39,48,9>>,<<23,50,62,49,45,3>>,
  <<49,16,13,29,60,41>>,<<42,11,0,25,19,5>>,<<45,25,47,13,25,24>>,<<9,47,51,37,44,31>>,<<61,52,18,40,0,40>>,
  <<54,51,44,52,46,49>>,<<26,46,4,31,56,35>>,<<43,20,46,39,4,60>>,<<55,29,41,62,17,3>>,<<23,18,26,29,17,33>>,
  <<5,23,60,5,25,11>>,<<52,30,40,4,6,63>>,<<22,5,21,57,60,24>>,<<35,25,44,50,25,25>>,<<15,29,1,46,52,46>>,
  <<11,56,27,53,11,28>>,<<24,60,37,54,51,62>>,<<35,7,0,44,23,36>>,<<22,60,48,33,22,20>>,<<51,48,26,45,59,0>>,
  <<12,48,14,4,37,10>>,<<34,43,17,51,62,1>>,<<26,36,44,16,38,1>>,<<34,25,3,50,7,51>>,<<14,24,44,52,8,46>>,
  <<62,33,30,13,13,16>>,<<46,21,22,61,18,17>>,<<0,25,37,23,12,62>>,<<5,5,50,13,40,49>>,<<30,18,11,7,54,26>>,
  <<53,0,37,51,38,1>>,<<16,55,5,48,17,5>>,<<25,4,57,11,25,43>>,<<22,5,52,33,58,35>>,<<2,38,5,21,61,53>>,
  <<14,42,7,11,32,9>>,<<8,43,20,1,25,3>>,<<32,51,50,12,5,46>>,<<60,32,53,31,14,42>>,<<19,28,10,13,37,40>>,
  <<50,28,56,57,60,29>>,<<5,27,28,1,54,26>>,<<38,15,32,5,16,32>>,<<48,35,13,15,23,37>>,<<43,2,58,46,24,40>>,
  <<33,43,36,8,29,61>>,<<20,63,13,45,44,39>>,<<3,56,9,35,36,11>>,<<32,43,6,19,27,30>>,<<19,28,48,26,14,24>>,
  <<13,8,4,42,38,58>>,<<15,42,49,37,34,40>>,<<61,15,5,48,5,24>>,<<58,12,6,30,54,21>>,<<21,14,3,23,40,58>>,
  <<52,41,29,40,61,31>>,<<10,39,5,17,2,38>>,<<50,7,35,59,46,44>>,<<49,54,48,18,35,18>>,<<51,36,61,46,27,45>>,
  <<16,6,28,54,3,22>>,<<28,36,32,57,19,50>>,<<59,56,6,31,10,55>>,<<52,45,41,53,20,8>>,<<63,61,20,34,37,20>>,
  <<3,2,14,56,27,8>>,<<4,30,18,47,13,60>>,<<25,35,8,43,63,3>>,<<37,15,35,31,63,21>>,<<5,54,1,12,39,18>>,
  <<54,27,47,30,8,34>>,<<33,14,11,51,56,6>>,<<56,33,50,6,12,26>>,<<16,37,63,26,11,30>>,<<17,33,42,38,59,24>>,
  <<58,8,47,4,45,31>>,<<50,22,51,58,16,13>>,<<9,6,3,20,33,21>>,<<60,24,44,26,49,15>>,<<44,1,11,53,47,52>>,
  <<62,9,22,18,60,41>>,<<10,52,53,39,43,13>>,<<9,5,28,8,10,47>>,<<47,35,2,47,37,46>>,<<28,34,43,48,34,51>>,
  <<8,17,0,47,54,29>>,<<40,9,15,28,33,51>>,<<3,15,48,28,53,35>>,<<30,50,60,23,14,29>>,<<62,45,39,57,45,17>>,
  <<42,30,61,34,57,10>>,<<46,48,29,16,28,45>>,<<56,3,37,7,46,4>>,<<26,51,47,61,53,33>>,<<45,0,39,58,16,62>>,
  <<21,22,17,1,45,31>>,<<56,30,32,54,24,39>>,<<45,39,16,3,3,47>>,<<43,1,3,54,58,29>>,<<5,34,32,18,45,32>>,
  <<4,40,55,6,14,61>>,<<26,47,42,31,2,45>>,<<30,61,40,44,49,54>>,<<37,55,17,36,31,57>>,<<21,4,12,61,15,46>>,
  <<52,51,59,23,24,12>>,<<31,47,22,40,61,59>>,<<35,49,54,15,42,58>>,<<32,20,15,61,35,38>>,<<33,56,6,31,49,24>>,
  <<9,36,8,43,33,55>>,<<6,52,36,11,22,46>>,<<54,20,1,51,40,34>>,<<21,11,63,58,43,2>>,<<31,61,7,30,35,26>>,
  <<47,8,38,48,44,24>>,<<31,22,42,26,25,12>>,<<43,49,22,32,54,38>>,<<33,25,24,14,31,37>>,<<55,58,51,25,49,10>>,
  <<39,46,25,60,28,50>>,<<42,32,7,37,3,17>>,<<25,6,45,56,2,52>>,<<28,27,49,31,17,57>>,<<38,25,53,55,51,16>>,
  <<31,8,37,45,63,54>>,<<59,39,45,27,49,24>>,<<42,28,48,6,40,1>>,<<20,24,35,31,14,9>>,<<26,11,50,39,4,12>>,
  <<39,53,7,45,5,9>>,<<29,53,25,57,50,0>>,<<33,4,18,20,15,30>>,<<44,42,24,58,54,61>>,<<22,43,19,12,14,8>>,
  <<25,12,61,30,20,38>>,<<31,46,42,38,49,1>>,<<50,26,14,16,62,42>>,<<6,27,9,59,59,38>>,<<6,17,38,23,48,51>>,
  <<57,45,54,49,35,59>>,<<18,50,60,5,19,58>>,<<43,36,42,38,63,38>>,<<21,18,24,58,63,4>>,<<38,38,35,4,19,54>>,
  <<25,59,44,18,38,28>>,<<52,30,21,54,14,1>>,<<59,50,33,0,55,46>>,<<53,34,48,36,32,17>>,<<56,48,18,49,21,11>>,
  <<15,53,42,8,43,51>>,<<6,17,58,17,42,32>>,<<26,2,9,26,13,1>>,<<40,13,31,51,50,32>>,<<24,4,17,59,2,9>>,
  <<20,0,34,54,29,52>>,<<14,1,42,45,1,36>>,<<20,20,41,7,28,6>>,<<63,37,12,48,41,15>>,<<35,51,11,5,40,7>>,
  <<13,17,11,16,27,21>>,<<25,14,34,5,63,59>>,<<10,22,26,11,1,16>>,<<3,57,16,54,20,7>>,<<13,43,31,30,14,20>>,
  <<58,34,8,60,30,13>>,<<0,52,9,28,52,29>>,<<51,22,23,57,50,52>>,<<50,63,15,23,12,21>>,<<59,15,23,47,27,22>>,
  <<11,58,7,55,50,14>>,<<31,2,13,29,58,4>>,<<63,13,30,8,26,49>>,<<40,44,9,45,42,30>>,<<58,5,42,14,57,9>>,
  <<53,21,51,25,38,14>>,<<30,28,51,9,12,30>>,<<28,10,26,35,56,5>>,<<56,1,54,46,53,34>>,<<0,42,6,20,28,41>>,
  <<42,53,7,18,44,48>>,<<44,30,36,33,35,60>>,<<34,27,30,61,1,24>>,<<42,4,20,23,27,11>>,<<10,9,47,17,60,53>>,
  <<53,31,54,2,14,57>>,<<19,2,19,30,20,58>>,<<6,33,5,58,7,56>>,<<5,8,47,61,4,40>>,<<37,4,60,50,7,57>>,
  <<25,16,59,11,2,36>>,<<24,43,62,9,33,48>>,<<35,57,48,3,39,49>>,<<15,35,17,9,40,52>>,<<53,12,24,35,62,24>>,
  <<14,2,52,24,42,10>>,<<42,6,5,6,1,44>>,<<47,33,6,35,31,11>>,<<49,23,12,62,49,40>>,<<11,59,28,2,12,58>>,
  <<57,62,5,25,13,19>>,<<53,39,29,45,35,41>>,<<22,11,19,55,52,53>>,<<42,12,26,26,40,61>>,<<62,56,26,23,50,45>>,
  <<1,38,60,9,27,49>>,<<56,34,17,0,61,25>>,<<58,19,48,54,63,44>>,<<49,60,56,32,17,60>>,<<57,62,53,14,39,31>>,
  <<58,25,32,48,14,9>>,<<42,51,59,60,42,34>>,<<32,50,45,1,10,1>>,<<43,53,62,0,10,28>>,<<24,44,41,48,13,28>>,
  <<41,38,41,21,23,19>>,<<25,35,21,49,45,43>>,<<47,38,11,36,37,24>>,<<19,17,24,9,57,23>>,<<14,39,26,42,4,60>>,
  <<0,10,43,63,17,51>>,<<39,22,48,2,48,28>>,<<44,20,43,30,27,43>>,<<54,8,43,63,26,22>>,<<3,56,34,57,29,60>>,
  <<16,8,58,14,16,60>>,<<21,11,7,25,15,31>>,<<8,36,49,47,4,62>>,<<3,48,45,20,9,41>>,<<7,61,6,20,61,16>>,
  <<36,52,46,3,41,35>>,<<41,19,23,18,0,39>>,<<3,22,47,43,19,37>>,<<60,6,28,14,24,15>>,<<15,25,44,34,52,0>>,
  <<1,63,4,10,33,10>>,<<13,51,37,21,60,39>>,<<4,35,14,6,49,21>>
  >>
C36h9 == <<
  <<26,59,41,44,49,4>>,<<31,18,26,16,44,5>>,<<36,41,10,52,38,6>>,<<41,0,59,23,33,7>>,<<46,23,43,59,27,8>>,
  <<51,46,27,31,22,9>>,<<56,5,12,3,17,10>>,<<7,11,29,46,0,13>>,<<12,34,13,18,59,13>>,<<27,39,30,61,42,16>>,
  <<37,21,63,4,32,18>>,<<52,26,16,48,15,21>>,<<57,49,0,20,10,22>>,<<13,14,2,35,52,25>>,<<23,60,34,42,41,27>>,
  <<33,42,3,50,30,29>>,<<38,1,52,21,25,30>>,<<43,24,36,57,19,31>>,<<48,47,20,29,14,32>>,<<58,29,53,36,3,34>>,
  <<63,52,37,8,62,34>>,<<19,17,39,23,40,38>>,<<24,40,23,59,34,39>>,<<34,22,56,2,24,41>>,<<39,45,40,38,18,42>>,
  <<44,4,25,10,13,43>>,<<49,27,9,46,7,44>>,<<54,50,57,17,2,45>>,<<0,33,26,25,55,46>>,<<5,56,10,61,49,47>>,
  <<15,38,43,4,39,49>>,<<20,61,27,40,33,50>>,<<35,2,45,19,17,53>>,<<40,25,29,55,11,54>>,<<16,18,32,21,32,61>>,
  <<21,41,16,57,26,62>>,<<41,5,18,8,5,2>>,<<46,28,2,44,63,2>>,<<7,16,52,30,36,7>>,<<22,21,5,10,20,10>>,
  <<27,44,53,45,14,11>>,<<42,49,6,25,62,13>>,<<3,37,56,11,35,18>>,<<18,42,9,55,18,21>>,<<23,1,58,26,13,22>>,
  <<43,29,59,41,55,25>>,<<48,52,43,13,50,26>>,<<58,34,12,21,39,28>>,<<14,63,13,36,17,32>>,<<19,22,62,7,12,33>>,
  <<24,45,46,43,6,34>>,<<29,4,31,15,1,35>>,<<44,9,48,58,48,37>>,<<10,20,18,17,16,43>>,<<20,2,51,24,5,45>>,
  <<45,53,36,11,42,49>>,<<50,12,21,47,36,50>>,<<60,58,53,54,25,52>>,<<1,18,38,26,20,53>>,<<11,0,7,34,9,55>>,
  <<21,46,39,41,62,56>>,<<26,5,24,13,57,57>>,<<36,51,56,20,46,59>>,<<61,38,42,7,19,0>>,<<12,44,59,50,2,3>>,
  <<17,3,44,22,61,3>>,<<22,26,28,58,55,4>>,<<27,49,12,30,50,5>>,<<42,54,29,9,34,8>>,<<57,59,46,52,17,11>>,
  <<3,42,15,60,6,13>>,<<18,47,32,39,54,15>>,<<23,6,17,11,49,16>>,<<38,11,34,54,32,19>>,<<43,34,18,26,27,20>>,
  <<53,16,51,33,16,22>>,<<58,39,35,5,11,23>>,<<63,62,19,41,5,24>>,<<9,45,52,48,58,25>>,<<14,4,37,20,53,26>>,
  <<19,27,21,56,47,27>>,<<29,9,54,63,36,29>>,<<54,60,39,50,9,34>>,<<59,19,24,22,4,35>>,<<5,2,57,29,57,36>>,
  <<10,25,41,1,52,37>>,<<30,53,42,16,30,41>>,<<11,5,30,18,45,49>>,<<21,51,62,25,34,51>>,<<36,56,15,5,18,54>>,
  <<41,15,0,41,12,55>>,<<56,20,17,20,60,57>>,<<12,49,18,35,38,61>>,<<52,41,21,1,59,4>>,<<18,52,55,23,26,10>>,
  <<23,11,40,59,20,11>>,<<38,16,57,38,4,14>>,<<43,39,41,10,63,14>>,<<53,21,10,18,52,16>>,<<58,44,58,53,46,17>>,
  <<9,50,11,33,30,20>>,<<44,19,30,27,56,26>>,<<49,42,14,63,50,27>>,<<54,1,63,34,45,28>>,<<59,24,47,6,40,29>>,
  <<15,53,48,21,18,33>>,<<25,35,17,29,7,35>>,<<35,17,50,36,60,36>>,<<50,22,3,16,44,39>>,<<6,51,4,31,22,43>>,
  <<11,10,53,2,17,44>>,<<16,33,37,38,11,45>>,<<46,43,7,61,42,50>>,<<51,2,56,32,37,51>>,<<61,48,24,40,26,53>>,
  <<12,54,41,19,10,56>>,<<17,13,26,55,4,57>>,<<22,36,10,27,63,57>>,<<32,18,43,34,52,59>>,<<37,41,27,6,47,60>>,
  <<42,0,12,42,41,61>>,<<13,34,30,36,3,4>>,<<28,39,47,15,51,6>>,<<43,44,0,59,34,9>>,<<48,3,49,30,29,10>>,
  <<53,26,33,2,24,11>>,<<58,49,17,38,18,12>>,<<9,55,34,17,2,15>>,<<19,37,3,25,55,16>>,<<39,1,5,40,33,20>>,
  <<44,24,53,11,28,21>>,<<0,53,54,26,6,25>>,<<20,17,56,41,48,28>>,<<25,40,40,13,43,29>>,<<30,63,24,49,37,30>>,
  <<35,22,9,21,32,31>>,<<45,4,42,28,21,33>>,<<60,9,59,7,5,36>>,<<6,56,27,15,58,37>>,<<16,38,60,22,47,39>>,
  <<21,61,44,58,41,40>>,<<26,20,29,30,36,41>>,<<41,25,46,9,20,44>>,<<46,48,30,45,14,45>>,<<51,7,15,17,9,46>>,
  <<17,18,49,39,40,51>>,<<27,0,18,47,29,53>>,<<32,23,2,19,24,54>>,<<42,5,35,26,13,56>>,<<3,57,20,13,50,60>>,
  <<13,39,53,20,39,62>>,<<33,3,55,35,17,2>>,<<43,49,23,43,6,4>>,<<53,31,56,50,59,5>>,<<4,37,9,30,43,8>>,
  <<34,47,43,52,10,14>>,<<54,11,45,3,53,17>>,<<59,34,29,39,47,18>>,<<45,9,1,13,57,27>>,<<16,43,19,7,19,34>>,
  <<21,2,4,43,13,35>>,<<26,25,52,14,8,36>>,<<41,30,5,58,55,38>>,<<51,12,38,1,45,40>>,<<56,35,22,37,39,41>>,
  <<2,18,55,44,28,43>>,<<17,23,8,24,12,46>>,<<27,5,41,31,1,48>>,<<37,51,9,39,54,49>>,<<18,3,61,40,5,58>>,
  <<23,26,45,12,0,59>>,<<28,49,29,48,58,59>>,<<33,8,14,20,53,60>>,<<43,54,46,27,42,62>>,<<53,36,15,35,31,0>>,
  <<34,52,2,37,46,8>>,<<20,27,38,10,56,17>>,<<25,50,22,46,50,18>>,<<30,9,7,18,45,19>>,<<50,37,8,33,23,23>>,
  <<60,19,41,40,12,25>>,<<1,43,25,12,7,26>>,<<11,25,58,19,60,27>>,<<16,48,42,55,54,28>>,<<26,30,11,63,43,30>>,
  <<41,35,28,42,27,33>>,<<46,58,12,14,22,34>>,<<22,51,15,44,42,41>>,<<27,10,0,16,37,42>>,<<37,56,32,23,26,44>>,
  <<52,61,49,2,10,47>>,<<57,20,34,38,4,48>>,<<8,26,51,17,52,50>>,<<13,49,35,53,46,51>>,<<18,8,20,25,41,52>>,
  <<33,13,37,4,25,55>>,<<38,36,21,40,19,56>>,<<48,18,54,47,8,58>>,<<53,41,38,19,3,59>>,<<9,6,40,34,45,62>>,
  <<14,29,24,6,40,63>>,<<29,34,41,49,23,2>>,<<5,27,44,15,44,9>>,<<10,50,28,51,38,10>>,<<15,9,13,23,33,11>>,
  <<20,32,61,58,27,12>>,<<55,1,16,53,53,18>>,<<11,30,17,4,32,22>>,<<16,53,1,40,26,23>>,<<36,17,3,55,4,27>>,
  <<41,40,51,26,63,27>>,<<51,22,20,34,52,29>>,<<12,10,6,21,25,34>>,<<22,56,38,28,14,36>>,<<47,43,24,15,51,40>>,
  <<52,2,9,51,45,41>>,<<23,36,27,45,7,48>>,<<28,59,11,17,2,49>>,<<38,41,44,24,55,50>>,<<53,46,61,3,39,53>>,
  <<4,52,14,47,22,56>>,<<34,62,48,5,54,61>>,<<10,55,51,35,10,5>>,<<20,37,20,43,63,6>>,<<40,1,22,58,41,10>>,
  <<45,24,6,30,36,11>>,<<50,47,54,1,31,12>>,<<60,29,23,9,20,14>>,<<31,63,41,3,46,20>>,<<36,22,26,39,40,21>>,
  <<46,4,59,46,29,23>>,<<61,9,12,26,13,26>>,<<57,30,16,7,12,37>>,<<62,53,0,43,6,38>>,<<8,36,33,50,59,39>>,
  <<13,59,17,22,54,40>>,<<23,41,50,29,43,42>>,<<53,51,20,52,10,48>>,<<4,57,37,31,58,50>>,<<14,39,6,39,47,52>>,
  <<19,62,54,10,42,53>>,<<24,21,39,46,36,54>>,<<29,44,23,18,31,55>>,<<49,8,25,33,9,59>>,<<10,60,10,20,46,63>>,
  <<20,42,43,27,35,1>>,<<40,6,45,42,13,5>>,<<26,45,16,16,23,14>>,<<36,27,49,23,12,16>>,<<46,9,18,31,1,18>>,
  <<22,2,21,61,21,25>>,<<27,25,5,33,16,26>>,<<23,46,9,14,15,37>>,<<28,5,58,49,9,38>>,<<38,51,26,57,62,39>>,
  <<53,56,43,36,46,42>>,<<9,21,45,51,24,46>>,<<34,8,31,38,61,50>>,<<44,54,63,45,50,52>>,<<15,24,18,40,12,59>>,
  <<20,47,2,12,7,60>>,<<45,34,52,62,43,0>>,<<55,16,21,6,33,2>>,<<60,39,5,42,27,3>>,<<11,45,22,21,11,6>>,
  <<41,55,56,43,42,11>>,<<51,37,25,51,31,13>>,<<61,19,58,58,20,15>>,<<17,48,59,9,63,18>>,<<32,53,12,53,46,21>>,
  <<47,58,29,32,30,24>>,<<57,40,62,39,19,26>>,<<28,10,17,34,45,32>>,<<48,38,18,49,23,36>>,<<53,61,2,21,18,37>>,
  <<9,26,4,36,60,40>>,<<14,49,52,7,55,41>>,<<29,54,5,51,38,44>>,<<54,41,55,37,11,49>>,<<5,47,8,17,59,51>>,
  <<20,52,25,60,42,54>>,<<40,16,27,11,21,58>>,<<55,21,44,54,4,61>>,<<36,37,31,56,19,5>>,<<61,24,17,43,56,9>>,
  <<12,30,34,22,40,12>>,<<22,12,3,30,29,14>>,<<42,40,4,45,7,18>>,<<8,51,38,3,39,23>>,<<13,10,23,39,33,24>>,
  <<23,56,55,46,22,26>>,<<38,61,8,26,6,29>>,<<58,25,10,41,48,32>>,<<14,54,11,56,26,36>>,<<34,18,13,7,5,40>>,
  <<49,23,30,50,52,42>>,<<0,29,47,29,36,45>>,<<10,11,16,37,25,47>>,<<25,16,33,16,9,50>>,<<30,39,17,52,3,51>>,
  <<45,44,34,31,51,53>>,<<1,9,36,46,29,57>>,<<26,60,21,33,2,62>>,<<2,53,24,63,22,5>>,<<12,35,57,6,12,7>>,
  <<32,63,58,21,54,10>>,<<42,45,27,29,43,12>>,<<47,4,12,1,38,13>>,<<23,61,14,31,58,20>>,<<38,2,32,10,42,23>>,
  <<29,0,52,19,46,33>>,<<54,51,37,6,19,38>>,<<5,57,54,49,2,41>>,<<20,62,7,29,50,43>>,<<30,44,40,36,39,45>>,
  <<40,26,9,44,28,47>>,<<55,31,26,23,12,50>>,<<60,54,10,59,6,51>>,<<6,37,43,2,60,52>>,<<21,42,60,45,43,55>>,
  <<26,1,45,17,38,56>>,<<27,45,33,34,31,4>>,<<52,32,19,21,4,9>>,<<23,2,38,15,30,15>>,<<38,7,55,58,13,18>>,
  <<53,12,8,38,61,20>>,<<58,35,56,9,56,21>>,<<19,23,42,60,28,26>>,<<29,5,11,4,18,28>>,<<59,15,45,26,49,33>>,
  <<25,26,15,49,16,39>>,<<55,36,49,7,48,44>>,<<11,1,51,22,26,48>>,<<57,60,26,41,34,4>>,<<28,30,45,35,60,10>>,
  <<38,12,14,43,49,12>>,<<9,46,32,37,11,19>>,<<19,28,1,45,0,21>>,<<39,56,2,60,42,24>>,<<44,15,51,31,37,25>>,
  <<54,61,19,39,26,27>>,<<60,0,57,27,14,40>>,<<11,6,10,7,62,42>>,<<16,29,58,42,56,43>>,<<41,16,44,29,29,48>>,
  <<51,62,12,37,18,50>>,<<52,42,1,54,11,62>>,<<13,30,51,40,48,2>>,<<19,33,24,29,36,15>>,<<0,49,11,31,51,23>>,
  <<10,31,44,38,40,25>>,<<15,54,28,10,35,26>>,<<20,13,13,46,29,27>>,<<51,3,36,21,54,44>>,<<56,26,20,57,48,45>>,
  <<2,9,53,0,38,47>>,<<12,55,21,8,27,49>>,<<17,14,6,44,21,50>>,<<22,37,54,15,16,51>>,<<27,60,38,51,10,52>>,
  <<57,6,9,10,42,57>>,<<8,12,26,53,25,60>>,<<53,27,13,55,40,4>>,<<58,50,61,26,35,5>>,<<24,61,31,49,2,11>>,
  <<39,2,49,28,50,13>>,<<25,41,20,2,60,22>>,<<30,0,5,38,54,23>>,<<35,23,53,9,49,24>>,<<21,62,24,47,58,33>>,
  <<26,21,9,19,53,34>>,<<46,49,10,34,31,38>>,<<7,37,60,20,4,43>>,<<37,47,30,43,35,48>>,<<62,34,16,30,8,53>>,
  <<28,45,50,52,39,58>>,<<58,55,20,11,7,0>>,<<4,38,53,18,60,1>>,<<19,43,6,62,43,4>>,<<44,30,56,48,16,9>>,
  <<54,12,25,56,5,11>>,<<10,41,26,7,48,14>>,<<40,51,60,29,15,20>>,<<45,10,45,1,10,21>>,<<50,33,29,37,4,22>>,
  <<21,3,48,31,30,28>>,<<46,54,33,18,3,33>>,<<51,13,18,54,61,33>>,<<27,6,21,20,18,41>>,<<42,11,38,63,1,44>>,
  <<8,22,8,22,33,49>>,<<14,25,45,10,21,62>>,<<44,35,15,33,52,3>>,<<10,46,49,55,19,9>>,<<15,5,34,27,14,10>>,
  <<50,38,52,21,40,16>>,<<55,61,36,57,34,17>>,<<11,26,38,8,13,21>>,<<21,8,7,16,2,23>>,<<41,36,8,31,44,26>>,
  <<7,47,42,53,11,32>>,<<42,16,61,47,37,38>>,<<52,62,29,55,26,40>>,<<57,21,14,27,21,41>>,<<13,50,15,42,63,44>>,
  <<38,37,1,29,36,49>>,<<48,19,34,36,25,51>>,<<24,12,37,2,46,58>>,<<39,17,54,45,29,61>>,<<55,2,60,41,6,12>>,
  <<26,36,14,36,32,18>>,<<46,0,16,51,10,22>>,<<12,11,50,9,42,27>>,<<33,19,40,41,13,43>>,<<14,35,27,43,28,51>>,
  <<49,4,46,37,54,57>>,<<5,33,47,52,32,61>>,<<6,13,36,5,26,9>>,<<26,41,37,20,4,13>>,<<36,23,6,28,57,14>>,
  <<46,5,39,35,46,16>>,<<61,10,56,14,30,19>>,<<7,57,24,22,19,21>>,<<17,39,57,29,8,23>>,<<37,3,59,44,50,26>>,
  <<3,14,29,3,18,32>>,<<8,37,13,39,12,33>>,<<24,22,19,35,53,47>>,<<0,15,22,1,10,55>>,<<25,2,8,52,46,59>>,
  <<21,23,12,33,45,6>>,<<17,44,16,14,44,17>>,<<52,13,35,8,6,24>>,<<23,47,53,2,32,30>>,<<24,27,42,19,25,42>>,
  <<34,9,11,27,14,44>>,<<10,2,14,57,34,51>>,<<12,26,55,26,21,11>>,<<42,36,25,49,52,16>>,<<23,52,12,51,3,25>>,
  <<38,57,29,30,51,27>>,<<48,39,62,37,40,29>>,<<9,27,48,24,13,34>>,<<54,42,35,26,28,42>>,<<10,7,37,41,6,46>>,
  <<45,40,55,35,32,52>>,<<37,18,0,62,29,10>>,<<53,3,6,58,6,25>>,<<4,9,23,37,54,27>>,<<19,14,40,16,38,30>>,
  <<20,58,28,33,31,42>>,<<25,17,13,5,26,43>>,<<41,2,19,1,3,58>>,<<3,34,57,4,33,10>>,<<43,26,60,34,53,17>>,
  <<5,58,34,38,19,34>>,<<10,17,19,10,14,35>>,<<15,40,3,46,8,36>>,<<55,32,6,12,29,43>>,<<1,15,39,19,18,45>>,
  <<21,43,40,34,60,48>>,<<48,54,3,55,19,13>>,<<44,11,8,36,18,24>>,<<54,57,40,43,7,26>>,<<10,22,42,58,49,29>>,
  <<50,14,45,24,6,37>>,<<1,20,62,3,54,39>>,<<7,23,35,56,41,52>>,<<33,54,9,60,7,5>>,<<53,18,11,11,50,8>>,
  <<29,11,14,41,6,16>>,<<44,16,31,20,54,18>>,<<10,27,1,43,21,24>>,<<20,9,34,50,10,26>>,<<21,53,22,3,4,38>>,
  <<2,5,10,5,19,46>>,<<42,61,12,35,39,53>>,<<52,43,45,42,28,55>>,<<23,13,0,37,54,61>>,<<4,29,51,38,5,6>>,
  <<14,11,20,46,58,7>>,<<29,16,37,25,42,10>>,<<10,32,24,27,57,18>>,<<25,37,41,6,41,21>>,<<55,47,11,29,8,27>>,
  <<17,15,50,32,38,43>>,<<42,2,36,19,11,48>>,<<62,30,37,34,53,51>>,<<8,13,6,42,42,53>>,<<28,41,7,57,20,57>>,
  <<25,42,0,55,12,16>>,<<60,11,19,49,38,22>>,<<51,9,39,58,42,32>>,<<12,61,24,45,15,37>>,<<37,48,10,32,52,41>>,
  <<42,7,59,3,47,42>>,<<57,12,12,47,30,45>>,<<62,35,60,18,25,46>>,<<33,5,15,13,51,52>>,<<43,51,47,20,40,54>>,
  <<53,33,16,28,29,56>>,<<49,54,20,9,28,3>>,<<20,24,39,3,54,9>>,<<25,47,23,39,48,10>>,<<40,52,40,18,32,13>>,
  <<36,9,45,63,30,24>>,<<41,32,29,35,25,25>>,<<46,55,13,7,20,26>>,<<47,35,2,24,13,38>>,<<62,40,19,3,61,40>>,
  <<8,23,52,10,50,42>>,<<18,5,21,18,39,44>>,<<5,24,45,8,42,1>>,<<25,52,46,23,20,5>>,<<41,37,52,19,61,19>>,
  <<27,12,24,57,6,29>>,<<42,17,41,36,54,31>>,<<8,28,11,59,21,37>>,<<28,56,12,10,0,41>>,<<38,38,45,17,53,42>>,
  <<48,20,14,25,42,44>>,<<14,31,48,47,9,50>>,<<54,23,51,13,30,57>>,<<51,24,44,11,22,16>>,<<7,53,45,26,0,20>>,
  <<17,35,14,34,53,21>>,<<23,38,51,22,41,34>>,<<38,43,4,2,25,37>>,<<58,7,6,17,3,41>>,<<24,18,40,39,34,46>>,
  <<29,41,24,11,29,47>>,<<46,6,19,24,63,9>>,<<51,29,3,60,57,10>>,<<61,11,36,3,47,12>>,<<17,40,37,18,25,16>>,
  <<27,22,6,26,14,18>>,<<28,2,59,42,7,30>>,<<33,25,43,14,2,31>>,<<43,7,12,22,55,32>>,<<39,28,16,3,54,43>>,
  <<30,26,36,12,58,53>>,<<50,54,37,27,36,57>>,<<36,29,9,1,46,2>>,<<42,32,46,53,33,15>>,<<33,30,2,63,37,25>>,
  <<43,12,35,6,27,27>>,<<48,35,19,42,21,28>>,<<53,58,3,14,16,29>>,<<9,23,5,29,58,32>>,<<49,15,8,59,14,40>>,
  <<10,3,58,45,51,44>>,<<35,54,43,32,24,49>>,<<40,13,28,4,19,50>>,<<45,36,12,40,13,51>>,<<16,6,31,34,39,57>>,
  <<26,52,63,41,28,59>>,<<12,27,35,15,38,4>>,<<22,9,4,23,27,6>>,<<47,60,53,9,0,11>>,<<23,53,56,39,20,18>>,
  <<33,35,25,47,9,20>>,<<20,54,49,37,12,41>>,<<16,11,54,18,11,52>>,<<27,37,11,43,57,1>>,<<42,42,28,22,41,4>>,
  <<62,6,30,37,19,8>>,<<23,58,15,24,56,12>>,<<19,15,20,5,55,23>>,<<49,25,54,27,22,29>>,<<5,54,55,42,0,33>>,
  <<20,59,8,22,48,35>>,<<50,5,43,44,15,41>>,<<6,34,44,59,57,44>>,<<21,39,61,38,41,47>>,<<36,44,14,18,25,50>>,
  <<7,14,33,12,51,56>>,<<18,40,54,36,33,6>>,<<9,38,10,46,37,16>>,<<44,7,29,40,63,22>>,<<42,52,10,55,48,57>>,
  <<52,34,43,62,37,59>>,<<54,58,20,32,24,19>>,<<50,15,25,13,23,30>>,<<21,49,43,7,49,36>>,<<24,53,9,58,28,8>>,
  <<25,33,62,10,22,20>>,<<35,15,31,18,11,22>>,<<1,26,1,41,42,27>>,<<42,62,56,23,56,46>>,<<13,32,11,18,18,53>>,
  <<45,2,23,10,36,18>>,<<21,59,25,40,56,25>>,<<26,18,10,12,51,26>>,<<41,23,27,55,34,29>>,<<42,3,16,8,28,41>>,
  <<28,42,51,45,37,50>>,<<9,58,38,47,52,58>>,<<19,40,7,55,41,60>>,<<34,45,24,34,25,63>>,<<5,15,43,28,51,5>>,
  <<25,43,44,43,29,9>>,<<26,23,33,60,22,21>>,<<52,54,7,0,53,37>>,<<8,19,9,15,31,41>>,<<13,42,57,50,25,42>>,
  <<20,25,19,56,6,3>>,<<60,17,22,22,27,10>>,<<56,38,26,3,26,21>>,<<42,13,62,40,35,30>>,<<18,6,1,7,56,37>>,
  <<23,29,49,42,50,38>>,<<28,52,33,14,45,39>>,<<48,16,35,29,23,43>>,<<24,9,38,59,43,50>>,<<10,48,9,33,53,59>>,
  <<11,28,62,49,46,7>>,<<7,49,2,31,45,18>>,<<62,46,22,40,49,28>>,<<23,34,8,27,22,33>>,<<20,35,1,25,14,56>>,
  <<45,22,51,11,51,60>>,<<51,25,24,0,39,9>>,<<7,54,25,15,17,13>>,<<17,36,58,22,6,15>>,<<42,23,44,9,43,19>>,
  <<52,5,13,17,32,21>>,<<8,34,14,32,10,25>>,<<43,3,33,26,36,31>>,<<0,12,23,58,7,47>>,<<52,10,36,1,4,16>>,
  <<57,33,20,37,62,16>>,<<3,16,53,44,51,18>>,<<5,40,30,14,38,42>>,<<42,33,26,42,50,8>>,<<28,8,62,15,60,17>>,
  <<44,57,3,12,37,32>>,<<25,9,55,13,52,40>>,<<6,25,42,15,3,49>>,<<41,58,60,9,29,55>>,<<51,40,29,17,18,57>>,
  <<42,38,49,26,22,3>>,<<24,34,25,45,30,23>>,<<34,16,58,52,19,25>>,<<55,24,48,20,55,40>>,<<16,12,34,7,28,45>>,
  <<46,22,4,30,59,50>>,<<61,27,21,9,43,53>>,<<27,38,55,31,10,59>>,<<52,25,41,18,47,63>>,<<62,7,10,26,36,1>>,
  <<34,21,17,37,55,19>>,<<6,35,24,48,10,38>>,<<18,41,34,25,50,63>>,<<33,46,51,4,34,2>>,<<43,28,20,12,23,4>>,
  <<24,44,7,14,38,12>>,<<39,49,24,57,21,15>>,<<35,6,29,38,20,26>>,<<55,34,30,53,62,29>>,<<7,20,36,49,39,44>>,
  <<32,7,22,36,12,49>>,<<9,44,13,19,26,4>>,<<54,59,0,21,41,12>>,<<40,34,36,58,50,21>>,<<17,7,28,41,0,41>>,
  <<32,12,45,20,48,43>>,<<37,35,29,56,42,44>>,<<42,58,13,28,37,45>>,<<18,51,16,58,57,52>>,<<23,10,1,30,52,53>>,
  <<44,18,55,61,23,5>>,<<55,44,12,22,6,19>>,<<19,36,28,59,22,59>>,<<0,52,15,61,37,3>>,<<12,58,25,38,13,29>>,
  <<22,40,58,45,2,31>>,<<43,48,48,13,38,46>>,<<6,60,11,34,61,10>>,<<11,19,60,5,56,11>>,<<42,9,19,45,16,29>>,
  <<23,25,6,47,31,37>>,<<5,21,46,1,40,57>>,<<41,34,53,12,59,11>>,<<46,57,37,48,53,12>>,<<18,7,45,59,8,31>>,
  <<24,10,18,48,60,43>>,<<29,33,2,20,55,44>>,<<41,39,12,61,30,6>>,<<17,32,15,27,51,13>>,<<27,14,48,34,40,15>>,
  <<62,47,2,29,2,22>>,<<8,30,35,36,55,23>>,<<9,10,24,53,48,35>>,<<29,38,25,4,27,39>>,<<34,61,9,40,21,40>>,
  <<54,25,11,55,63,43>>,<<25,59,29,49,25,50>>,<<11,34,1,23,35,59>>,<<47,47,8,34,54,13>>,<<10,59,35,54,13,42>>,
  <<6,16,40,35,12,53>>,<<17,42,61,59,58,2>>,<<47,52,31,18,26,8>>,<<23,45,34,48,46,15>>,<<39,30,40,44,23,30>>,
  <<20,46,27,46,38,38>>,<<21,26,16,63,31,50>>,<<46,13,2,50,4,55>>,<<43,14,59,47,60,13>>,<<48,37,43,19,55,14>>,
  <<14,48,13,42,22,20>>,<<20,51,50,30,10,33>>,<<26,54,23,19,62,45>>,<<7,6,11,21,13,54>>,<<33,37,49,24,43,6>>,
  <<38,60,33,60,37,7>>,<<48,42,2,4,27,9>>,<<26,59,46,3,34,40>>,<<53,6,10,24,57,4>>,<<34,22,61,25,8,13>>,
  <<44,4,30,33,61,14>>,<<34,27,20,10,44,7>>,<<44,9,53,17,33,9>>,<<51,56,14,23,14,34>>,<<27,49,17,53,34,41>>,
  <<42,54,34,32,18,44>>,<<52,36,3,40,7,46>>,<<13,24,53,26,44,50>>,<<18,47,37,62,38,51>>,<<30,53,47,39,14,13>>,
  <<45,58,0,19,62,15>>,<<46,38,53,35,55,27>>,<<56,20,22,43,44,29>>,<<37,36,9,45,59,37>>,<<48,62,30,5,42,51>>,
  <<53,21,15,41,36,52>>,<<58,44,63,12,31,53>>,<<54,1,4,58,29,0>>,<<6,51,9,54,6,15>>,<<26,15,11,5,49,18>>,
  <<2,8,14,35,5,26>>,<<47,23,1,37,20,34>>,<<8,11,51,23,57,38>>,<<19,37,8,48,39,52>>,<<24,60,56,19,34,53>>,
  <<29,19,41,55,28,54>>,<<56,30,4,12,52,18>>,<<23,21,27,51,12,36>>,<<19,42,31,32,11,47>>,<<10,40,51,41,15,57>>,
  <<60,14,23,15,25,2>>,<<61,58,11,32,18,14>>,<<43,54,51,50,26,34>>,<<53,36,20,58,15,36>>,<<25,50,27,5,35,54>>,
  <<30,9,12,41,29,55>>,<<37,56,37,46,10,16>>,<<5,27,49,38,28,45>>,<<10,50,33,10,23,46>>,<<35,37,19,61,59,50>>,
  <<55,1,21,12,38,54>>,<<46,63,40,21,42,0>>,<<56,45,9,29,31,2>>,<<22,56,43,51,62,7>>,<<42,20,45,2,41,11>>,
  <<18,13,48,32,61,18>>,<<38,41,49,47,39,22>>,<<54,26,55,43,16,37>>,<<25,60,9,38,42,43>>,<<51,27,48,41,8,60>>,
  <<52,7,37,58,1,8>>,<<57,30,21,30,60,8>>,<<48,28,41,39,0,19>>,<<63,33,58,18,48,21>>,<<44,49,45,20,63,29>>,
  <<45,29,34,37,56,41>>,<<1,58,35,52,34,45>>,<<52,12,60,42,37,2>>,<<44,54,4,5,35,24>>,<<60,39,10,1,12,39>>,
  <<53,61,7,44,2,9>>,<<9,26,9,59,44,12>>,<<41,60,20,51,62,41>>,<<12,30,39,45,24,48>>,<<43,20,62,20,49,1>>,
  <<53,2,31,28,38,3>>,<<31,19,11,28,45,34>>,<<37,22,48,16,33,47>>,<<42,45,32,52,27,48>>,<<33,43,52,61,31,58>>,
  <<40,26,14,3,13,19>>,<<6,37,48,25,44,24>>,<<41,6,3,20,6,31>>,<<12,40,21,14,32,37>>,<<47,9,40,8,58,43>>,
  <<49,33,17,42,44,3>>,<<35,8,53,15,54,12>>,<<26,6,9,25,58,22>>,<<4,23,53,24,1,54>>,<<25,31,43,56,36,5>>,
  <<40,36,60,35,20,8>>,<<52,42,6,13,60,33>>,<<29,15,62,59,9,53>>,<<43,45,49,6,36,38>>,<<53,27,18,14,25,40>>,
  <<9,56,19,29,3,44>>,<<2,14,17,8,58,13>>,<<22,42,18,23,36,17>>,<<3,58,5,25,51,25>>,<<44,30,61,7,1,45>>,
  <<57,16,60,1,34,18>>,<<34,53,51,48,47,37>>,<<44,35,20,56,36,39>>,<<8,27,36,29,53,15>>,<<18,9,5,37,42,17>>,
  <<34,58,10,33,19,32>>,<<0,5,45,55,50,37>>,<<25,56,30,42,23,42>>,<<6,8,18,44,38,50>>,<<8,32,59,13,25,10>>,
  <<39,22,18,53,49,27>>,<<49,4,51,60,38,29>>,<<13,60,2,34,55,5>>,<<23,42,35,41,44,7>>,<<34,4,57,1,27,21>>,
  <<45,30,14,26,9,35>>,<<41,51,18,7,8,46>>,<<46,10,3,43,2,47>>,<<12,21,37,1,34,52>>,<<58,16,13,20,42,8>>,
  <<9,22,30,63,25,11>>,<<34,9,16,50,62,15>>,<<15,25,3,52,13,24>>,<<12,26,60,49,5,47>>,<<50,63,44,30,11,25>>,
  <<2,49,50,26,52,39>>,<<1,10,21,58,30,22>>,<<26,61,6,45,3,27>>,<<47,5,61,12,39,42>>,<<30,45,25,48,40,10>>,
  <<40,27,58,55,29,12>>,<<28,26,7,63,25,45>>,<<54,57,45,2,56,61>>,<<10,22,47,17,34,1>>,<<56,17,23,36,42,21>>,
  <<27,51,41,30,4,28>>,<<8,3,29,32,19,36>>,<<44,16,36,43,38,54>>,<<37,38,33,22,29,24>>,<<63,5,8,26,59,40>>,
  <<19,34,9,41,37,44>>,<<44,21,59,27,10,49>>,<<5,9,45,14,47,53>>,<<15,55,13,22,36,55>>,<<21,58,50,10,24,4>>,
  <<61,50,53,40,44,11>>,<<2,10,38,12,39,12>>,<<37,43,56,6,1,19>>,<<52,48,9,50,48,21>>,<<57,7,58,21,43,22>>,
  <<25,42,5,14,61,51>>,<<50,34,14,49,5,51>>,<<56,37,51,37,57,63>>,<<30,11,36,18,63,41>>,<<41,37,57,42,45,55>>,
  <<62,45,47,10,17,7>>,<<54,23,56,36,14,29>>,<<40,62,27,10,24,38>>,<<41,42,16,27,17,50>>,<<61,6,18,42,59,53>>,
  <<3,10,55,30,47,2>>,<<53,48,26,4,57,11>>,<<10,57,16,36,28,27>>,<<45,26,35,30,54,33>>,<<41,47,39,11,53,44>>,
  <<22,63,26,13,4,53>>,<<14,41,35,39,1,11>>,<<19,0,20,11,60,11>>,<<35,49,25,7,37,26>>,<<18,25,54,42,38,58>>,
  <<28,7,23,50,27,60>>,<<43,12,40,29,11,63>>,<<20,49,31,12,25,18>>,<<22,9,9,46,11,42>>,<<30,36,23,4,50,14>>,
  <<40,18,56,11,39,16>>,<<18,35,36,11,46,47>>,<<48,45,6,34,13,53>>,<<40,23,15,60,10,11>>,<<60,51,16,11,53,14>>,
  <<46,26,52,48,62,23>>,<<52,29,25,37,50,36>>,<<40,28,38,44,46,5>>,<<42,52,15,14,33,29>>,<<44,12,57,47,19,53>>,
  <<58,42,44,58,45,38>>,<<27,57,44,3,57,15>>,<<42,62,61,46,40,18>>,<<9,53,20,22,1,36>>,<<40,48,2,46,61,47>>,
  <<32,26,11,8,59,5>>,<<57,18,20,43,3,5>>,<<28,52,38,37,29,11>>,<<34,55,11,26,17,24>>,<<1,46,34,1,42,41>>,
  <<56,43,54,10,46,51>>,<<27,13,9,5,8,58>>,<<13,52,44,42,17,3>>,<<35,40,23,27,46,30>>,<<27,18,32,53,43,52>>,
  <<57,28,2,12,11,58>>,<<8,34,19,55,58,60>>,<<33,21,5,42,31,1>>,<<15,17,45,60,39,21>>,<<8,39,42,39,30,55>>,
  <<13,62,26,11,25,56>>,<<43,8,61,33,56,61>>,<<26,48,25,5,58,29>>,<<2,41,28,35,14,37>>,<<22,5,30,50,56,40>>,
  <<61,22,3,48,55,30>>,<<38,59,58,30,5,50>>,<<16,12,39,30,12,17>>,<<7,10,59,39,16,27>>,<<17,56,27,47,5,29>>,
  <<47,2,62,5,37,34>>,<<23,59,0,36,57,41>>,<<9,39,59,57,38,45>>,<<39,49,29,16,6,51>>,<<11,63,36,27,25,5>>,
  <<57,58,12,46,33,25>>,<<43,33,48,19,43,34>>,<<14,3,3,14,5,41>>,<<9,49,41,26,46,34>>,<<61,47,54,33,42,3>>,
  <<47,22,26,7,52,12>>,<<43,43,30,52,50,23>>,<<41,24,12,3,36,58>>,<<4,36,39,23,59,22>>,<<40,49,46,34,14,41>>,
  <<50,31,15,42,3,43>>,<<1,37,32,21,51,45>>,<<6,60,16,57,45,46>>,<<11,19,1,29,40,47>>,<<16,42,49,0,35,48>>,
  <<31,47,2,44,18,51>>,<<54,15,34,45,40,26>>,<<59,38,18,17,35,27>>,<<40,54,5,19,50,35>>,<<60,18,7,34,28,39>>,
  <<1,42,55,5,23,40>>,<<22,50,45,37,58,55>>,<<49,61,8,58,17,20>>,<<16,52,31,33,42,37>>,<<37,60,21,1,14,53>>,
  <<3,7,56,23,45,58>>,<<41,44,40,4,51,36>>,<<57,29,46,0,28,51>>,<<19,61,20,4,58,3>>,<<26,44,46,9,39,28>>,
  <<12,19,18,47,48,37>>,<<39,30,45,3,8,2>>,<<42,34,11,54,51,37>>,<<29,53,35,44,54,58>>,<<30,33,24,61,47,6>>,
  <<35,56,8,33,42,7>>,<<50,61,25,12,26,10>>,<<47,62,18,10,18,33>>,<<52,21,3,46,12,34>>,<<40,20,16,53,8,3>>,
  <<26,59,51,26,18,12>>,<<35,2,55,1,50,60>>,<<27,44,63,27,47,18>>,<<32,3,48,63,41,19>>,<<52,31,49,14,20,23>>,
  <<18,42,19,37,51,28>>,<<58,34,22,3,8,36>>,<<24,45,56,25,39,41>>,<<35,7,14,50,21,55>>,<<2,62,36,25,46,8>>,
  <<56,20,27,2,29,1>>,<<12,49,28,17,7,5>>,<<49,42,24,45,19,35>>,<<21,56,31,56,38,53>>,<<38,21,26,5,9,16>>,
  <<53,26,43,48,56,18>>,<<20,17,2,24,17,36>>,<<7,36,26,14,20,57>>,<<32,28,35,49,28,56>>,<<5,22,31,13,41,22>>,
  <<40,55,49,7,3,29>>,<<50,37,18,15,56,30>>,<<11,25,4,2,29,35>>,<<46,58,22,60,54,41>>,<<57,20,44,20,37,55>>,
  <<4,47,1,45,19,5>>,<<29,34,51,31,56,9>>,<<56,45,14,52,15,38>>,<<22,56,48,10,47,43>>,<<0,9,29,10,54,10>>,
  <<49,8,35,15,42,2>>,<<22,2,31,43,54,32>>,<<23,46,19,60,47,44>>,<<9,21,55,33,57,53>>,<<54,36,42,35,8,62>>,
  <<51,37,35,33,0,21>>,<<7,2,37,48,42,24>>,<<19,8,47,25,18,50>>,<<34,13,0,5,2,53>>,<<23,56,1,29,55,33>>,
  <<17,58,51,24,39,15>>,<<42,45,37,11,12,20>>,<<51,52,40,50,43,4>>,<<58,35,2,56,24,29>>,<<34,28,5,22,45,36>>,
  <<17,4,34,57,46,4>>,<<55,41,18,38,52,46>>,<<11,6,20,53,30,50>>,<<26,11,37,32,14,53>>,<<39,61,35,26,47,26>>,
  <<20,18,46,12,34,29>>,<<41,26,36,44,5,45>>,<<2,14,22,31,42,49>>,<<34,48,33,23,60,14>>,<<25,46,53,32,0,25>>,
  <<16,44,9,42,4,35>>,<<21,3,58,13,63,35>>,<<46,54,43,0,36,40>>,<<40,61,52,44,55,16>>,<<21,13,40,46,6,25>>,
  <<31,59,8,54,59,26>>,<<23,37,17,16,57,48>>,<<33,19,50,23,46,50>>,<<24,17,6,33,50,60>>,<<42,26,53,62,13,35>>,
  <<47,49,37,34,8,36>>,<<23,42,40,0,29,43>>,<<34,4,62,24,11,57>>,<<20,43,33,62,20,2>>,<<40,7,35,13,63,5>>,
  <<61,20,48,29,6,16>>,<<21,33,4,48,21,3>>,<<39,42,51,13,49,41>>,<<36,43,44,11,41,0>>,<<56,7,46,26,19,4>>,
  <<0,40,19,33,29,35>>,<<55,37,39,42,33,45>>,<<38,13,4,14,35,13>>,<<19,29,55,15,50,21>>,<<42,61,22,17,8,61>>,
  <<42,2,46,1,44,55>>,<<38,23,50,46,42,2>>,<<61,55,17,48,0,42>>,<<43,51,57,2,9,62>>,<<5,19,32,6,39,14>>,
  <<16,45,53,30,21,28>>,<<33,10,48,43,55,54>>,<<11,27,28,43,62,21>>,<<62,45,52,33,1,43>>,<<1,50,18,20,45,14>>,
  <<11,37,10,12,6,11>>,<<8,38,3,10,62,33>>,<<11,42,33,60,41,5>>,<<23,48,43,37,17,31>>,<<51,39,59,10,34,7>>,
  <<50,0,30,42,12,54>>,<<47,6,46,24,40,7>>,<<6,39,13,26,62,46>>,<<61,41,56,19,38,51>>,<<1,26,11,23,11,35>>,
  <<27,57,49,26,41,51>>,<<38,19,7,51,23,1>>,<<6,59,41,27,13,25>>,<<11,18,26,63,7,26>>,<<33,6,5,48,36,53>>,
  <<10,43,60,30,50,8>>,<<30,7,62,45,28,12>>,<<2,21,5,57,47,30>>,<<7,44,53,28,42,31>>,<<9,4,31,62,28,55>>,
  <<50,40,22,45,42,10>>,<<46,61,26,26,41,21>>,<<25,58,59,42,41,0>>,<<27,18,37,12,28,24>>,<<32,41,21,48,22,25>>,
  <<49,6,16,61,56,51>>,<<35,50,10,19,38,55>>,<<1,61,44,41,5,61>>,<<39,34,29,22,11,39>>,<<43,18,48,25,48,22>>,
  <<4,6,34,12,21,27>>,<<50,1,10,31,29,47>>,<<48,46,55,45,14,18>>,<<53,5,40,17,9,19>>,<<26,63,35,45,21,49>>,
  <<51,50,21,32,58,53>>,<<23,0,29,43,13,8>>,<<59,13,36,54,32,26>>,<<42,53,0,26,34,58>>,<<43,33,53,42,27,6>>,
  <<52,40,56,17,59,54>>,<<20,11,4,10,13,20>>,<<11,14,47,3,53,24>>,<<21,1,39,59,13,21>>,<<26,34,5,0,16,11>>,
  <<2,27,8,30,36,18>>,<<9,10,34,35,17,43>>,<<50,46,25,18,31,62>>,<<36,21,61,55,40,7>>,<<51,26,14,35,24,10>>,
  <<14,38,41,55,47,38>>,<<58,14,63,24,41,29>>,<<26,49,10,17,59,58>>,<<51,41,19,52,3,58>>,<<37,16,55,25,13,3>>,
  <<4,7,14,1,38,20>>,<<45,43,5,48,51,39>>,<<60,48,22,27,35,42>>,<<21,36,8,14,8,47>>,<<41,0,10,29,50,50>>,
  <<55,35,20,24,48,30>>,<<57,0,21,42,6,49>>,<<32,18,58,39,5,39>>,<<8,11,61,5,26,46>>,<<55,50,25,41,27,14>>,
  <<53,31,7,56,12,49>>,<<49,52,11,37,11,60>>,<<51,17,12,55,33,14>>,<<27,10,15,21,54,21>>,<<32,43,45,25,56,11>>,
  <<23,41,1,35,60,21>>,<<11,40,14,42,56,54>>,<<53,61,17,26,35,16>>,<<39,36,53,63,44,25>>,<<51,42,63,40,20,51>>,
  <<52,27,11,42,49,57>>,<<4,13,17,38,26,8>>,<<24,41,18,53,4,12>>,<<35,3,40,13,51,25>>,<<54,56,11,60,7,12>>,
  <<42,55,24,3,4,45>>,<<14,5,32,14,23,63>>,<<25,31,53,38,5,13>>,<<40,36,6,18,53,15>>,<<5,18,57,40,6,57>>,
  <<50,43,26,11,29,54>>,<<36,23,21,33,10,58>>,<<35,48,55,0,53,40>>,<<46,15,36,9,7,49>>,<<48,39,13,43,57,8>>,
  <<27,41,5,44,29,46>>,<<52,28,55,30,2,51>>,<<5,58,49,43,36,13>>,<<13,21,0,2,11,50>>,<<57,2,45,19,40,35>>,
  <<31,40,29,0,46,13>>,<<4,34,25,28,58,43>>,<<15,6,29,21,48,46>>,<<36,14,19,53,19,62>>,<<63,25,46,9,43,26>>,
  <<36,19,42,37,55,56>>,<<56,47,43,52,33,60>>,<<43,2,4,43,36,17>>,<<7,58,19,16,53,57>>,<<54,33,48,51,54,25>>,
  <<37,9,13,23,56,57>>,<<52,19,53,50,11,55>>,<<35,59,17,22,13,23>>,<<22,14,42,12,16,44>>,<<42,47,2,12,30,42>>,
  <<62,11,4,27,8,46>>,<<16,21,51,56,35,20>>,<<23,4,13,62,16,45>>,<<35,10,23,39,56,6>>,<<1,26,16,46,59,6>>,
  <<45,2,38,15,53,61>>,<<37,44,46,41,50,19>>,<<52,5,28,22,49,0>>,<<57,28,12,58,43,1>>,<<42,33,41,47,3,52>>,
  <<58,18,47,43,44,2>>,<<26,53,58,35,62,31>>,<<55,24,63,25,8,20>>,<<46,22,19,35,12,30>>,<<30,42,36,23,7,10>>,
  <<12,38,12,42,15,30>>,<<18,41,49,30,3,43>>,<<53,15,27,9,1,44>>,<<4,26,3,37,20,41>>,<<29,18,12,8,29,40>>,
  <<6,60,26,39,14,54>>,<<41,34,4,18,12,55>>,<<12,4,23,12,38,61>>,<<15,8,53,62,17,33>>,<<1,47,24,36,27,42>>,
  <<41,44,50,50,19,44>>,<<62,52,40,18,55,59>>,<<8,35,9,26,44,61>>,<<61,13,11,50,33,42>>,<<12,19,28,29,17,45>>,
  <<60,38,45,17,12,25>>,<<13,4,40,30,46,51>>,<<24,30,61,54,28,1>>,<<39,40,37,18,48,62>>,<<42,49,26,53,63,28>>,
  <<15,43,22,17,12,59>>,<<32,8,17,30,46,21>>,<<57,59,2,17,19,26>>,<<49,37,11,43,16,48>>,<<37,36,24,50,12,17>>,
  <<3,47,58,8,44,22>>,<<48,62,45,10,59,30>>,<<17,13,46,19,6,8>>,<<43,49,43,7,8,19>>,<<16,48,62,19,56,43>>,
  <<26,35,54,11,17,40>>,<<38,41,0,53,56,1>>,<<56,50,47,18,20,40>>,<<22,61,17,41,51,45>>,<<23,41,6,58,44,57>>,
  <<14,44,49,51,20,62>>,<<51,37,45,15,33,28>>,<<15,34,20,37,21,63>>,<<9,36,6,33,5,45>>,<<17,9,3,24,51,6>>,
  <<49,43,14,16,5,36>>,<<46,44,7,14,61,58>>,<<5,13,39,15,19,34>>,<<6,57,27,32,12,46>>,<<14,20,42,54,50,18>>,
  <<27,6,41,48,19,56>>,<<36,33,8,25,2,19>>,<<53,62,2,38,36,45>>,<<49,34,12,36,14,40>>,<<53,18,31,39,51,23>>,
  <<30,55,22,22,1,43>>,<<2,5,30,33,20,61>>,<<32,30,5,9,31,50>>,<<11,32,61,9,3,24>>,<<50,54,57,55,37,8>>,
  <<33,55,9,13,26,13>>,<<16,31,38,48,27,45>>,<<41,28,6,4,8,39>>,<<46,51,54,39,2,40>>,<<2,16,56,54,44,43>>,
  <<15,2,55,48,13,17>>,<<34,55,26,31,34,3>>,<<50,40,32,27,11,18>>,<<3,11,50,24,17,39>>,<<12,18,53,63,48,23>>,
  <<37,20,44,3,1,12>>,<<52,35,43,15,56,3>>,<<8,0,45,30,34,7>>,<<40,34,56,22,52,36>>,<<56,29,44,51,36,40>>,
  <<35,26,13,4,37,19>>,<<48,22,58,30,13,46>>,<<26,44,61,14,56,7>>,<<58,29,14,24,53,20>>,<<12,39,61,53,16,59>>,
  <<36,2,23,25,11,30>>,<<5,22,46,18,58,1>>,<<31,53,20,22,24,18>>,<<13,49,60,40,32,38>>,<<5,32,28,51,1,55>>,
  <<20,37,45,30,49,57>>,<<19,62,15,62,27,40>>,<<39,26,17,13,6,44>>,<<1,4,38,49,43,49>>,<<56,6,17,43,19,54>>,
  <<7,12,34,22,3,57>>,<<12,35,18,58,61,57>>,<<49,28,14,22,10,24>>,<<15,39,48,44,41,29>>,<<28,25,47,38,10,3>>,
  <<26,6,29,53,59,37>>,<<30,54,47,56,32,21>>,<<49,43,19,39,53,7>>,<<38,27,44,47,14,47>>,<<60,20,46,16,15,5>>,
  <<54,27,55,60,34,45>>,<<8,62,25,12,49,56>>,<<60,60,38,19,45,25>>,<<6,43,7,27,34,27>>,<<53,18,36,62,35,59>>,
  <<61,45,50,20,10,32>>,<<4,29,12,26,55,56>>,<<9,57,19,46,21,52>>,<<58,56,25,51,9,44>>,<<13,51,20,18,2,25>>,
  <<17,45,21,54,46,61>>,<<60,51,36,39,54,29>>,<<26,3,30,46,57,29>>,<<35,10,33,21,25,14>>,<<23,9,46,28,21,47>>,
  <<0,46,37,11,35,2>>,<<12,57,6,37,46,22>>,<<18,60,43,25,34,35>>,<<56,33,28,6,40,13>>,<<37,54,38,56,26,16>>,
  <<56,43,10,39,47,2>>,<<28,57,17,50,2,21>>,<<33,16,2,22,61,21>>,<<58,3,52,8,34,26>>,<<16,2,13,26,6,43>>,
  <<25,9,16,1,38,27>>,<<2,46,7,48,51,46>>,<<8,49,44,36,39,59>>,<<17,56,47,11,7,44>>,<<3,36,42,33,52,47>>,
  <<22,25,14,16,9,34>>,<<3,41,1,18,24,42>>,<<62,27,63,14,37,30>>,<<4,56,23,53,11,16>>,<<9,20,31,9,42,11>>,
  <<6,26,47,55,5,29>>,<<57,44,7,46,8,50>>,<<23,60,0,53,11,50>>,<<23,6,47,21,19,39>>,<<20,7,40,19,11,62>>,
  <<45,58,25,6,48,2>>,<<6,46,11,57,20,7>>,<<3,47,4,55,12,30>>,<<47,23,26,24,6,21>>,<<63,13,55,4,19,30>>,
  <<13,44,42,15,45,15>>,<<6,22,4,60,50,27>>,<<32,58,1,48,52,38>>,<<46,29,12,43,50,18>>,<<52,42,31,0,46,20>>,
  <<24,56,38,11,1,39>>,<<27,60,4,62,44,10>>,<<40,46,3,56,13,48>>,<<38,32,8,55,34,13>>,<<53,47,7,3,26,5>>,
  <<18,24,35,41,7,52>>,<<11,46,32,20,62,21>>,<<45,40,21,46,2,11>>,<<1,15,5,30,52,3>>,<<42,56,19,61,37,17>>,
  <<15,55,38,9,22,42>>,<<13,51,25,41,50,60>>,<<29,56,59,38,42,53>>,<<22,14,57,17,33,23>>,<<2,55,14,51,26,14>>,
  <<54,53,27,58,22,47>>,<<48,60,36,38,42,23>>,<<53,24,44,58,8,19>>,<<16,41,30,63,3,42>>,<<56,38,56,13,60,43>>,
  <<53,39,49,11,52,2>>,<<44,42,28,5,28,7>>,<<51,30,13,59,44,26>>,<<55,19,55,46,53,4>>,<<46,17,11,56,57,14>>,
  <<32,2,29,62,10,13>>,<<58,33,3,2,41,29>>,<<12,63,14,33,19,46>>,<<20,26,29,55,57,18>>,<<7,50,12,30,32,34>>,
  <<40,20,41,40,58,53>>,<<41,0,30,57,51,1>>,<<47,8,26,30,11,9>>,<<40,55,10,59,52,15>>,<<58,0,58,24,16,54>>,
  <<9,11,34,52,35,51>>,<<60,29,58,42,38,8>>,<<23,41,21,63,61,36>>,<<25,16,4,50,27,44>>,<<35,62,36,57,16,46>>,
  <<19,23,13,30,47,20>>,<<2,4,1,50,20,47>>,<<29,15,28,6,44,11>>,<<12,1,39,10,53,32>>,<<28,50,44,6,30,47>>,
  <<13,55,9,60,53,33>>,<<50,58,51,56,9,53>>,<<14,55,26,14,62,23>>,<<19,14,11,50,56,24>>,<<26,2,60,39,9,44>>,
  <<22,23,0,21,8,55>>,<<34,29,10,62,47,16>>,<<21,58,16,21,58,26>>,<<43,46,59,5,23,54>>,<<20,24,10,37,8,4>>,
  <<61,60,1,20,22,23>>,<<52,9,27,46,5,17>>,<<19,0,50,21,30,34>>,<<12,22,47,0,21,4>>,<<38,53,21,4,51,20>>,
  <<5,44,44,43,11,38>>,<<26,3,40,28,26,37>>,<<54,14,20,3,58,55>>,<<44,37,10,44,40,48>>,<<30,12,46,17,50,57>>,
  <<6,5,49,47,6,1>>,<<17,31,6,8,53,14>>,<<33,21,35,52,1,24>>,<<3,26,6,47,13,2>>,<<18,31,23,26,61,4>>,
  <<48,41,57,48,28,10>>,<<43,23,32,61,5,4>>,<<39,44,36,42,4,15>>,<<16,22,51,9,54,28>>,<<62,27,9,61,5,38>>,
  <<49,46,33,51,8,59>>,<<38,25,35,11,62,39>>,<<50,31,45,52,37,1>>,<<44,43,13,17,29,36>>,<<10,54,47,39,60,41>>,
  <<18,17,62,61,34,14>>,<<54,35,28,57,25,27>>,<<60,38,1,46,13,40>>,<<47,57,25,36,16,61>>,<<10,5,53,56,39,25>>,
  <<58,54,16,15,57,36>>,<<10,1,10,61,20,24>>,<<2,58,23,40,61,29>>,<<10,36,43,15,15,50>>,<<20,28,58,55,11,41>>,
  <<60,30,43,54,39,37>>,<<23,47,29,59,34,60>>,<<41,56,12,25,62,34>>,<<45,11,1,47,29,44>>,<<61,1,30,27,42,53>>,
  <<5,29,44,49,16,26>>,<<46,1,36,32,30,45>>,<<54,28,50,54,4,18>>,<<33,1,12,10,35,17>>,<<41,38,8,1,17,43>>,
  <<46,2,16,21,47,38>>,<<29,57,49,9,28,54>>,<<44,62,2,53,11,57>>,<<21,35,58,35,25,12>>,<<59,8,43,16,31,54>>,
  <<28,23,43,25,42,31>>,<<10,19,19,44,50,51>>,<<1,22,62,37,26,56>>,<<58,48,18,1,53,20>>,<<40,5,46,5,48,13>>,
  <<37,11,62,51,11,31>>,<<53,1,27,32,24,40>>,<<17,57,42,5,41,16>>,<<14,63,58,51,4,34>>,<<33,57,53,18,61,14>>,
  <<10,35,4,50,46,28>>,<<27,10,45,31,24,44>>,<<17,58,22,58,57,9>>,<<62,24,15,13,52,1>>,<<62,29,38,61,23,60>>,
  <<19,43,51,13,31,6>>,<<2,34,21,2,12,22>>,<<49,14,9,22,49,48>>,<<7,13,34,39,21,1>>,<<13,16,7,28,9,14>>,
  <<53,28,38,59,44,63>>,<<60,26,5,18,5,8>>,<<63,35,58,52,20,38>>,<<54,43,60,30,32,37>>,<<18,55,40,5,0,56>>,
  <<45,12,50,58,30,9>>,<<1,46,10,58,44,7>>,<<39,54,28,57,44,11>>,<<26,9,53,47,47,32>>,<<49,2,8,35,56,44>>,
  <<11,34,46,38,22,61>>,<<59,58,22,11,53,35>>,<<44,63,51,0,13,22>>,<<13,14,52,9,24,63>>,<<5,61,19,20,57,15>>,
  <<29,14,63,22,44,61>>,<<51,2,42,7,9,25>>,<<44,24,39,50,63,58>>,<<37,46,36,29,54,28>>,<<39,16,60,31,48,41>>,
  <<62,48,27,33,6,17>>,<<9,26,54,10,32,14>>,<<40,26,59,18,0,21>>,<<4,18,11,56,16,61>>,<<1,29,50,22,16,9>>,
  <<25,56,11,58,10,44>>,<<17,39,43,4,44,60>>,<<4,58,3,59,46,17>>,<<8,42,22,62,19,1>>,<<37,13,27,52,29,53>>,
  <<20,63,37,56,38,10>>,<<40,27,39,7,17,14>>,<<10,32,10,2,29,56>>,<<32,25,12,35,29,14>>,<<62,40,5,42,32,14>>,
  <<54,18,14,4,30,36>>,<<2,25,24,45,5,62>>,<<2,30,47,29,41,56>>,<<63,30,40,27,33,15>>,<<2,35,6,14,13,51>>,
  <<7,9,60,2,51,35>>,<<34,30,5,56,17,53>>,<<54,4,53,39,3,46>>,<<29,47,13,23,53,8>>,<<22,1,32,6,25,41>>,
  <<14,43,40,32,22,63>>,<<4,7,54,57,40,50>>,<<41,0,50,21,53,16>>,<<23,1,49,24,33,31>>,<<49,37,46,12,35,42>>,
  <<25,35,8,27,27,44>>,<<41,35,19,40,47,42>>,<<24,46,17,30,43,36>>,<<7,27,5,50,16,63>>,<<24,22,10,33,9,57>>,
  <<49,14,19,4,18,56>>,<<35,63,36,10,35,54>>,<<13,21,40,58,13,16>>,<<56,32,14,28,57,42>>,<<19,44,41,48,16,7>>,
  <<10,42,61,57,20,17>>,<<14,26,16,61,57,0>>,<<17,35,5,32,9,31>>,<<28,61,26,56,55,44>>,<<43,22,8,37,54,25>>,
  <<53,9,0,29,15,22>>,<<44,22,25,55,62,15>>,<<25,53,17,10,57,7>>,<<18,21,61,21,55,30>>,<<45,52,52,43,29,37>>,
  <<34,31,54,3,19,18>>,<<62,22,6,41,35,58>>,<<55,15,37,38,20,54>>,<<8,50,54,35,26,11>>,<<44,4,21,31,17,24>>,
  <<5,56,6,18,54,28>>,<<20,61,23,61,37,31>>,<<20,2,47,45,9,26>>,<<50,22,63,36,48,20>>,<<38,26,35,28,16,48>>,
  <<23,36,23,2,12,29>>,<<45,24,2,51,40,56>>,<<50,57,32,55,42,46>>,<<41,60,11,49,18,51>>,<<50,3,15,24,50,35>>,
  <<7,17,28,40,57,45>>,<<26,46,56,25,44,52>>,<<54,42,31,47,32,23>>,<<45,40,51,56,36,33>>,<<44,1,22,24,15,16>>,
  <<2,59,23,57,15,38>>,<<43,31,15,40,29,57>>,<<51,58,29,62,3,30>>,<<20,14,53,55,50,1>>,<<11,12,9,1,55,11>>,
  <<41,22,43,23,22,17>>,<<52,9,52,33,55,3>>,<<54,33,29,3,42,27>>,<<55,13,18,20,35,39>>,<<16,61,24,11,53,42>>,
  <<4,60,37,18,49,11>>,<<57,48,21,11,46,45>>,<<17,2,1,14,33,27>>,<<50,26,47,55,51,57>>,<<25,54,2,22,58,36>>,
  <<9,15,43,58,24,11>>,<<40,30,53,19,36,1>>,<<59,29,7,35,0,41>>,<<7,36,17,12,40,2>>,<<14,29,25,50,28,16>>,
  <<35,42,38,2,36,26>>,<<8,41,57,14,20,51>>,<<39,31,16,54,44,4>>,<<1,63,54,57,10,21>>,<<21,3,49,11,19,45>>,
  <<10,46,50,35,8,26>>,<<56,46,49,38,52,40>>,<<4,9,24,17,43,44>>,<<9,47,13,6,17,29>>,<<36,58,40,26,40,57>>,
  <<28,36,49,52,37,15>>,<<15,1,56,11,48,25>>,<<56,37,47,58,61,44>>,<<41,37,53,63,49,36>>,<<17,30,56,29,6,44>>,
  <<20,54,50,17,1,58>>,<<22,19,51,35,23,12>>,<<1,41,7,38,10,28>>,<<55,63,61,14,57,20>>,<<62,56,5,53,45,34>>,
  <<45,37,57,8,19,61>>,<<61,27,22,53,31,6>>,<<36,45,59,50,30,60>>,<<9,59,19,16,58,4>>,<<19,2,40,9,34,43>>,
  <<57,39,24,54,39,21>>,<<21,41,22,60,63,50>>,<<39,1,11,43,6,9>>,<<47,38,7,34,52,34>>,<<57,20,40,41,41,36>>,
  <<22,61,3,16,23,19>>,<<28,5,0,53,46,26>>,<<1,9,42,49,2,46>>,<<21,42,2,49,16,44>>,<<26,1,51,20,11,45>>,
  <<39,51,49,14,44,18>>,<<11,26,44,11,50,9>>,<<23,57,41,38,12,8>>,<<44,6,55,54,19,18>>,<<30,11,37,62,51,58>>,
  <<43,32,5,11,15,58>>,<<15,46,12,22,34,12>>,<<7,24,21,48,31,34>>,<<10,58,61,4,34,37>>,<<40,34,42,61,23,10>>,
  <<28,48,60,21,63,26>>,<<30,13,61,39,21,45>>,<<11,34,7,26,8,48>>,<<13,63,7,44,30,2>>,<<7,1,58,39,14,48>>,
  <<60,4,47,49,54,1>>,<<16,53,12,2,48,47>>,<<40,47,28,60,17,43>>,<<25,57,16,34,13,24>>,<<24,48,61,35,14,38>>,
  <<34,6,23,46,33,60>>,<<43,53,18,24,31,1>>,<<11,29,53,0,21,25>>,<<30,18,25,47,41,11>>,<<0,18,37,57,17,59>>,
  <<1,62,25,10,11,7>>,<<34,12,26,19,22,48>>,<<16,13,25,22,2,63>>,<<62,53,16,28,12,34>>,<<40,26,25,29,34,43>>,
  <<8,27,47,55,10,40>>,<<38,47,63,46,49,34>>,<<54,42,51,11,34,38>>,<<57,12,28,32,36,41>>,<<31,50,12,13,42,19>>,
  <<5,34,43,26,55,50>>,<<39,19,30,8,5,44>>,<<37,0,12,23,54,14>>,<<21,30,11,44,56,47>>,<<30,8,48,37,18,58>>,
  <<53,45,38,23,12,28>>,<<32,42,7,40,12,7>>,<<8,45,56,38,40,3>>,<<53,11,49,57,34,59>>,<<59,19,45,30,58,2>>,
  <<55,45,8,60,28,8>>,<<15,58,28,14,44,59>>,<<60,49,8,19,25,24>>,<<10,61,11,17,53,24>>,<<38,52,27,54,5,1>>,
  <<24,37,45,60,22,63>>,<<52,43,2,51,18,23>>,<<19,39,48,10,15,35>>,<<7,53,2,35,54,51>>,<<2,16,57,34,33,60>>,
  <<30,12,32,56,21,31>>,<<46,2,61,36,34,40>>,<<61,17,60,48,25,32>>,<<14,62,59,14,39,42>>,<<61,42,47,34,12,5>>,
  <<23,1,20,58,51,25>>,<<29,14,39,15,47,27>>,<<40,60,24,41,44,19>>,<<3,33,39,47,54,20>>,<<56,11,41,7,44,1>>,
  <<13,20,31,39,15,17>>,<<28,25,48,18,63,19>>,<<18,58,20,28,53,1>>,<<9,7,46,54,36,59>>,<<15,35,6,29,11,45>>,
  <<18,5,47,49,13,48>>,<<6,39,29,11,4,43>>,<<26,18,36,43,25,30>>,<<55,4,46,50,14,2>>,<<41,24,33,11,26,26>>,
  <<37,16,7,11,19,63>>,<<31,18,57,6,3,45>>,<<54,6,53,9,40,62>>,<<16,58,55,14,21,57>>,<<1,49,59,39,18,53>>,
  <<29,46,14,50,23,17>>,<<7,4,18,34,2,43>>,<<8,58,52,19,3,44>>,<<14,7,8,41,62,45>>,<<25,38,52,49,16,54>>,
  <<49,55,31,52,3,36>>,<<5,30,15,36,53,28>>,<<1,27,12,20,18,60>>,<<56,29,55,13,58,0>>,<<19,41,18,34,17,29>>,
  <<39,5,20,49,59,32>>,<<37,16,12,34,3,35>>,<<43,19,49,22,55,47>>,<<44,9,20,8,56,48>>,<<46,58,48,27,29,45>>,
  <<26,60,57,46,9,9>>,<<55,19,61,49,26,57>>,<<41,4,15,56,43,55>>,<<49,36,52,62,53,22>>,<<54,15,1,36,63,1>>,
  <<31,52,56,18,13,21>>,<<3,38,13,37,43,58>>,<<24,46,3,5,15,10>>,<<12,60,21,29,54,26>>,<<41,52,34,9,32,50>>,
  <<32,11,42,4,23,33>>,<<63,16,6,61,26,34>>,<<61,22,39,61,62,41>>,<<43,33,20,33,50,45>>,<<51,26,45,25,47,49>>,
  <<59,63,41,16,29,11>>,<<22,11,5,37,52,39>>,<<36,51,38,16,22,14>>,<<20,63,33,13,43,55>>,<<53,28,39,39,33,16>>,
  <<14,27,51,47,30,3>>,<<54,30,16,35,11,57>>,<<21,42,47,0,4,46>>,<<42,16,48,2,62,28>>,<<21,33,45,20,13,50>>,
  <<58,36,23,17,33,5>>,<<19,44,37,5,21,52>>,<<55,57,44,16,40,6>>,<<16,31,5,39,50,20>>,<<16,41,51,7,58,9>>,
  <<36,15,35,55,43,2>>,<<44,43,29,2,35,32>>,<<4,61,8,5,22,14>>,<<32,52,24,42,38,54>>,<<9,60,49,43,46,35>>,
  <<39,21,25,19,57,24>>,<<11,35,32,30,12,43>>,<<28,15,32,60,25,53>>,<<52,23,9,19,22,39>>,<<27,46,5,1,57,23>>,
  <<42,61,4,13,48,15>>,<<33,15,53,23,3,4>>,<<48,35,11,20,30,54>>,<<58,42,31,13,6,29>>,<<37,15,57,32,36,28>>,
  <<56,9,52,63,28,9>>,<<62,12,25,52,16,22>>,<<13,18,42,31,0,25>>,<<26,24,5,27,48,40>>,<<26,50,36,1,52,6>>,
  <<57,31,57,60,21,28>>,<<13,1,18,60,35,26>>,<<14,50,29,61,0,33>>,<<63,49,35,2,53,24>>,<<47,5,53,54,47,4>>,
  <<37,48,7,33,45,39>>,<<51,24,41,12,15,14>>,<<28,7,15,28,36,22>>,<<60,7,37,54,12,19>>,<<31,41,55,48,38,25>>,
  <<50,55,14,17,46,48>>,<<48,56,24,33,46,61>>,<<2,12,54,31,17,25>>,<<29,53,27,22,63,20>>,<<41,59,37,63,38,46>>,
  <<46,53,55,53,27,9>>,<<45,24,8,54,13,45>>,<<48,28,38,40,57,16>>,<<40,11,6,51,26,33>>,<<1,14,61,54,42,21>>,
  <<12,26,57,50,62,44>>,<<3,34,59,28,10,44>>,<<10,52,54,52,49,30>>,<<27,32,54,18,63,40>>,<<22,40,60,5,44,0>>,
  <<58,25,17,24,10,38>>,<<20,23,2,62,62,21>>,<<61,5,40,13,20,30>>,<<53,47,48,39,17,52>>,<<51,33,53,38,38,17>>,
  <<6,23,25,21,59,3>>,<<3,34,0,52,58,15>>,<<58,41,2,30,6,15>>,<<22,33,18,3,23,55>>,<<34,49,10,13,6,6>>,
  <<49,54,27,56,53,8>>,<<13,61,48,46,49,32>>,<<20,0,39,53,45,35>>,<<17,43,48,31,37,1>>,<<36,42,2,47,1,41>>,
  <<52,27,8,43,42,55>>,<<39,2,61,34,60,54>>,<<23,27,37,7,27,29>>,<<63,34,45,54,26,20>>,<<27,61,30,46,37,22>>,
  <<28,42,63,51,47,27>>,<<5,15,55,34,61,46>>,<<46,56,5,2,47,60>>,<<42,13,10,47,45,7>>,<<43,53,19,4,20,18>>,
  <<3,2,40,22,35,5>>,<<30,38,54,28,45,6>>,<<35,62,18,53,56,0>>,<<58,35,9,39,50,34>>,<<10,21,15,35,27,49>>,
  <<60,25,61,42,59,25>>,<<12,21,49,7,44,29>>,<<9,42,6,7,51,30>>,<<41,57,33,50,6,11>>,<<12,24,53,37,30,9>>,
  <<59,9,0,42,39,30>>,<<61,43,23,44,33,43>>,<<33,28,0,10,47,23>>,<<36,52,58,61,41,37>>,<<26,21,31,7,32,19>>,
  <<38,27,41,48,7,45>>,<<35,58,44,16,22,35>>,<<51,29,25,48,36,59>>,<<47,50,29,29,35,6>>,<<5,54,13,31,43,17>>,
  <<45,51,39,45,35,19>>,<<13,23,31,26,6,42>>,<<33,22,2,60,42,7>>,<<9,36,13,16,31,50>>,<<1,49,55,60,22,34>>,
  <<25,18,20,5,6,57>>,<<58,63,10,37,56,58>>,<<54,25,38,2,27,0>>,<<58,14,16,54,35,42>>,<<50,42,63,51,6,10>>,
  <<22,27,40,17,20,54>>,<<47,14,26,4,57,58>>,<<19,15,52,39,2,16>>,<<47,3,5,6,17,48>>,<<36,51,29,14,42,23>>,
  <<51,57,26,46,42,19>>,<<48,44,58,15,8,52>>,<<19,6,55,18,60,55>>,<<14,53,9,20,54,42>>,<<37,31,23,54,19,7>>,
  <<12,59,42,20,26,50>>,<<37,57,54,28,23,37>>,<<33,24,41,42,29,37>>,<<20,43,1,33,32,58>>,<<24,27,20,36,5,42>>,
  <<27,41,32,55,56,2>>,<<52,38,0,11,37,60>>,<<51,9,17,11,23,32>>,<<28,51,31,42,8,46>>,<<30,51,1,15,25,26>>,
  <<3,50,20,27,9,51>>,<<22,20,8,61,31,52>>,<<7,20,14,2,20,44>>,<<59,28,9,42,23,2>>,<<34,7,34,25,9,29>>,
  <<33,42,50,25,59,0>>,<<34,42,3,44,3,55>>,<<17,58,24,18,35,43>>,<<62,9,12,20,50,51>>,<<29,36,48,2,22,24>>,
  <<45,17,11,3,44,37>>,<<44,8,56,4,45,51>>,<<2,2,58,37,45,9>>,<<20,17,44,40,61,35>>,<<29,60,60,22,40,39>>,
  <<40,47,5,33,9,26>>,<<21,29,3,5,47,1>>,<<19,10,49,19,32,36>>,<<47,6,24,41,20,7>>,<<37,44,19,35,46,47>>,
  <<42,18,9,24,20,32>>,<<31,61,10,48,9,13>>,<<24,11,50,35,26,44>>,<<38,41,37,46,52,29>>,<<49,18,0,24,14,27>>,
  <<42,40,61,2,5,61>>,<<19,53,45,52,48,36>>,<<37,43,44,5,14,26>>,<<32,6,35,5,57,34>>,<<23,4,55,14,61,44>>,
  <<9,0,35,42,38,25>>,<<25,0,46,55,58,23>>,<<46,8,36,23,30,39>>,<<11,49,63,61,11,22>>,<<53,1,44,61,18,53>>,
  <<36,56,13,50,63,4>>,<<3,13,47,59,46,53>>,<<35,52,17,36,36,13>>,<<30,25,54,4,23,11>>,<<61,56,49,35,30,42>>,
  <<38,50,49,8,12,33>>,<<47,18,40,33,30,54>>,<<23,11,43,63,50,61>>,<<57,30,19,11,42,23>>,<<12,30,37,26,6,63>>,
  <<22,42,16,4,18,32>>,<<47,29,2,55,54,36>>,<<57,16,58,46,15,33>>,<<27,26,52,25,63,5>>,<<30,21,16,32,52,45>>,
  <<11,52,8,51,46,37>>,<<44,42,1,63,23,35>>,<<15,47,53,11,44,3>>,<<34,41,48,42,36,48>>,<<16,52,29,14,24,52>>,
  <<20,36,48,17,61,35>>,<<48,8,16,42,15,27>>,<<37,51,17,2,5,8>>,<<36,12,52,33,47,54>>,<<51,4,24,37,21,60>>,
  <<63,21,60,35,21,4>>,<<14,37,59,47,12,60>>,<<7,35,49,29,33,50>>,<<62,18,44,10,11,6>>,<<15,34,13,59,18,42>>,
  <<14,10,53,43,40,8>>,<<27,11,57,54,52,29>>,<<41,42,24,54,31,8>>,<<34,1,2,22,39,35>>,<<52,35,36,37,53,46>>,
  <<10,34,61,54,25,63>>,<<22,50,53,0,9,14>>,<<23,50,6,19,17,4>>,<<39,55,40,16,9,61>>,<<28,49,47,57,41,25>>,
  <<41,17,42,27,29,7>>,<<24,62,29,47,2,34>>,<<40,28,51,30,45,63>>,<<40,14,26,2,19,9>>,<<27,10,23,48,4,44>>,
  <<39,26,15,58,51,58>>,<<46,59,15,35,6,29>>,<<26,38,61,45,33,6>>,<<12,13,33,19,43,15>>,<<39,49,47,25,53,16>>,
  <<53,35,63,37,30,44>>,<<32,62,42,24,53,54>>,<<23,1,22,18,29,59>>,<<33,18,24,44,12,23>>,<<19,24,50,40,61,56>>,
  <<11,7,18,51,30,9>>,<<49,35,0,52,45,55>>,<<23,24,54,49,30,17>>,<<29,23,48,42,63,28>>,<<16,47,31,17,38,44>>,
  <<22,11,56,55,12,30>>,<<57,54,56,18,46,25>>,<<5,57,23,0,3,50>>,<<39,56,35,10,43,33>>,<<40,27,22,47,45,49>>,
  <<42,44,21,14,11,0>>,<<27,25,43,6,1,7>>,<<20,48,20,38,8,34>>,<<1,35,41,58,17,4>>,<<13,18,24,27,40,43>>,
  <<30,28,34,27,12,21>>,<<49,42,57,59,19,44>>,<<15,24,61,36,45,11>>,<<5,8,39,63,14,41>>,<<61,54,6,10,48,57>>,
  <<45,55,39,49,44,52>>,<<33,0,35,25,48,10>>,<<31,42,17,33,31,37>>,<<51,46,11,51,39,61>>,<<37,8,2,49,39,9>>,
  <<56,42,53,18,62,10>>,<<21,35,2,63,39,34>>,<<9,34,15,6,36,3>>,<<46,52,62,19,35,6>>,<<62,28,2,36,21,25>>,
  <<4,47,44,41,52,21>>,<<29,44,12,61,32,15>>,<<24,51,38,59,60,45>>,<<5,33,36,31,34,21>>,<<61,10,45,57,31,43>>,
  <<1,0,23,45,40,21>>,<<23,43,63,49,14,53>>,<<58,27,23,61,19,43>>,<<18,46,46,52,23,18>>,<<24,10,7,27,62,3>>,
  <<35,42,31,24,33,5>>,<<31,9,18,38,39,5>>,<<33,63,5,42,48,60>>,<<27,21,20,39,47,20>>,<<45,16,42,40,48,4>>,
  <<34,20,31,50,24,22>>,<<54,39,30,21,12,30>>,<<37,45,5,27,36,29>>,<<38,35,40,12,37,30>>,<<33,57,7,28,44,44>>,
  <<53,61,1,46,52,4>>,<<21,33,57,26,23,27>>,<<2,54,3,13,10,30>>,<<31,26,52,55,36,11>>,<<8,29,54,8,9,62>>,
  <<29,52,49,57,23,61>>,<<14,33,7,50,13,4>>,<<38,6,15,54,15,28>>,<<3,18,12,47,55,36>>,<<15,20,43,28,12,61>>,
  <<26,47,44,41,11,4>>,<<25,53,30,60,55,1>>,<<57,28,1,37,45,25>>,<<42,43,12,59,12,1>>,<<3,36,21,30,21,0>>,
  <<15,8,42,41,19,57>>,<<32,42,59,38,25,14>>,<<29,9,63,6,40,4>>,<<15,29,50,31,51,28>>,<<37,22,52,0,52,50>>,
  <<26,6,13,9,13,26>>,<<32,50,22,53,47,52>>,<<41,19,57,2,19,3>>,<<30,58,15,31,53,46>>,<<41,21,17,44,52,53>>,
  <<18,9,14,44,45,56>>,<<22,8,38,0,62,23>>,<<5,58,48,4,7,45>>,<<37,38,42,29,32,63>>,<<50,24,41,23,1,37>>,
  <<53,19,5,30,54,12>>,<<29,12,8,60,10,20>>,<<45,12,19,9,31,18>>,<<59,13,40,38,51,29>>,<<3,41,54,60,25,2>>,
  <<3,56,59,13,5,50>>,<<61,8,51,26,32,15>>,<<18,47,51,28,26,62>>,<<44,6,4,41,18,12>>,<<43,63,8,20,53,12>>,
  <<3,42,39,8,27,31>>,<<43,50,27,44,43,15>>,<<51,33,6,4,33,30>>,<<32,60,19,27,8,21>>,<<9,33,11,10,22,40>>,
  <<18,59,3,21,36,45>>,<<10,47,58,15,41,56>>,<<33,55,18,20,29,52>>,<<27,8,10,33,56,17>>,<<63,32,43,1,36,18>>,
  <<45,25,20,13,42,30>>,<<41,61,29,11,20,25>>,<<41,3,33,48,8,13>>,<<44,42,32,53,46,10>>,<<10,9,31,13,29,58>>,
  <<25,55,20,48,59,10>>,<<27,50,31,36,40,60>>,<<63,40,11,39,42,28>>,<<34,17,13,59,9,16>>,<<57,10,32,46,18,28>>,
  <<15,44,26,18,49,6>>,<<3,34,37,45,54,43>>,<<18,20,6,12,40,61>>,<<19,60,15,33,14,8>>,<<49,46,42,58,11,34>>,
  <<3,32,18,27,5,29>>,<<63,52,22,8,4,40>>,<<45,9,50,12,63,32>>,<<56,44,14,40,20,14>>,<<18,17,12,28,22,25>>,
  <<19,52,62,0,25,41>>,<<62,40,9,26,51,17>>,<<22,53,29,44,2,5>>,<<61,41,36,60,59,20>>,<<21,25,26,33,5,34>>,
  <<58,19,2,50,34,57>>,<<29,31,37,24,60,6>>,<<26,35,34,52,38,9>>,<<42,1,56,35,17,39>>,<<45,1,43,26,42,9>>,
  <<53,28,57,48,16,46>>,<<9,48,56,19,4,54>>,<<59,62,20,60,43,19>>,<<46,28,7,8,7,23>>,<<34,27,20,15,3,56>>,
  <<7,31,62,11,23,11>>,<<49,18,12,30,24,4>>,<<18,38,35,23,7,40>>,<<24,23,4,52,13,61>>,<<25,29,24,43,10,39>>,
  <<58,50,7,14,27,61>>,<<51,24,54,62,13,8>>,<<46,3,30,4,53,57>>,<<37,8,33,39,62,48>>,<<25,10,50,12,45,61>>,
  <<2,47,41,59,58,16>>,<<59,34,49,8,8,18>>,<<2,23,34,62,24,37>>,<<50,7,23,55,9,27>>,<<61,10,17,7,39,54>>,
  <<31,50,21,20,45,58>>,<<36,44,39,10,34,21>>,<<33,45,32,8,26,44>>,<<38,24,45,45,35,23>>,<<15,2,60,12,21,37>>,
  <<17,16,60,36,48,43>>,<<33,37,15,40,36,13>>,<<6,46,16,21,28,27>>,<<54,51,8,45,60,16>>,<<14,52,27,12,19,0>>,
  <<31,22,45,9,25,21>>,<<35,8,24,54,31,55>>,<<50,48,10,52,9,20>>,<<32,25,2,58,19,55>>,<<38,59,29,5,47,28>>,
  <<19,41,27,41,20,4>>,<<17,32,55,24,13,28>>,<<8,16,50,5,55,47>>,<<53,36,60,55,41,50>>,<<10,6,43,32,48,10>>,
  <<52,57,61,9,34,39>>,<<58,37,7,54,4,2>>,<<53,24,5,51,17,54>>,<<4,22,0,39,27,54>>,<<63,53,13,23,42,57>>,
  <<58,60,39,21,6,24>>,<<54,33,29,8,1,12>>,<<59,3,40,1,20,59>>,<<61,3,10,38,36,39>>,<<45,43,55,27,46,61>>,
  <<21,7,28,12,61,30>>,<<56,45,5,55,58,31>>,<<19,33,25,14,48,16>>,<<15,25,63,13,41,53>>,<<2,59,28,21,23,58>>,
  <<30,6,9,60,54,12>>,<<54,49,19,37,45,24>>,<<27,4,3,51,44,27>>,<<52,41,27,9,55,41>>,<<11,60,33,46,50,26>>,
  <<14,61,0,26,28,54>>,<<59,3,50,47,52,2>>,<<18,46,63,17,18,31>>,<<27,5,52,62,45,56>>,<<55,46,42,7,36,42>>,
  <<57,16,2,10,30,55>>,<<27,46,24,54,28,6>>,<<62,36,51,38,22,48>>,<<43,9,47,30,5,28>>,<<19,12,32,29,33,24>>,
  <<28,20,15,57,17,2>>,<<13,37,50,56,18,28>>,<<49,50,57,3,38,46>>,<<19,26,62,16,44,50>>,<<3,52,18,42,27,18>>,
  <<41,61,16,30,44,15>>,<<52,15,16,63,52,26>>,<<31,12,49,15,53,5>>,<<22,20,51,57,0,5>>,<<37,50,55,22,35,44>>,
  <<35,28,38,30,18,7>>,<<44,11,34,8,16,12>>,<<5,29,30,29,11,48>>,<<57,19,21,45,33,14>>,<<34,37,28,15,49,48>>,
  <<0,50,22,15,50,40>>,<<62,42,10,40,12,51>>,<<55,40,0,22,33,41>>,<<57,1,22,44,36,58>>,<<32,39,23,43,50,26>>,
  <<26,24,54,26,54,45>>,<<23,31,50,61,34,56>>,<<45,23,13,1,3,57>>,<<58,8,37,29,3,9>>,<<51,2,48,15,5,62>>,
  <<36,23,62,10,25,25>>,<<55,62,8,29,19,21>>,<<61,62,46,10,5,26>>,<<38,50,43,10,62,28>>,<<11,2,28,17,59,23>>,
  <<16,25,12,53,53,24>>,<<30,56,43,52,32,3>>,<<41,60,17,57,14,24>>,<<16,14,55,54,13,14>>,<<33,43,49,3,48,40>>,
  <<39,18,36,63,46,8>>,<<3,22,58,46,40,24>>,<<31,45,44,31,49,18>>,<<17,0,57,26,28,21>>,<<7,43,11,5,26,56>>,
  <<13,52,51,30,2,57>>,<<40,51,13,0,33,17>>,<<29,17,34,48,12,1>>,<<24,7,36,11,12,33>>,<<38,52,28,39,17,2>>,
  <<34,32,1,52,17,35>>,<<62,23,17,25,34,11>>,<<36,43,61,45,58,61>>,<<12,3,55,34,54,29>>,<<24,60,19,36,20,58>>,
  <<28,15,8,58,51,3>>,<<20,3,63,52,56,14>>,<<4,7,36,58,39,53>>,<<31,58,55,17,29,38>>,<<52,37,15,4,59,15>>,
  <<19,58,48,13,42,0>>,<<50,54,10,26,55,5>>,<<39,20,31,10,35,53>>,<<18,28,26,48,59,14>>,<<56,42,47,20,48,6>>,
  <<53,59,25,24,36,6>>,<<60,55,37,28,11,0>>,<<60,17,5,3,15,30>>,<<50,16,52,46,27,43>>,<<26,47,28,61,28,56>>,
  <<41,57,4,25,48,53>>,<<11,52,57,50,52,42>>,<<52,59,18,52,60,23>>,<<29,9,47,26,57,56>>,<<35,50,57,63,25,11>>,
  <<12,33,31,15,47,19>>,<<15,42,20,50,62,49>>,<<53,11,26,35,49,26>>,<<31,43,11,52,35,41>>,<<53,32,34,25,17,62>>,
  <<54,63,41,2,1,13>>,<<10,9,59,4,45,31>>,<<50,28,9,62,21,62>>,<<1,36,50,18,39,51>>,<<7,10,57,25,21,26>>,
  <<38,8,43,15,4,18>>,<<22,59,50,26,38,22>>,<<51,60,1,51,6,42>>,<<24,46,39,23,45,5>>,<<20,40,37,0,8,29>>,
  <<16,22,29,31,57,12>>,<<42,36,43,63,58,30>>,<<3,10,4,22,5,45>>,<<37,40,6,55,20,53>>,<<56,20,40,57,50,43>>,
  <<15,42,50,60,32,8>>,<<29,35,49,34,15,17>>,<<28,36,12,5,24,20>>,<<37,5,47,18,59,34>>,<<22,45,45,26,13,47>>,
  <<21,57,34,18,46,32>>,<<34,50,16,38,20,51>>,<<37,15,34,10,51,59>>,<<36,55,9,59,8,26>>,<<11,14,6,41,43,10>>,
  <<33,11,56,28,47,5>>,<<42,19,39,56,31,47>>,<<11,49,44,18,22,8>>,<<26,63,4,1,45,42>>,<<26,10,31,22,5,25>>,
  <<30,14,19,50,41,22>>,<<42,40,57,28,32,26>>,<<50,28,59,36,57,35>>,<<44,61,35,55,16,42>>,<<15,36,13,34,14,43>>,
  <<48,51,57,31,42,13>>,<<43,48,37,61,62,54>>,<<13,54,52,44,27,26>>,<<33,53,28,37,48,27>>,<<5,16,22,47,61,14>>,
  <<18,33,11,0,6,13>>,<<38,63,36,56,17,3>>,<<30,12,15,37,9,51>>,<<26,43,1,51,15,51>>,<<36,6,50,45,6,4>>,
  <<22,7,53,57,19,43>>,<<2,9,3,36,48,42>>,<<6,29,35,46,32,45>>,<<26,36,33,30,27,49>>,<<36,14,23,42,61,49>>,
  <<58,17,7,44,5,61>>,<<34,30,38,11,41,46>>,<<5,1,37,58,19,46>>,<<12,49,42,52,17,0>>,<<21,17,33,13,36,21>>,
  <<5,18,2,53,32,16>>,<<9,34,55,3,62,17>>,<<40,37,0,42,16,4>>,<<24,4,44,51,35,30>>,<<23,59,34,35,5,52>>,
  <<26,14,6,39,28,7>>,<<39,0,10,56,45,16>>,<<63,1,9,12,21,57>>,<<36,35,61,42,63,43>>,<<62,17,41,63,8,44>>,
  <<8,16,59,12,58,22>>,<<29,5,1,32,31,53>>,<<33,29,12,38,34,57>>,<<8,28,6,46,19,34>>,<<23,0,19,7,27,33>>,
  <<32,49,43,49,42,60>>,<<4,14,56,13,41,62>>,<<11,16,12,14,53,15>>,<<28,7,38,1,27,8>>,<<20,3,56,10,54,57>>,
  <<21,47,44,27,47,5>>,<<36,40,60,19,38,4>>,<<54,17,14,61,57,60>>,<<2,38,59,48,28,20>>,<<8,29,31,50,23,29>>,
  <<29,3,32,52,17,12>>,<<11,15,57,12,22,9>>,<<11,7,35,21,48,6>>,<<34,58,60,17,37,38>>,<<32,30,40,52,31,13>>,
  <<44,53,15,24,20,9>>,<<40,55,35,56,20,35>>,<<55,20,1,56,22,53>>,<<48,47,21,19,49,17>>,<<41,5,19,62,39,51>>,
  <<2,48,2,5,22,60>>,<<35,29,57,36,8,62>>,<<29,56,30,18,43,16>>,<<55,23,5,22,9,33>>,<<35,15,37,31,30,43>>,
  <<61,42,32,39,41,58>>,<<42,60,43,18,26,53>>,<<29,30,9,26,8,58>>,<<25,53,37,48,40,55>>,<<52,10,47,37,7,9>>,
  <<28,41,23,52,8,22>>,<<43,40,42,17,52,8>>,<<54,32,10,12,57,53>>,<<54,34,34,53,26,40>>,<<29,39,26,11,16,33>>,
  <<24,24,5,54,43,6>>,<<63,11,37,40,4,1>>,<<45,16,20,62,51,52>>,<<13,2,37,7,49,1>>,<<34,32,15,18,5,46>>,
  <<49,43,35,34,41,36>>,<<6,2,56,53,23,14>>,<<38,62,34,20,45,9>>,<<41,17,6,24,4,29>>,<<52,43,27,48,50,42>>,
  <<21,4,10,26,5,9>>,<<11,5,17,47,51,8>>,<<8,11,33,29,15,26>>,<<31,59,54,59,17,14>>,<<4,29,43,26,60,0>>,
  <<50,45,27,35,36,56>>,<<54,39,28,7,17,29>>,<<40,25,26,2,51,20>>,<<40,4,23,35,3,21>>,<<45,27,7,7,62,21>>,
  <<39,48,46,38,28,24>>,<<38,0,25,8,49,18>>,<<37,60,28,58,21,27>>,<<10,35,40,9,36,8>>,<<63,23,24,2,33,42>>,
  <<14,35,44,18,5,33>>,<<17,30,8,25,58,8>>,<<39,47,22,14,13,46>>,<<57,48,47,52,2,18>>,<<5,62,40,55,47,24>>,
  <<31,26,16,52,11,33>>,<<3,12,37,6,42,6>>,<<43,55,58,60,52,16>>,<<26,14,63,60,25,50>>,<<40,45,30,60,4,29>>,
  <<39,24,10,11,13,39>>,<<14,49,40,16,50,17>>,<<32,54,44,50,58,54>>,<<60,52,43,49,16,12>>,<<38,1,45,53,4,42>>,
  <<1,53,0,13,58,26>>,<<17,48,52,41,42,30>>,<<51,3,29,53,33,56>>,<<26,31,48,19,40,35>>,<<20,25,12,24,50,14>>,
  <<45,33,6,1,55,54>>,<<41,59,33,30,25,60>>,<<19,39,25,57,52,50>>,<<1,26,63,31,6,11>>,<<60,0,60,41,26,59>>,
  <<22,49,63,39,5,46>>,<<60,50,44,59,32,12>>,<<25,52,59,19,1,32>>,<<30,14,48,21,46,12>>,<<12,3,46,37,33,23>>,
  <<4,50,13,48,2,40>>,<<58,25,43,1,31,10>>,<<36,45,32,54,8,57>>,<<5,11,38,16,63,17>>,<<45,56,19,48,43,14>>,
  <<3,48,2,63,58,21>>,<<52,10,20,31,3,37>>,<<0,44,41,35,63,21>>,<<30,21,2,17,6,52>>,<<5,9,34,3,31,46>>,
  <<32,1,18,34,40,61>>,<<51,30,46,19,27,4>>,<<3,9,10,13,47,9>>,<<46,52,18,58,18,54>>,<<21,19,47,13,60,48>>,
  <<6,50,43,41,23,1>>,<<19,22,17,7,30,48>>,<<53,43,17,60,54,60>>,<<38,37,25,51,38,36>>,<<5,28,53,49,47,25>>,
  <<20,29,27,33,12,27>>,<<27,47,22,57,51,13>>,<<30,61,34,12,39,38>>,<<16,25,49,51,8,37>>,<<16,55,59,21,31,4>>,
  <<3,10,20,12,34,25>>,<<7,51,1,36,34,35>>,<<52,50,8,55,37,38>>,<<16,42,24,28,54,14>>,<<46,8,23,52,36,62>>,
  <<52,38,12,27,29,6>>,<<29,31,32,11,58,3>>,<<47,17,52,32,4,56>>,<<23,38,51,37,46,51>>,<<45,47,38,12,43,50>>,
  <<2,22,39,14,37,33>>,<<45,7,51,32,61,1>>,<<37,22,53,54,22,36>>,<<19,20,53,50,0,43>>,<<62,43,38,53,5,17>>,
  <<8,19,29,58,37,9>>,<<48,2,30,44,3,21>>,<<45,39,36,49,6,63>>,<<45,22,12,14,42,0>>,<<18,32,62,6,35,43>>,
  <<3,43,30,33,47,17>>,<<11,55,49,20,11,14>>,<<37,18,50,51,6,1>>,<<21,45,55,24,55,61>>,<<50,24,28,52,7,60>>,
  <<24,30,47,44,5,56>>,<<37,3,6,22,13,4>>,<<38,63,43,44,2,57>>,<<18,40,1,14,60,47>>,<<47,32,19,17,22,43>>,
  <<18,5,42,41,34,29>>,<<17,59,47,13,3,22>>,<<15,45,57,35,8,23>>,<<59,54,29,5,11,25>>,<<25,26,56,36,13,39>>,
  <<37,20,1,27,60,60>>,<<27,15,5,11,54,8>>,<<33,48,52,33,0,53>>,<<49,15,54,5,60,11>>,<<6,45,52,27,63,62>>,
  <<31,4,57,44,31,58>>,<<45,45,6,13,18,26>>,<<39,63,46,37,46,20>>,<<3,57,22,52,32,47>>,<<19,52,10,17,17,51>>,
  <<59,49,36,31,9,53>>,<<0,46,24,45,0,10>>,<<19,54,49,63,3,17>>,<<53,22,12,10,53,11>>,<<20,15,59,26,47,15>>,
  <<54,4,30,27,0,46>>,<<20,14,35,2,32,37>>,<<23,41,38,43,61,2>>,<<12,53,59,26,44,30>>,<<2,23,12,25,51,5>>,
  <<6,45,4,13,5,59>>,<<11,46,5,29,63,2>>,<<23,52,15,6,39,28>>,<<6,16,43,54,47,56>>,<<2,55,56,18,12,31>>,
  <<11,53,57,13,53,19>>,<<33,23,32,38,36,55>>,<<35,29,5,48,41,23>>,<<38,33,35,34,21,59>>,<<8,43,29,13,5,32>>,
  <<14,54,39,62,47,26>>,<<30,59,9,60,39,19>>,<<52,20,46,40,32,59>>,<<38,26,8,37,17,29>>,<<49,3,40,37,27,62>>,
  <<9,17,40,44,59,42>>,<<6,37,22,14,34,22>>,<<34,20,21,19,61,31>>,<<57,29,25,12,2,21>>,<<21,53,11,61,10,15>>,
  <<21,26,10,16,23,63>>,<<15,35,43,37,12,26>>,<<26,48,19,22,49,42>>,<<23,30,28,7,43,16>>,<<25,10,34,42,44,18>>,
  <<53,29,41,31,34,11>>,<<2,55,62,21,49,19>>,<<3,8,45,34,6,44>>,<<4,62,20,43,55,16>>,<<22,43,22,39,14,46>>,
  <<43,9,21,14,36,41>>,<<14,43,39,8,62,47>>,<<50,58,6,61,50,52>>,<<47,29,58,47,4,16>>,<<55,57,52,58,59,45>>,
  <<41,13,40,19,7,6>>,<<17,46,35,52,57,33>>,<<25,3,52,60,27,54>>,<<23,14,49,4,20,28>>,<<49,55,10,0,42,5>>,
  <<13,5,20,39,27,46>>,<<6,28,61,6,35,9>>,<<37,59,56,37,42,40>>,<<60,47,52,40,15,58>>,<<21,42,21,53,57,43>>,
  <<61,50,9,25,10,28>>,<<13,38,39,62,20,29>>,<<40,7,55,61,28,22>>,<<21,29,55,18,1,26>>,<<4,63,26,63,46,13>>,
  <<29,9,50,40,5,12>>,<<27,0,24,6,31,43>>,<<38,41,50,47,56,40>>,<<63,28,41,57,13,17>>,<<20,34,32,18,47,24>>,
  <<25,7,47,41,52,51>>,<<59,36,5,22,51,2>>,<<41,44,61,32,5,6>>,<<34,19,24,6,9,10>>,<<48,2,41,11,48,29>>,
  <<30,0,41,7,26,36>>,<<20,11,30,61,15,25>>,<<26,43,38,54,57,47>>,<<59,5,45,9,46,0>>,<<26,42,4,48,9,62>>,
  <<18,16,34,14,52,18>>,<<2,13,24,58,29,12>>,<<21,14,7,10,12,10>>,<<10,16,46,24,51,48>>,<<28,42,58,48,27,57>>,
  <<6,40,54,35,36,39>>,<<44,46,53,16,51,28>>,<<30,51,40,47,3,41>>,<<12,18,50,20,6,23>>,<<7,55,27,12,41,56>>,
  <<49,23,57,17,44,0>>,<<32,60,22,46,43,24>>,<<49,5,58,16,47,44>>,<<57,42,54,7,29,6>>,<<36,5,34,58,51,16>>,
  <<26,34,37,54,55,4>>,<<50,57,24,53,15,10>>,<<34,45,12,53,2,8>>,<<26,49,52,53,3,60>>,<<30,1,42,4,33,61>>,
  <<62,34,14,31,18,5>>,<<23,0,22,21,39,52>>,<<21,49,51,54,27,60>>,<<37,38,41,5,8,48>>,<<17,60,14,26,3,54>>,
  <<21,31,52,53,30,40>>,<<49,5,49,14,3,54>>,<<29,30,31,24,33,11>>,<<52,27,34,30,45,60>>,<<26,54,2,36,59,63>>,
  <<49,28,37,10,6,27>>,<<21,14,63,51,20,36>>,<<45,12,58,41,9,33>>,<<31,57,32,52,7,30>>,<<29,51,0,2,51,33>>,
  <<43,24,40,61,2,36>>,<<42,8,43,60,46,40>>,<<25,56,34,46,6,47>>,<<38,31,12,42,63,9>>,<<40,62,36,37,55,14>>,
  <<18,34,11,32,29,38>>,<<56,42,29,31,29,42>>,<<34,61,43,54,38,3>>,<<46,62,35,6,27,6>>,<<11,41,43,50,43,54>>,
  <<45,40,6,2,37,17>>,<<7,37,16,10,57,43>>,<<2,39,19,24,49,15>>,<<19,40,27,44,30,61>>,<<4,54,9,19,62,22>>,
  <<30,59,21,7,9,45>>,<<7,16,33,7,11,59>>,<<56,53,12,61,43,56>>,<<16,44,59,41,27,58>>,<<3,30,20,37,38,47>>,
  <<19,8,48,30,58,52>>,<<53,22,1,58,13,20>>,<<43,44,16,5,28,55>>,<<37,56,53,56,3,62>>,<<37,44,62,51,43,1>>,
  <<23,39,62,26,4,53>>,<<27,9,56,1,15,46>>,<<22,48,57,34,19,2>>,<<37,43,38,27,28,23>>,<<38,5,28,43,24,15>>,
  <<52,7,39,43,30,27>>,<<48,21,1,22,8,29>>,<<28,54,15,5,45,60>>,<<36,19,59,27,37,55>>,<<60,57,46,20,56,8>>,
  <<39,7,55,13,38,29>>,<<63,33,41,19,0,43>>,<<50,43,63,29,12,4>>,<<49,15,60,18,15,33>>,<<42,57,21,63,20,45>>,
  <<20,61,30,5,51,22>>,<<5,47,11,46,12,24>>,<<21,57,9,51,24,47>>,<<16,1,21,61,53,42>>,<<19,21,36,53,29,55>>,
  <<41,55,10,14,13,27>>,<<57,30,44,23,15,60>>,<<3,25,19,41,45,37>>,<<45,49,31,14,59,14>>,<<23,43,4,34,50,10>>,
  <<60,19,40,26,34,42>>,<<5,27,53,47,34,34>>,<<39,44,10,41,40,45>>,<<21,4,42,11,22,18>>,<<35,11,7,37,15,53>>,
  <<29,0,12,57,53,37>>,<<48,21,18,51,2,42>>,<<31,18,55,12,36,45>>,<<38,3,46,18,35,28>>,<<50,54,7,47,12,5>>,
  <<12,46,63,29,45,8>>,<<8,30,15,38,0,43>>,<<59,50,14,11,54,29>>,<<31,18,31,5,39,11>>,<<57,23,53,39,18,41>>,
  <<6,33,20,1,53,36>>,<<5,6,12,48,25,38>>,<<50,2,15,37,42,61>>,<<49,17,8,59,61,26>>,<<54,51,18,52,16,10>>,
  <<11,26,24,13,59,28>>,<<4,58,8,48,41,23>>,<<29,43,39,16,29,13>>,<<5,32,63,50,30,19>>,<<8,46,11,6,18,44>>,
  <<41,1,40,22,49,51>>,<<45,57,31,22,13,17>>,<<36,27,6,62,12,18>>,<<41,4,10,63,5,54>>,<<15,7,30,48,1,42>>,
  <<34,3,49,56,27,9>>,<<34,61,50,42,23,57>>,<<22,7,26,7,44,8>>,<<23,4,49,41,34,26>>,<<54,44,46,52,32,53>>,
  <<38,11,26,62,51,15>>,<<14,59,26,48,17,27>>,<<59,19,26,12,56,38>>,<<30,35,40,46,36,53>>,<<14,46,55,54,40,37>>,
  <<17,5,16,36,51,1>>,<<4,22,31,54,37,15>>,<<8,31,37,43,61,35>>,<<53,46,24,45,12,44>>,<<50,35,21,15,60,34>>,
  <<5,46,11,34,17,0>>,<<46,28,49,49,38,8>>,<<4,44,39,61,23,59>>,<<24,43,10,31,60,24>>,<<29,2,0,26,39,61>>,
  <<52,56,19,6,46,1>>,<<48,19,37,6,2,8>>,<<50,20,61,13,4,53>>,<<35,26,6,56,44,32>>,<<40,59,61,47,32,9>>,
  <<44,7,8,3,43,9>>,<<39,49,3,20,1,2>>,<<38,30,17,58,11,6>>,<<62,19,20,50,42,14>>,<<11,2,45,7,41,22>>,
  <<30,41,60,48,19,54>>,<<15,2,54,39,58,18>>,<<4,41,12,4,29,62>>,<<41,49,13,49,20,12>>,<<37,18,29,63,44,34>>,
  <<45,17,57,28,30,26>>,<<43,19,57,15,16,40>>,<<37,21,48,34,48,57>>,<<15,22,48,51,43,19>>,<<39,51,38,23,56,12>>,
  <<57,48,30,48,59,54>>,<<5,55,45,48,19,52>>,<<6,59,46,21,31,15>>,<<2,39,24,57,15,20>>,<<23,53,17,62,39,23>>,
  <<48,25,3,55,17,16>>,<<27,29,19,33,23,40>>,<<9,55,15,4,23,35>>,<<43,20,48,30,54,57>>,<<48,42,57,36,16,37>>,
  <<23,48,39,29,55,30>>,<<15,22,10,19,18,23>>,<<31,46,48,57,9,16>>,<<59,19,60,6,45,0>>,<<44,58,19,49,30,55>>,
  <<38,47,24,5,5,40>>,<<57,8,10,59,36,45>>,<<27,19,14,37,7,34>>,<<47,52,38,36,21,32>>,<<62,28,40,39,16,40>>,
  <<24,55,60,17,59,33>>,<<59,28,4,54,8,49>>,<<17,34,17,56,34,18>>,<<18,47,25,32,21,13>>,<<58,3,25,37,63,8>>,
  <<40,45,60,31,26,37>>,<<49,45,21,4,37,12>>,<<7,26,57,2,45,16>>,<<9,33,20,47,35,49>>,<<36,47,51,33,45,57>>,
  <<23,13,38,45,8,61>>,<<40,40,18,63,41,44>>,<<7,20,25,63,10,23>>,<<61,44,39,17,27,2>>,<<34,2,37,43,45,56>>,
  <<30,41,55,30,58,2>>,<<6,59,50,5,50,18>>,<<23,28,29,37,23,18>>,<<3,37,21,18,9,27>>,<<1,11,25,30,37,52>>,
  <<16,27,4,31,45,37>>,<<29,2,46,26,38,0>>,<<34,25,40,44,1,9>>,<<31,54,24,58,30,48>>,<<40,21,45,12,1,20>>,
  <<26,21,4,36,61,1>>,<<21,13,25,17,46,48>>,<<49,41,49,55,43,16>>,<<6,15,21,10,38,49>>,<<39,3,20,55,15,19>>,
  <<5,36,42,56,31,53>>,<<60,10,45,39,51,20>>,<<28,24,53,0,22,50>>,<<7,28,15,25,60,17>>,<<36,13,50,2,17,32>>,
  <<28,19,50,44,51,6>>,<<5,62,49,23,38,49>>,<<62,5,22,38,2,29>>,<<44,31,8,27,33,16>>,<<47,27,16,22,39,49>>,
  <<50,21,15,45,28,11>>,<<10,33,21,21,61,27>>,<<50,36,16,19,12,40>>,<<43,25,9,44,26,6>>,<<57,11,25,56,3,34>>,
  <<59,61,33,0,58,23>>,<<61,56,44,52,38,9>>,<<10,12,58,46,16,58>>,<<9,47,10,47,2,30>>,<<36,7,24,2,20,27>>,
  <<15,32,48,34,57,22>>,<<37,13,59,62,33,48>>,<<24,35,23,19,23,49>>,<<57,60,54,8,43,44>>,<<5,57,38,45,12,32>>,
  <<29,1,26,50,41,25>>,<<53,9,8,32,22,47>>,<<10,4,37,35,31,8>>,<<49,11,38,46,55,16>>,<<16,47,12,9,18,49>>,
  <<38,19,26,16,52,50>>,<<55,31,6,40,26,22>>,<<19,45,30,20,29,42>>,<<45,0,4,37,2,55>>,<<19,41,56,47,58,12>>,
  <<4,37,29,39,60,10>>,<<59,10,52,33,63,48>>,<<58,46,53,45,50,49>>,<<60,37,26,61,60,5>>,<<10,13,36,16,15,2>>,
  <<27,47,58,36,5,59>>,<<55,30,57,41,32,4>>,<<16,48,14,50,13,27>>,<<45,44,6,26,10,52>>,<<26,39,59,19,26,32>>,
  <<53,26,15,43,15,17>>,<<37,48,56,8,44,47>>,<<13,39,1,8,1,27>>,<<40,10,41,48,42,6>>,<<33,40,16,47,8,58>>,
  <<1,50,1,41,25,37>>,<<28,42,44,48,50,16>>,<<34,37,59,45,0,27>>,<<22,47,39,33,5,14>>,<<59,46,38,34,6,32>>,
  <<1,6,55,29,26,2>>,<<40,63,25,53,39,48>>,<<19,33,52,1,4,40>>,<<23,25,49,24,16,41>>,<<26,43,55,44,39,46>>,
  <<37,7,47,28,24,54>>,<<42,38,4,61,9,37>>,<<54,55,50,41,42,52>>,<<23,35,32,37,12,47>>,<<60,53,40,38,61,36>>,
  <<24,32,21,18,37,23>>,<<35,23,14,47,9,47>>,<<17,48,30,29,56,48>>,<<39,47,50,40,62,37>>,<<8,21,34,22,28,16>>,
  <<0,35,56,55,36,57>>,<<50,13,17,7,34,11>>,<<45,26,51,1,35,1>>,<<53,49,27,51,38,8>>,<<21,62,6,29,9,24>>,
  <<16,14,45,53,60,57>>,<<26,33,17,39,46,15>>,<<10,13,62,52,12,54>>,<<7,16,30,33,55,42>>,<<49,47,30,55,58,36>>,
  <<37,0,53,45,20,33>>,<<16,53,63,6,47,9>>,<<39,42,20,14,24,22>>,<<11,16,40,45,61,55>>,<<56,49,36,30,42,27>>,
  <<37,37,42,62,52,26>>,<<13,9,52,43,58,41>>,<<36,51,16,19,41,49>>,<<55,51,10,44,26,63>>,<<9,34,56,28,2,22>>,
  <<12,62,39,58,48,44>>,<<0,36,11,62,26,48>>,<<15,55,9,34,38,56>>,<<45,55,17,52,63,23>>,<<62,53,26,1,43,61>>,
  <<63,0,21,46,28,13>>,<<34,15,55,27,56,34>>,<<48,26,58,25,20,35>>,<<53,28,39,30,31,36>>,<<50,24,19,26,20,8>>,
  <<10,62,31,53,6,4>>,<<16,24,47,55,28,46>>,<<53,4,62,43,31,15>>,<<39,43,48,22,58,3>>,<<46,33,57,53,44,9>>,
  <<8,7,40,53,47,49>>,<<24,49,8,6,52,26>>,<<40,31,25,41,59,40>>,<<5,37,24,20,31,33>>,<<20,9,32,22,54,60>>,
  <<59,22,56,34,4,8>>,<<53,44,11,55,51,3>>,<<13,7,3,20,62,52>>,<<8,59,5,57,13,21>>,<<34,30,28,15,47,10>>,
  <<21,56,50,36,8,56>>,<<49,39,44,18,51,29>>,<<34,11,5,54,34,12>>,<<22,46,56,55,27,51>>,<<39,41,22,26,6,32>>,
  <<39,7,38,19,13,35>>,<<22,33,56,31,5,56>>,<<60,4,22,58,25,19>>,<<51,49,37,60,2,46>>,<<41,39,4,35,60,36>>,
  <<22,32,33,51,42,30>>,<<5,39,33,61,6,25>>,<<58,36,24,57,42,26>>,<<2,57,11,18,13,33>>,<<61,43,14,38,10,57>>,
  <<53,51,43,16,63,53>>,<<13,1,54,5,0,42>>,<<33,3,29,5,23,51>>,<<56,52,35,47,26,4>>,<<48,56,36,35,13,43>>,
  <<48,42,16,30,35,24>>,<<25,54,30,9,31,14>>,<<2,7,9,60,46,34>>,<<4,10,52,21,34,30>>,<<56,21,56,50,8,4>>,
  <<55,12,42,11,58,53>>,<<58,55,30,58,19,60>>,<<20,52,40,2,40,22>>,<<61,27,46,61,8,29>>,<<10,6,33,46,36,7>>,
  <<18,4,37,51,6,21>>,<<42,8,35,14,48,5>>,<<7,57,35,49,20,34>>,<<33,25,59,0,52,15>>,<<23,29,6,52,20,59>>,
  <<29,53,2,36,57,22>>,<<47,22,13,27,56,55>>,<<4,28,14,34,58,6>>,<<8,56,14,18,49,19>>,<<47,42,27,3,43,7>>,
  <<41,38,25,31,55,44>>,<<11,1,40,2,8,61>>,<<42,19,15,45,55,17>>,<<7,1,12,50,41,2>>,<<11,35,10,48,36,31>>,
  <<21,15,24,37,40,18>>,<<11,2,6,30,60,27>>,<<41,23,22,38,53,30>>,<<5,22,36,42,28,31>>,<<54,19,33,11,0,16>>,
  <<51,25,54,16,12,5>>,<<13,59,28,54,14,38>>,<<63,45,21,43,18,2>>,<<49,4,13,34,16,6>>,<<30,15,46,10,44,55>>,
  <<32,12,42,27,44,14>>,<<8,53,0,11,53,16>>,<<27,63,59,52,58,17>>,<<6,15,18,41,41,17>>,<<12,45,12,39,18,61>>,
  <<42,39,2,15,38,61>>,<<10,1,22,9,34,38>>,<<21,7,20,55,49,45>>,<<50,53,1,8,37,59>>,<<16,43,57,50,6,52>>,
  <<32,42,39,16,27,36>>,<<11,17,16,11,47,31>>,<<34,14,29,63,27,24>>,<<39,19,24,16,58,12>>,<<54,20,3,23,7,50>>,
  <<25,38,46,57,5,23>>,<<19,1,55,8,59,35>>,<<46,34,21,13,20,8>>,<<22,47,52,44,55,57>>,<<51,30,4,4,27,57>>,
  <<51,46,24,43,41,28>>,<<50,47,61,59,18,39>>,<<29,26,26,52,37,26>>,<<41,45,8,3,43,58>>,<<8,4,17,59,12,9>>,
  <<63,7,16,34,8,37>>,<<46,18,15,4,57,47>>,<<45,26,1,57,9,62>>,<<42,15,23,14,43,39>>,<<0,29,53,48,58,39>>,
  <<47,4,18,20,60,7>>,<<37,56,43,1,33,10>>,<<31,21,46,47,21,51>>,<<13,29,33,35,55,18>>,<<2,55,20,6,49,8>>,
  <<9,48,14,19,9,60>>,<<53,50,43,19,9,47>>,<<19,36,56,2,24,38>>,<<2,15,35,50,44,57>>,<<29,15,51,54,60,18>>,
  <<57,18,14,61,38,6>>,<<50,11,45,58,23,2>>,<<37,0,0,38,52,27>>,<<38,59,3,54,57,30>>,<<49,24,29,44,26,24>>,
  <<27,42,58,55,34,20>>,<<8,44,40,57,24,53>>,<<8,2,20,34,29,27>>,<<56,54,17,33,3,41>>,<<23,12,36,54,51,54>>,
  <<57,34,16,32,29,60>>,<<15,15,52,30,37,0>>,<<53,45,4,55,54,40>>,<<46,34,17,44,6,22>>,<<23,3,45,36,18,19>>,
  <<24,49,62,53,29,53>>,<<17,24,26,7,22,10>>,<<4,53,52,58,33,35>>,<<58,21,1,61,26,47>>,<<36,53,7,22,3,30>>,
  <<3,40,51,1,9,46>>,<<13,38,10,38,42,60>>,<<63,14,21,58,38,35>>,<<58,24,12,10,39,32>>,<<51,22,17,61,12,2>>,
  <<11,42,25,0,18,6>>,<<59,13,43,63,25,6>>,<<37,55,20,31,52,17>>,<<42,9,12,29,45,46>>,<<43,19,31,44,62,40>>,
  <<21,11,39,63,35,14>>,<<6,28,10,63,36,40>>,<<32,32,28,37,2,43>>,<<4,44,7,28,56,55>>,<<56,15,19,54,0,9>>,
  <<26,59,47,14,13,16>>,<<18,13,59,25,9,2>>,<<46,60,8,36,53,54>>,<<61,28,62,29,43,3>>,<<11,5,47,14,30,21>>,
  <<23,27,52,43,34,31>>,<<48,39,6,32,45,10>>,<<56,51,25,19,9,7>>,<<7,28,22,63,19,43>>,<<1,23,16,31,18,53>>,
  <<7,28,33,25,41,3>>,<<37,8,8,19,3,21>>,<<16,44,63,31,49,34>>,<<14,27,10,47,52,27>>,<<41,39,27,38,61,56>>,
  <<22,58,18,6,63,44>>,<<27,39,46,18,62,19>>,<<13,16,42,33,41,15>>,<<61,26,8,47,62,42>>,<<8,55,53,48,14,43>>,
  <<25,14,21,17,63,47>>,<<5,18,10,42,14,13>>,<<4,37,61,0,6,23>>,<<21,23,12,10,18,62>>,<<40,1,52,45,48,24>>,
  <<47,5,62,33,0,51>>,<<55,41,19,59,13,55>>,<<45,21,43,13,14,6>>,<<63,20,30,49,5,29>>,<<63,58,33,44,20,57>>,
  <<39,26,59,6,23,35>>,<<25,47,41,25,4,32>>,<<50,14,4,34,10,30>>,<<8,19,42,6,4,42>>,<<57,50,33,28,1,31>>,
  <<21,27,0,13,40,38>>,<<36,33,7,27,9,42>>,<<37,46,10,44,11,1>>,<<54,14,19,5,1,15>>,<<24,53,4,17,40,12>>,
  <<35,0,26,47,27,14>>,<<7,19,2,25,51,34>>,<<48,29,12,8,33,61>>,<<15,35,50,46,5,6>>,<<12,43,26,6,3,10>>,
  <<13,50,31,9,1,17>>,<<59,26,48,2,61,38>>,<<2,15,38,15,62,29>>,<<45,8,13,48,44,36>>,<<10,23,14,7,7,25>>,
  <<52,37,39,52,28,41>>,<<25,41,22,8,33,32>>,<<52,25,48,47,4,45>>,<<2,9,6,12,28,36>>,<<54,31,12,55,29,22>>,
  <<35,52,13,39,36,34>>,<<41,4,37,26,18,16>>,<<35,57,7,57,26,23>>,<<41,29,26,36,46,22>>,<<8,39,48,29,22,4>>,
  <<54,17,5,36,50,61>>,<<27,61,10,5,55,31>>,<<14,25,47,21,17,56>>,<<39,30,47,14,4,60>>,<<49,29,11,27,40,54>>,
  <<42,27,21,37,62,59>>,<<15,52,17,6,19,58>>,<<52,55,0,26,23,49>>,<<26,17,24,12,39,53>>,<<21,31,53,0,10,16>>,
  <<28,58,6,33,41,13>>,<<59,17,59,13,28,21>>,<<58,3,27,13,26,48>>,<<16,58,59,49,58,20>>,<<0,3,7,45,30,33>>,
  <<26,27,8,5,24,12>>,<<19,5,39,8,14,60>>,<<18,44,49,9,36,12>>,<<15,17,7,20,56,33>>,<<49,18,53,53,34,11>>,
  <<14,11,32,44,46,57>>,<<52,30,12,1,7,44>>,<<37,4,56,54,39,41>>,<<10,57,48,62,17,28>>,<<35,51,17,11,60,13>>,
  <<63,43,28,42,46,26>>,<<24,51,52,12,3,17>>,<<52,34,51,17,30,26>>,<<26,23,61,43,16,3>>,<<61,12,5,27,43,38>>,
  <<59,10,26,18,10,51>>,<<54,26,59,19,13,49>>,<<23,55,45,44,36,3>>,<<37,4,9,20,34,54>>,<<25,40,45,33,28,58>>,
  <<29,22,11,29,50,49>>,<<13,29,62,46,52,11>>,<<37,28,42,48,42,37>>,<<61,28,22,3,51,7>>,<<61,6,20,63,37,16>>,
  <<11,18,34,23,23,41>>,<<35,41,56,55,1,41>>,<<56,41,39,37,16,33>>,<<60,15,47,41,0,22>>,<<45,15,34,62,39,15>>,
  <<52,30,35,38,61,29>>,<<40,32,52,11,44,42>>,<<14,59,30,63,26,53>>,<<61,22,58,47,35,17>>,<<52,18,25,49,24,35>>,
  <<34,28,36,14,28,53>>,<<41,7,24,47,38,48>>,<<7,51,39,60,37,40>>,<<9,33,25,37,10,44>>,<<24,11,36,12,22,59>>,
  <<44,48,20,23,42,60>>,<<10,10,6,45,21,57>>,<<47,22,21,55,50,2>>,<<19,37,13,14,7,50>>,<<6,10,47,51,39,34>>,
  <<9,16,8,49,7,51>>,<<11,49,22,32,3,1>>,<<12,24,8,29,26,33>>,<<60,54,17,49,15,18>>,<<31,42,55,8,40,59>>,
  <<39,50,31,0,49,54>>,<<38,41,17,25,34,40>>,<<6,14,53,58,21,56>>,<<24,44,5,2,3,53>>,<<36,54,49,36,17,25>>,
  <<63,32,33,26,50,36>>,<<24,22,43,54,56,27>>,<<54,49,42,7,37,3>>,<<6,16,35,24,34,27>>,<<41,21,28,13,57,39>>,
  <<13,20,3,1,29,38>>,<<23,60,62,45,63,10>>,<<40,22,4,34,0,37>>,<<49,5,5,35,46,13>>,<<5,63,51,36,47,34>>,
  <<27,9,44,51,46,13>>,<<26,57,3,59,16,50>>,<<5,40,46,16,9,33>>,<<20,60,19,18,53,62>>,<<19,13,4,8,1,54>>,
  <<29,51,14,24,16,53>>,<<21,2,38,54,31,55>>,<<29,56,4,63,10,23>>,<<42,27,63,19,53,29>>,<<37,10,39,29,37,48>>,
  <<2,50,27,38,50,9>>,<<11,3,18,5,10,19>>,<<11,50,62,56,29,56>>,<<58,33,54,42,53,62>>,<<62,23,12,19,15,34>>,
  <<18,50,58,15,8,23>>,<<43,10,14,55,11,6>>,<<18,33,25,42,63,33>>,<<55,31,44,54,47,58>>,<<10,48,32,23,9,40>>,
  <<32,3,17,36,30,7>>,<<21,39,40,57,62,42>>,<<58,45,57,53,23,36>>,<<26,26,51,14,49,54>>,<<2,25,62,40,42,21>>,
  <<22,56,53,60,42,42>>,<<34,37,22,34,0,39>>,<<17,51,24,54,46,12>>,<<45,55,61,59,11,16>>,<<4,38,31,62,51,28>>,
  <<1,54,39,59,55,42>>,<<39,28,4,29,14,14>>,<<7,19,54,4,16,29>>,<<2,52,33,16,19,63>>,<<12,25,40,36,20,35>>,
  <<25,11,44,53,37,44>>,<<36,62,8,28,8,46>>,<<13,42,62,41,44,25>>,<<17,55,33,1,59,20>>,<<23,12,41,24,62,47>>,
  <<50,18,12,51,8,57>>,<<58,55,53,57,41,20>>,<<58,37,54,56,44,0>>,<<4,27,6,26,39,47>>,<<35,31,6,15,32,51>>,
  <<18,56,44,38,7,15>>,<<14,58,45,22,59,42>>,<<20,39,1,2,17,21>>,<<37,6,25,15,5,6>>,<<32,45,21,25,25,54>>,
  <<63,55,29,10,55,17>>,<<47,40,28,49,8,15>>,<<3,54,29,6,56,6>>,<<29,51,14,44,44,54>>,<<3,6,15,12,52,47>>,
  <<19,27,54,43,41,32>>,<<3,38,10,11,30,52>>,<<57,48,5,4,57,29>>,<<36,2,47,10,25,44>>,<<23,27,10,38,16,53>>,
  <<49,27,5,45,28,5>>,<<61,12,57,6,8,33>>,<<45,62,25,52,9,16>>,<<45,28,47,48,53,7>>,<<53,23,62,28,54,20>>,
  <<42,11,39,26,30,25>>,<<24,20,26,31,18,1>>,<<6,37,55,55,45,58>>,<<43,43,62,5,38,44>>,<<50,62,18,34,17,26>>,
  <<53,60,41,4,13,55>>,<<48,26,46,16,11,51>>,<<53,36,49,12,60,54>>,<<46,13,42,30,6,34>>,<<28,42,38,52,60,53>>,
  <<9,55,31,6,58,25>>,<<46,2,43,20,9,8>>,<<20,57,18,27,2,24>>,<<25,47,63,24,9,38>>,<<17,36,12,25,11,42>>,
  <<7,18,31,54,63,37>>,<<37,34,4,50,19,31>>,<<59,9,12,41,7,5>>,<<45,50,14,39,12,6>>,<<9,11,55,58,6,1>>,
  <<5,2,56,52,8,50>>,<<8,61,1,55,37,44>>,<<29,17,4,36,23,24>>,<<24,9,37,23,18,48>>,<<27,34,21,46,62,62>>,
  <<31,5,30,43,44,43>>,<<51,40,6,62,36,54>>,<<3,49,44,25,15,27>>,<<36,31,1,21,54,59>>,<<40,25,32,3,5,55>>,
  <<43,50,11,3,1,34>>,<<23,62,23,63,42,18>>,<<39,6,3,50,5,27>>,<<15,9,18,59,3,46>>,<<40,2,32,6,15,25>>,
  <<15,36,5,15,27,35>>,<<0,11,29,57,12,26>>,<<18,35,37,4,21,63>>,<<56,6,43,23,44,56>>,<<46,52,21,60,29,22>>,
  <<62,21,63,58,0,28>>,<<12,35,26,34,62,14>>,<<5,49,6,45,63,17>>,<<50,44,0,15,18,42>>,<<9,26,44,46,8,54>>,
  <<8,55,62,32,54,9>>,<<18,37,31,40,43,11>>,<<6,11,20,9,16,28>>,<<28,30,58,39,4,52>>,<<61,43,34,24,0,51>>,
  <<43,49,32,4,19,26>>,<<21,24,33,17,22,14>>,<<62,9,2,61,49,11>>,<<31,62,59,18,43,9>>,<<37,1,38,30,15,58>>,
  <<18,15,16,60,13,59>>,<<7,43,17,26,8,28>>,<<16,29,27,16,25,20>>,<<36,34,21,51,51,52>>,<<16,34,16,11,31,37>>,
  <<28,46,21,3,4,13>>,<<4,42,28,63,10,0>>,<<12,11,46,58,37,24>>,<<25,11,36,27,3,11>>,<<8,43,9,62,53,15>>,
  <<6,35,23,37,36,21>>,<<40,51,10,24,58,46>>,<<37,50,29,19,52,56>>,<<30,23,3,49,40,4>>,<<32,24,47,20,44,0>>,
  <<18,49,57,29,27,19>>,<<63,45,60,18,44,42>>,<<20,14,24,58,19,60>>,<<52,4,30,62,22,26>>,<<8,36,51,28,57,5>>,
  <<26,46,0,22,9,11>>,<<57,10,7,28,47,41>>,<<41,19,48,33,53,12>>,<<49,39,4,9,24,28>>,<<20,22,49,58,46,33>>,
  <<52,44,45,38,43,32>>,<<60,43,24,9,46,3>>,<<39,57,53,10,18,56>>,<<56,10,28,52,46,16>>,<<14,7,54,15,35,33>>,
  <<33,4,53,12,14,58>>,<<54,57,52,33,37,20>>,<<45,52,29,0,41,37>>,<<32,35,60,11,34,54>>,<<23,2,7,14,50,41>>,
  <<7,39,26,54,53,19>>,<<3,17,60,33,10,34>>,<<13,53,22,1,59,12>>,<<49,51,36,1,45,24>>,<<61,14,36,48,39,23>>,
  <<48,13,58,4,2,6>>,<<61,8,25,53,59,61>>,<<42,38,42,42,21,32>>,<<29,15,11,40,10,33>>,<<52,39,1,2,46,7>>,
  <<8,60,55,51,7,33>>,<<31,53,30,3,18,60>>,<<16,10,1,27,39,38>>,<<59,53,50,44,2,2>>,<<61,39,30,22,11,50>>,
  <<59,20,63,55,20,11>>,<<4,63,41,52,19,10>>,<<21,46,26,0,7,2>>,<<15,18,43,62,23,63>>,<<51,10,62,47,12,61>>,
  <<45,1,9,41,60,50>>,<<57,9,10,50,28,38>>,<<4,20,27,20,2,13>>,<<26,50,47,36,16,34>>,<<43,50,12,48,33,39>>,
  <<6,33,30,31,41,61>>,<<3,17,14,63,21,1>>,<<44,23,45,50,48,26>>,<<49,42,60,8,57,33>>,<<31,14,40,56,52,34>>,
  <<34,4,48,18,36,2>>,<<28,41,9,36,51,62>>,<<34,59,47,62,22,40>>,<<56,26,4,32,55,5>>,<<51,13,8,32,41,46>>,
  <<49,36,18,33,36,1>>,<<4,59,45,52,57,45>>,<<27,40,39,45,12,20>>,<<22,52,5,44,63,46>>,<<19,43,31,14,1,60>>,
  <<9,57,54,44,11,51>>,<<24,17,37,52,44,40>>,<<50,37,59,16,19,18>>,<<39,44,58,59,18,4>>,<<44,28,23,39,61,20>>,
  <<59,7,39,54,11,16>>,<<62,17,38,24,14,62>>,<<18,36,50,28,46,55>>,<<25,8,11,0,53,20>>,<<20,40,34,30,36,31>>,
  <<57,62,23,51,17,56>>,<<8,59,38,50,10,63>>,<<23,53,39,54,2,27>>,<<42,58,60,42,19,54>>,<<61,18,63,44,27,0>>,
  <<53,27,55,51,61,25>>,<<9,38,62,24,27,45>>,<<39,1,43,57,58,22>>,<<11,17,46,59,54,38>>,<<37,60,46,37,63,45>>,
  <<18,28,59,37,13,61>>,<<10,26,63,55,48,36>>,<<48,51,22,42,0,41>>,<<52,32,3,26,21,3>>,<<50,49,19,56,7,25>>,
  <<8,16,35,49,37,10>>,<<13,0,47,63,21,14>>,<<10,42,47,22,15,45>>,<<11,36,62,47,23,0>>,<<57,38,43,16,16,50>>,
  <<34,42,21,43,9,11>>,<<19,2,17,41,7,1>>,<<12,30,22,16,35,58>>,<<17,38,56,32,6,21>>,<<9,43,12,22,24,2>>,
  <<21,30,34,7,6,24>>,<<7,52,46,53,39,51>>,<<13,27,34,29,27,36>>,<<41,63,36,23,0,22>>,<<50,32,28,45,25,4>>,
  <<49,35,30,62,20,37>>,<<21,45,0,22,17,27>>,<<38,5,17,2,3,61>>,<<13,1,62,41,21,3>>,<<36,22,19,7,25,56>>,
  <<40,17,21,40,12,54>>,<<18,25,11,2,39,2>>,<<30,10,48,22,1,51>>,<<25,28,36,42,53,63>>,<<24,18,57,19,39,35>>,
  <<17,36,46,36,29,62>>,<<6,33,29,57,55,17>>,<<48,29,16,25,2,1>>,<<13,55,48,28,37,7>>,<<13,44,42,35,14,40>>,
  <<46,28,39,57,28,55>>,<<51,29,16,2,26,29>>,<<46,59,40,42,25,40>>,<<10,31,29,58,15,55>>,<<14,31,44,29,6,40>>,
  <<61,34,60,37,49,5>>,<<47,22,53,43,7,42>>,<<42,26,48,5,45,56>>,<<14,2,23,55,3,41>>,<<61,11,62,0,37,9>>,
  <<31,47,55,52,35,4>>,<<54,10,54,28,12,26>>,<<55,4,44,2,35,58>>,<<11,46,48,45,1,44>>,<<28,23,49,4,13,46>>,
  <<28,29,14,9,40,37>>,<<4,42,1,5,13,38>>,<<13,43,36,40,10,29>>,<<59,33,40,29,7,45>>,<<41,4,39,44,61,35>>,
  <<29,4,8,33,13,28>>,<<1,19,31,46,56,50>>,<<38,16,36,16,58,40>>,<<54,41,49,20,18,55>>,<<43,38,56,48,41,44>>,
  <<8,57,53,32,17,47>>,<<61,20,36,14,63,17>>,<<10,32,10,57,31,35>>,<<42,27,35,2,11,41>>,<<0,54,42,33,40,19>>,
  <<40,50,0,52,18,58>>,<<58,48,47,27,60,53>>,<<41,58,26,16,25,41>>,<<24,41,58,41,33,5>>,<<14,38,27,26,45,39>>,
  <<12,14,41,54,14,25>>,<<7,33,38,34,24,21>>,<<28,6,10,53,18,54>>,<<47,55,38,53,27,50>>,<<27,32,12,8,27,37>>,
  <<16,41,0,59,41,15>>,<<55,27,38,31,21,54>>,<<58,31,23,7,37,8>>,<<40,4,11,35,1,40>>,<<3,17,48,54,11,20>>,
  <<5,34,58,47,62,58>>,<<42,36,8,46,30,1>>,<<49,35,7,56,20,10>>,<<49,18,35,19,5,19>>,<<4,27,26,48,42,48>>,
  <<57,21,43,24,62,28>>,<<47,5,14,9,29,37>>,<<59,44,53,55,30,53>>,<<4,12,46,23,8,36>>,<<14,45,14,7,39,42>>,
  <<44,59,37,12,17,41>>,<<61,5,16,47,0,11>>,<<37,40,1,4,55,47>>,<<6,26,50,36,13,30>>,<<45,17,57,39,61,6>>,
  <<29,26,4,35,33,19>>,<<17,47,57,19,27,24>>,<<49,58,46,26,12,39>>,<<10,16,44,31,5,61>>,<<15,3,20,19,37,14>>,
  <<18,11,20,63,55,60>>,<<61,31,1,36,10,55>>,<<17,8,59,35,1,8>>,<<34,38,19,12,24,1>>,<<57,58,15,37,23,59>>,
  <<57,12,50,7,39,9>>,<<2,45,45,55,41,2>>,<<51,37,29,22,10,0>>,<<22,55,38,3,43,59>>,<<10,14,40,23,60,9>>,
  <<54,58,44,36,27,5>>,<<9,55,33,39,42,62>>,<<45,4,32,48,17,26>>,<<48,11,2,1,48,41>>,<<33,16,37,57,44,16>>,
  <<57,34,45,48,54,60>>,<<51,52,21,9,19,55>>,<<53,8,39,36,22,60>>,<<37,59,7,35,42,51>>,<<58,5,18,1,52,34>>,
  <<26,8,11,31,19,42>>,<<30,25,24,11,23,6>>,<<58,20,18,5,29,15>>,<<62,29,2,11,33,35>>,<<33,43,37,19,31,1>>,
  <<24,25,14,26,12,23>>,<<11,41,13,47,61,16>>,<<21,47,4,57,37,41>>,<<60,50,26,8,43,48>>,<<37,62,60,15,40,53>>,
  <<56,42,35,41,54,15>>,<<8,16,7,41,61,1>>,<<30,26,38,4,11,58>>,<<4,25,36,2,42,12>>,<<28,10,26,9,24,42>>,
  <<32,51,47,25,27,18>>,<<14,11,25,42,41,62>>,<<19,63,59,23,43,52>>,<<44,39,54,22,10,5>>,<<26,59,48,0,10,29>>,
  <<47,56,40,2,37,35>>,<<26,31,22,20,41,2>>,<<20,53,43,0,2,32>>,<<34,47,11,6,3,58>>,<<1,40,51,44,58,40>>,
  <<27,57,6,23,35,55>>,<<58,32,44,9,18,40>>,<<6,42,58,16,44,45>>,<<26,52,36,23,28,59>>,<<61,41,10,17,25,53>>,
  <<18,38,0,42,56,17>>,<<7,46,28,4,56,17>>,<<60,63,5,54,21,46>>,<<11,29,3,24,35,56>>,<<6,6,44,39,26,42>>,
  <<37,50,50,56,13,29>>,<<39,16,42,25,10,1>>,<<29,62,28,25,10,53>>,<<45,0,21,29,13,54>>,<<34,22,24,45,3,7>>,
  <<21,9,19,52,21,30>>,<<20,33,53,7,5,53>>,<<39,9,54,60,48,49>>,<<30,43,25,37,41,48>>,<<17,28,36,54,5,3>>,
  <<44,58,63,8,33,12>>,<<40,1,60,54,63,45>>,<<55,2,50,23,34,43>>,<<49,60,38,15,30,9>>,<<22,57,44,12,2,8>>,
  <<1,60,3,21,15,29>>,<<35,1,26,51,5,6>>,<<54,17,17,24,61,37>>,<<35,12,31,5,63,4>>,<<1,48,18,24,51,5>>,
  <<13,22,39,5,22,15>>,<<59,7,16,31,51,17>>,<<25,0,51,52,21,3>>,<<51,4,31,58,25,9>>,<<25,3,23,58,42,23>>,
  <<59,14,46,37,44,18>>,<<28,45,36,11,36,8>>,<<39,51,40,60,24,4>>,<<29,5,63,50,55,11>>,<<40,19,36,53,39,34>>,
  <<31,37,11,62,14,32>>,<<54,12,50,37,62,6>>,<<14,24,42,52,2,61>>,<<38,1,0,22,42,16>>,<<60,25,23,4,41,38>>,
  <<47,4,22,46,36,14>>,<<13,47,27,60,48,54>>,<<49,6,60,36,44,14>>,<<17,11,28,49,62,51>>,<<4,24,1,52,18,17>>,
  <<13,38,57,60,51,19>>,<<51,22,55,17,42,34>>,<<43,26,60,53,47,12>>,<<45,12,56,16,62,56>>,<<40,34,48,19,55,57>>,
  <<28,61,28,35,27,9>>,<<41,27,13,4,15,48>>,<<7,3,10,29,56,8>>,<<11,50,9,31,62,49>>,<<21,34,27,3,7,25>>,
  <<23,35,14,22,36,26>>,<<61,60,41,56,6,34>>,<<37,13,49,20,54,18>>,<<44,46,4,51,44,35>>,<<15,62,9,19,45,59>>,
  <<8,61,5,26,16,31>>,<<22,46,57,34,46,61>>,<<8,48,27,54,36,20>>,<<44,59,29,13,58,34>>,<<21,48,56,40,39,4>>,
  <<44,6,14,23,61,1>>,<<8,34,48,26,9,33>>,<<35,3,36,39,24,37>>,<<63,32,52,8,49,39>>,<<24,22,3,60,39,2>>,
  <<23,41,45,16,51,21>>,<<45,53,23,40,58,54>>,<<51,35,13,26,0,19>>,<<47,44,21,43,54,61>>,<<60,14,38,35,57,44>>,
  <<2,36,61,43,2,4>>,<<59,47,56,30,7,18>>,<<58,10,44,61,16,30>>,<<18,38,27,21,54,49>>,<<61,1,27,53,32,19>>,
  <<8,28,62,43,2,44>>,<<33,14,29,29,8,42>>,<<18,32,1,26,16,29>>,<<43,38,7,39,58,29>>,<<20,33,12,52,42,0>>,
  <<15,9,41,49,28,49>>,<<28,35,8,39,30,9>>,<<4,0,22,13,55,33>>,<<6,40,4,17,39,49>>,<<9,35,47,28,45,4>>,
  <<46,3,37,22,58,63>>,<<51,22,6,54,49,36>>,<<16,56,6,31,27,53>>,<<51,59,39,42,16,15>>,<<30,53,12,56,44,36>>,
  <<33,38,59,9,15,40>>,<<21,33,4,44,52,53>>,<<25,41,22,22,4,43>>,<<27,25,42,22,43,40>>,<<45,61,30,17,13,34>>,
  <<39,34,11,19,41,28>>,<<51,28,11,7,44,59>>,<<21,33,24,18,36,37>>,<<27,43,56,38,39,8>>,<<8,53,50,49,34,36>>,
  <<61,10,23,16,25,62>>,<<28,15,62,17,32,15>>,<<36,52,19,1,23,12>>,<<55,22,53,35,44,16>>,<<28,3,21,53,41,62>>,
  <<41,25,29,11,26,36>>,<<1,2,22,61,1,42>>,<<22,49,38,14,61,15>>,<<10,0,13,20,56,55>>,<<5,21,3,56,35,47>>,
  <<19,63,6,59,7,16>>,<<26,0,35,5,16,47>>,<<15,37,49,41,22,36>>,<<7,42,30,18,26,4>>,<<30,48,35,4,29,49>>,
  <<48,26,59,1,40,38>>,<<55,33,58,14,25,1>>,<<9,53,6,53,24,0>>,<<16,55,37,15,58,41>>,<<31,49,59,27,40,37>>,
  <<51,10,29,26,39,8>>,<<28,52,29,37,19,44>>,<<31,50,37,2,62,29>>,<<14,3,5,40,16,34>>,<<44,29,5,20,31,18>>,
  <<3,30,51,9,3,45>>,<<41,12,53,39,16,62>>,<<6,1,47,36,59,38>>,<<45,4,10,11,49,17>>,<<6,44,25,1,52,57>>,
  <<59,48,36,16,25,4>>,<<54,59,17,3,11,2>>,<<47,15,22,59,54,24>>,<<58,6,11,45,31,29>>,<<50,13,28,5,15,25>>,
  <<4,42,54,39,61,29>>,<<23,47,41,43,7,0>>,<<25,50,36,54,0,56>>,<<23,8,20,32,37,30>>,<<13,43,23,2,23,4>>,
  <<17,3,52,37,20,21>>,<<32,7,58,42,51,39>>,<<30,4,56,58,14,11>>,<<19,40,10,62,21,59>>,<<17,54,6,18,39,25>>,
  <<62,37,38,28,20,12>>,<<44,57,0,41,31,28>>,<<12,55,56,15,29,10>>,<<49,3,63,23,14,29>>,<<0,39,22,58,24,44>>,
  <<19,13,7,33,49,12>>,<<30,46,29,28,20,37>>,<<50,59,22,32,35,39>>,<<25,44,44,54,59,49>>,<<1,27,23,40,51,52>>,
  <<1,29,16,32,21,48>>,<<38,20,26,56,48,8>>,<<11,44,23,52,39,15>>,<<22,8,46,26,47,62>>,<<52,22,31,58,40,16>>,
  <<43,56,45,26,43,47>>,<<60,0,33,29,34,55>>,<<3,54,5,35,18,26>>,<<42,3,36,50,5,26>>,<<5,50,53,33,13,48>>,
  <<1,14,51,27,9,32>>,<<33,48,59,20,20,59>>,<<9,32,28,41,61,62>>,<<29,44,43,16,37,41>>,<<36,18,52,41,33,11>>,
  <<61,59,50,41,37,39>>,<<50,7,40,59,31,59>>,<<43,42,0,10,8,45>>,<<12,27,19,25,24,29>>,<<27,49,26,50,6,53>>,
  <<39,35,12,10,50,39>>,<<54,35,17,31,19,8>>,<<40,61,7,29,19,20>>,<<23,38,22,56,10,34>>,<<24,62,13,3,35,27>>,
  <<20,23,42,59,39,41>>,<<23,37,0,61,59,9>>,<<16,26,62,49,17,60>>,<<62,46,30,18,20,9>>,<<48,14,59,22,27,3>>,
  <<26,18,7,33,23,31>>,<<60,24,13,31,26,20>>,<<54,33,37,50,35,56>>,<<54,36,18,53,13,19>>,<<35,41,42,58,38,12>>,
  <<16,53,21,39,12,62>>,<<22,14,20,0,45,3>>,<<1,46,37,40,56,51>>,<<11,32,12,55,27,11>>,<<47,60,29,42,10,49>>,
  <<28,27,47,48,54,27>>,<<19,21,47,35,30,22>>,<<27,19,8,49,54,3>>,<<55,33,42,28,44,39>>,<<10,19,38,19,12,11>>,
  <<28,22,29,38,8,22>>,<<58,39,17,56,63,2>>,<<55,30,44,6,54,32>>,<<60,20,22,5,54,44>>,<<59,25,33,58,1,21>>,
  <<20,37,61,11,27,63>>,<<5,52,25,63,52,51>>,<<1,45,42,22,15,18>>,<<51,38,13,29,45,8>>,<<15,58,48,9,51,38>>,
  <<16,35,18,60,63,11>>,<<8,46,48,5,32,50>>,<<5,63,16,32,10,27>>,<<38,32,42,26,11,36>>,<<56,4,29,2,27,44>>,
  <<54,45,56,8,43,0>>,<<21,19,37,8,15,38>>,<<18,25,19,11,59,46>>,<<14,23,3,31,2,13>>,<<52,11,23,39,21,61>>,
  <<22,63,39,11,24,62>>,<<1,13,60,10,16,60>>,<<48,22,34,45,19,60>>,<<53,17,12,1,47,49>>,<<40,3,24,15,18,29>>,
  <<59,58,39,3,10,17>>,<<61,6,46,1,61,43>>,<<37,3,14,2,8,26>>,<<14,25,29,8,6,36>>,<<44,13,26,57,5,56>>,
  <<54,18,28,12,49,32>>,<<23,32,54,45,62,37>>,<<56,63,4,49,28,54>>,<<20,25,57,27,51,34>>,<<27,58,29,23,36,0>>,
  <<45,61,53,56,32,20>>,<<9,6,43,51,12,53>>,<<19,0,20,34,43,48>>,<<22,50,1,25,43,43>>,<<42,43,24,19,47,30>>,
  <<37,56,24,24,18,43>>,<<25,47,59,16,62,42>>,<<35,10,44,11,53,59>>,<<31,10,32,49,51,45>>,<<23,50,7,32,35,26>>,
  <<47,53,11,45,31,55>>,<<22,27,41,35,61,60>>,<<42,16,58,27,42,10>>,<<24,36,49,11,58,16>>,<<21,22,3,3,41,14>>,
  <<32,60,18,36,13,11>>,<<60,52,27,48,45,38>>,<<8,62,2,43,57,30>>,<<36,2,60,12,24,49>>,<<21,17,37,45,25,47>>,
  <<42,31,30,50,49,50>>,<<61,19,18,1,58,24>>,<<26,45,4,14,12,61>>,<<19,9,36,20,14,58>>,<<31,54,17,44,34,48>>,
  <<5,49,47,8,4,26>>,<<12,21,11,48,40,41>>,<<50,56,3,27,47,9>>,<<29,19,35,12,19,27>>,<<56,59,46,38,36,12>>,
  <<54,42,40,29,4,41>>,<<7,5,39,44,25,30>>,<<49,1,51,4,45,48>>,<<19,11,24,44,61,37>>,<<10,53,52,45,46,33>>,
  <<33,19,1,29,19,58>>,<<0,20,59,30,58,41>>,<<39,49,5,29,57,46>>,<<12,36,5,50,24,22>>,<<50,33,6,40,26,3>>,
  <<57,21,32,2,35,5>>,<<63,25,5,18,23,59>>,<<0,33,15,44,5,38>>,<<5,44,49,47,31,25>>,<<56,1,14,9,44,10>>,
  <<1,8,39,19,36,35>>,<<59,19,37,58,61,28>>,<<29,10,60,15,5,59>>,<<59,1,33,44,62,5>>,<<13,3,25,14,34,1>>,
  <<26,18,50,10,13,58>>,<<18,10,53,15,37,15>>,<<58,7,8,57,49,44>>,<<7,7,9,35,18,47>>,<<19,18,19,33,21,50>>,
  <<35,22,30,6,15,19>>,<<21,56,3,52,61,4>>,<<32,45,56,3,2,57>>,<<49,27,33,40,43,2>>,<<55,57,28,18,9,63>>,
  <<48,34,12,49,44,4>>,<<11,7,49,43,33,54>>,<<61,17,16,20,30,37>>,<<63,44,18,28,57,8>>,<<5,62,31,50,24,55>>,
  <<39,12,17,48,55,14>>,<<13,39,44,1,55,0>>,<<16,40,40,16,37,18>>,<<44,54,41,60,31,62>>,<<46,5,59,2,8,26>>,
  <<3,51,53,56,28,14>>,<<56,28,47,41,8,13>>,<<62,34,61,58,1,18>>,<<19,26,39,61,18,12>>,<<8,21,25,52,38,1>>,
  <<56,34,16,50,18,9>>,<<4,39,8,53,61,36>>,<<62,29,40,5,41,11>>,<<43,15,58,14,48,19>>,<<37,2,36,9,51,32>>,
  <<44,29,9,6,20,45>>,<<15,55,26,17,62,16>>,<<2,17,60,0,45,22>>,<<42,62,17,25,28,49>>,<<52,63,42,8,30,58>>,
  <<44,22,15,33,62,56>>,<<19,14,38,31,34,62>>,<<54,63,53,37,2,23>>,<<1,27,48,33,50,58>>,<<16,9,43,27,1,47>>,
  <<18,22,63,3,35,44>>,<<35,58,1,45,1,56>>,<<34,45,46,47,16,21>>,<<25,39,45,49,44,14>>,<<33,13,62,21,46,63>>,
  <<51,60,49,31,36,3>>,<<49,4,14,48,19,40>>,<<20,40,37,35,2,35>>,<<46,3,29,0,18,31>>,<<29,54,60,29,35,28>>,
  <<40,15,16,18,45,48>>,<<14,3,9,23,6,54>>,<<62,23,17,36,21,20>>,<<45,33,23,36,13,28>>,<<0,58,29,22,40,41>>,
  <<8,52,23,46,55,62>>,<<13,13,37,18,4,22>>,<<55,29,58,54,2,36>>,<<14,20,0,10,45,13>>,<<57,19,10,50,27,0>>,
  <<29,14,2,4,8,27>>,<<29,48,27,47,56,6>>,<<45,17,23,6,16,59>>,<<11,46,45,8,46,44>>,<<4,11,36,0,34,51>>,
  <<1,2,53,32,55,9>>,<<37,63,33,16,28,21>>,<<9,29,13,52,3,7>>,<<35,15,37,53,43,9>>,<<41,61,47,52,62,53>>,
  <<59,12,60,27,12,4>>,<<25,14,62,0,42,39>>,<<35,6,45,11,50,22>>,<<35,60,25,59,28,38>>,<<24,16,55,13,44,26>>,
  <<22,55,23,39,18,36>>,<<59,17,38,51,58,16>>,<<24,61,9,45,4,31>>,<<10,17,35,43,0,36>>,<<19,24,25,37,56,10>>,
  <<9,59,8,48,63,17>>,<<30,30,51,25,29,8>>,<<58,35,48,55,9,54>>,<<37,8,21,37,61,13>>,<<57,38,23,2,1,51>>,
  <<55,58,49,6,34,25>>,<<34,18,60,11,30,3>>,<<34,60,58,51,5,29>>,<<25,24,41,26,20,35>>,<<36,59,14,7,27,24>>,
  <<63,10,26,46,53,25>>,<<58,43,10,22,0,16>>,<<4,39,27,9,29,1>>,<<38,21,6,46,60,59>>,<<46,35,56,57,19,48>>,
  <<11,32,50,57,57,42>>,<<20,35,46,1,19,54>>,<<56,6,23,27,38,40>>,<<61,13,23,37,25,17>>,<<27,43,2,60,40,58>>,
  <<4,35,17,14,49,44>>,<<24,57,27,62,48,37>>,<<38,51,52,25,47,42>>,<<16,36,11,0,61,49>>,<<8,26,46,0,37,62>>,
  <<46,38,55,11,48,13>>,<<61,16,56,14,9,54>>,<<27,55,5,57,49,3>>,<<40,30,33,37,60,36>>,<<51,28,7,9,20,56>>,
  <<12,9,11,19,63,16>>,<<14,32,25,29,27,60>>,<<59,15,21,21,42,51>>,<<11,57,9,54,52,19>>,<<24,37,27,63,11,54>>,
  <<26,7,36,6,35,56>>,<<42,37,38,5,1,24>>,<<22,2,50,54,44,4>>,<<53,1,2,8,16,27>>,<<42,40,33,43,53,45>>,
  <<40,58,57,53,8,34>>,<<6,23,14,32,61,49>>,<<61,15,35,5,50,19>>,<<7,8,42,23,55,36>>,<<43,25,60,5,0,33>>,
  <<21,18,5,22,44,31>>,<<28,49,55,3,62,22>>,<<10,62,6,4,11,5>>,<<37,48,46,63,34,46>>,<<53,21,33,9,18,60>>,
  <<39,48,9,63,7,54>>,<<50,13,35,58,63,31>>,<<50,22,42,61,38,63>>,<<31,31,34,41,20,18>>,<<52,39,56,19,60,28>>,
  <<27,55,22,5,20,45>>,<<14,61,1,20,13,5>>,<<24,43,2,3,37,47>>,<<1,17,40,62,44,29>>,<<15,54,50,32,38,10>>,
  <<55,21,47,53,46,32>>,<<61,10,39,59,52,8>>,<<20,48,57,36,62,15>>,<<63,6,31,41,26,54>>,<<30,18,48,45,54,16>>,
  <<38,9,38,39,19,58>>,<<12,17,29,25,43,50>>,<<29,0,2,36,43,49>>,<<12,58,10,24,29,39>>,<<1,17,42,48,53,37>>,
  <<37,15,32,41,42,15>>,<<50,26,18,21,62,25>>,<<42,47,53,31,5,55>>,<<58,18,55,7,10,47>>,<<51,2,42,28,52,48>>,
  <<3,9,27,48,15,29>>,<<45,50,35,6,1,16>>,<<39,20,48,60,8,26>>,<<54,14,61,6,11,31>>,<<61,28,35,28,33,49>>,
  <<59,52,37,34,37,7>>,<<50,15,20,56,33,5>>,<<38,20,12,59,31,26>>,<<40,0,37,24,28,59>>,<<60,21,40,33,35,24>>,
  <<46,53,23,32,37,49>>,<<14,43,7,36,2,7>>,<<42,29,25,17,56,23>>,<<17,48,13,42,49,49>>,<<55,54,31,12,36,21>>,
  <<4,7,29,49,22,2>>,<<2,22,56,7,58,31>>,<<24,45,56,9,30,28>>,<<35,1,29,6,7,20>>,<<56,5,47,25,49,39>>,
  <<55,25,26,43,3,20>>,<<11,50,19,37,4,1>>,<<28,1,41,30,7,13>>,<<45,14,41,40,24,56>>,<<20,37,15,44,62,24>>,
  <<51,15,62,19,16,25>>,<<28,59,55,17,7,8>>,<<46,40,29,37,19,17>>,<<2,56,63,52,21,3>>,<<43,58,49,25,11,42>>,
  <<53,49,16,34,59,20>>,<<13,30,4,6,19,8>>,<<63,3,29,5,12,33>>,<<5,58,45,15,22,4>>,<<15,19,56,17,61,40>>,
  <<51,51,56,53,40,3>>,<<24,46,18,45,41,0>>,<<41,62,28,24,18,12>>,<<47,60,23,20,14,35>>,<<17,21,27,0,60,58>>,
  <<7,26,25,28,30,21>>,<<62,48,52,12,10,5>>,<<54,51,45,35,33,30>>,<<39,20,5,55,42,52>>,<<41,40,28,21,19,46>>,
  <<55,51,35,8,25,34>>,<<8,39,8,28,57,50>>,<<55,33,15,19,2,48>>,<<11,9,36,23,48,45>>,<<5,11,20,0,14,42>>,
  <<35,15,19,40,32,53>>,<<28,59,18,28,59,62>>,<<36,52,0,49,10,36>>,<<60,30,42,14,11,32>>,<<23,10,10,41,15,40>>,
  <<43,39,37,1,38,41>>,<<1,56,53,2,39,24>>,<<51,53,40,23,7,30>>,<<37,63,9,7,27,38>>,<<31,21,60,17,33,9>>,
  <<42,12,32,53,20,18>>,<<51,18,21,50,5,32>>,<<56,12,28,19,60,18>>,<<54,34,3,34,18,35>>,<<41,19,19,10,31,25>>,
  <<21,22,58,2,46,52>>,<<28,34,61,15,54,11>>,<<39,0,14,26,20,7>>,<<41,58,16,49,37,43>>,<<53,39,50,17,53,9>>,
  <<57,27,28,8,8,45>>,<<8,57,46,55,34,7>>,<<9,50,51,32,61,27>>,<<53,30,19,57,55,43>>,<<16,54,11,27,57,3>>,
  <<11,32,52,59,2,62>>,<<7,62,35,62,6,36>>,<<4,22,7,10,33,24>>,<<14,22,35,49,5,60>>,<<5,23,41,35,41,21>>,
  <<18,38,9,20,5,4>>,<<14,40,34,11,54,1>>,<<34,28,36,45,63,27>>,<<61,50,28,27,13,25>>,<<43,53,3,62,55,6>>,
  <<24,44,60,35,17,21>>,<<22,50,34,59,37,0>>,<<50,4,45,35,39,35>>,<<22,6,20,15,25,43>>,<<34,42,16,29,8,35>>,
  <<1,14,59,49,35,39>>,<<49,24,12,18,17,57>>,<<23,24,50,35,51,18>>,<<55,49,11,38,43,32>>,<<60,21,5,51,45,36>>,
  <<17,63,23,49,13,10>>,<<34,49,32,11,17,62>>,<<25,22,30,21,44,42>>,<<28,45,4,38,1,2>>,<<49,33,46,9,56,36>>,
  <<23,59,61,42,39,51>>,<<45,56,49,54,20,16>>,<<43,41,61,34,54,59>>,<<16,11,33,41,61,17>>,<<30,40,27,38,59,1>>,
  <<57,48,50,33,55,34>>,<<27,28,18,3,57,12>>,<<46,14,60,26,47,12>>,<<29,13,28,9,51,29>>,<<23,46,19,38,50,63>>,
  <<39,41,10,7,1,54>>,<<17,49,14,4,38,61>>,<<5,52,1,4,33,61>>,<<8,15,20,60,61,38>>,<<31,41,29,40,18,28>>,
  <<25,34,50,54,30,26>>,<<61,23,11,61,24,36>>,<<45,7,48,2,55,38>>,<<20,47,1,31,29,52>>,<<43,12,25,23,5,29>>,
  <<26,14,12,36,53,20>>,<<41,2,54,4,2,16>>,<<49,44,34,36,28,7>>,<<24,42,6,15,9,58>>,<<17,17,13,29,34,31>>,
  <<35,54,59,37,49,44>>,<<12,41,57,0,13,56>>,<<50,47,56,45,27,45>>,<<30,8,56,20,52,15>>,<<3,28,33,58,14,7>>,
  <<58,19,30,17,34,31>>,<<56,43,48,62,61,16>>,<<51,42,42,28,42,21>>,<<57,11,48,49,13,19>>,<<23,16,44,26,25,28>>,
  <<38,43,19,48,5,6>>,<<21,1,41,1,42,28>>,<<25,42,23,25,59,56>>,<<41,47,3,5,20,57>>,<<42,1,13,46,22,46>>,
  <<57,28,60,30,17,46>>,<<38,4,53,25,53,1>>,<<54,28,46,58,39,25>>,<<40,37,53,28,36,40>>,<<6,60,21,44,12,32>>,
  <<62,27,50,17,8,36>>,<<15,56,60,23,17,36>>,<<39,1,23,4,61,19>>,<<43,0,3,53,14,2>>,<<46,20,63,21,29,2>>,
  <<18,47,7,37,59,32>>,<<5,47,28,30,51,6>>,<<3,27,45,61,36,27>>,<<34,38,28,17,58,60>>,<<58,34,44,55,46,41>>,
  <<45,37,11,18,62,47>>,<<48,7,59,26,49,40>>,<<9,17,21,11,48,18>>,<<20,60,22,35,60,45>>,<<40,5,56,42,10,62>>,
  <<21,28,62,24,61,46>>,<<45,24,18,57,50,63>>,<<29,17,10,57,60,57>>,<<48,28,33,58,41,57>>,<<52,58,22,16,58,32>>,
  <<57,18,41,4,19,52>>,<<29,8,28,62,15,3>>,<<12,62,50,37,31,20>>,<<49,7,38,45,46,34>>,<<12,34,3,45,29,30>>,
  <<35,30,13,37,13,14>>,<<45,37,25,23,3,32>>,<<6,31,23,35,47,50>>,<<39,3,57,48,12,27>>,<<30,11,59,2,17,29>>,
  <<28,34,7,28,53,17>>,<<40,4,11,60,48,46>>,<<28,27,6,18,52,56>>,<<5,35,19,33,14,62>>,<<57,24,37,63,9,42>>,
  <<58,52,38,60,11,12>>,<<60,39,20,15,16,38>>,<<56,35,44,57,53,17>>,<<19,32,24,54,35,31>>,<<13,38,22,60,38,23>>,
  <<27,46,14,1,19,40>>,<<21,16,26,11,38,33>>,<<57,48,57,18,56,22>>,<<27,31,56,39,53,33>>,<<19,61,23,37,60,38>>,
  <<45,8,21,63,58,51>>,<<42,32,42,54,15,62>>,<<28,37,54,23,23,14>>,<<25,60,59,42,30,54>>,<<9,18,30,50,20,1>>,
  <<41,46,25,59,43,51>>,<<41,9,0,39,50,15>>,<<38,51,57,24,0,10>>,<<44,35,41,37,26,6>>,<<2,22,37,37,41,31>>,
  <<52,6,42,63,62,8>>,<<53,56,50,18,39,21>>,<<45,62,45,62,12,10>>,<<46,34,34,17,34,52>>,<<31,54,23,33,37,6>>,
  <<11,39,53,62,50,7>>,<<57,32,10,59,30,17>>,<<32,44,13,44,23,61>>,<<9,40,21,19,15,11>>,<<49,6,59,34,9,22>>,
  <<58,39,29,19,14,55>>,<<50,7,18,59,47,44>>,<<38,26,18,51,31,10>>,<<25,37,23,59,49,63>>,<<6,31,29,11,24,17>>,
  <<60,50,45,37,13,37>>,<<24,38,47,50,15,2>>,<<2,48,13,20,33,48>>,<<62,27,30,9,55,50>>,<<0,52,57,47,23,18>>,
  <<25,6,42,30,32,38>>,<<42,21,7,51,49,8>>,<<36,19,2,36,2,32>>,<<23,26,59,48,6,28>>,<<57,55,54,42,29,8>>,
  <<1,27,14,11,2,38>>,<<43,32,31,14,19,54>>,<<12,20,10,34,5,2>>,<<43,4,47,36,5,63>>,<<33,11,41,55,16,23>>,
  <<32,17,41,60,12,33>>,<<62,24,20,54,61,5>>,<<63,56,38,10,21,53>>,<<35,0,20,7,18,38>>,<<6,44,23,38,17,20>>,
  <<59,24,13,46,61,41>>,<<2,56,55,35,34,29>>,<<39,41,13,28,26,45>>,<<4,1,38,44,56,45>>,<<16,42,61,21,7,51>>,
  <<31,12,62,11,55,40>>,<<5,34,39,3,45,41>>,<<24,37,9,23,29,63>>,<<19,2,19,2,45,8>>,<<12,15,6,9,0,43>>,
  <<47,47,9,50,13,46>>,<<18,7,8,43,6,3>>,<<61,7,49,12,5,9>>,<<6,1,55,44,36,10>>,<<37,11,16,10,2,4>>,
  <<31,2,15,22,27,2>>,<<36,50,6,8,10,55>>,<<62,51,3,17,5,35>>,<<39,41,61,51,27,52>>,<<59,50,43,21,33,1>>,
  <<39,4,46,9,24,28>>,<<42,3,11,0,11,54>>,<<52,57,37,12,45,5>>,<<1,36,62,44,39,61>>,<<18,2,5,22,61,57>>,
  <<20,49,2,42,26,48>>,<<58,53,33,4,32,0>>,<<22,29,22,29,54,32>>,<<40,15,48,14,25,59>>,<<43,40,52,6,30,9>>,
  <<15,13,28,30,2,37>>,<<59,31,10,12,33,41>>,<<17,5,23,2,15,3>>,<<55,6,52,46,18,6>>,<<25,60,15,20,38,32>>,
  <<9,54,34,63,34,8>>,<<15,22,38,53,56,60>>,<<1,60,15,28,26,3>>,<<9,4,36,7,19,53>>,<<25,54,8,16,60,35>>,
  <<24,58,37,61,36,33>>,<<42,43,44,20,53,3>>,<<46,53,1,37,7,60>>,<<12,11,11,8,21,26>>,<<59,55,59,38,33,19>>,
  <<52,22,24,43,1,8>>,<<32,11,9,61,36,40>>,<<34,6,22,29,23,61>>,<<61,47,23,16,44,14>>,<<3,29,45,24,2,11>>,
  <<61,29,46,30,37,6>>,<<28,4,52,34,13,39>>,<<3,38,5,50,57,52>>,<<17,53,47,10,27,4>>,<<59,51,37,51,9,9>>,
  <<14,46,8,21,51,52>>,<<9,31,45,21,29,23>>,<<8,9,41,59,22,41>>,<<10,58,40,53,37,16>>,<<41,3,62,33,15,4>>,
  <<57,22,53,31,43,49>>,<<56,61,34,17,25,13>>,<<30,48,33,52,40,61>>,<<13,27,48,5,33,29>>,<<55,56,23,11,37,4>>,
  <<12,14,27,63,11,42>>,<<18,47,15,45,6,58>>,<<47,28,57,11,26,13>>,<<8,7,44,27,61,56>>,<<28,42,2,47,52,6>>,
  <<29,6,42,42,26,7>>,<<58,39,41,15,8,10>>,<<17,8,11,46,30,3>>,<<6,11,31,30,55,40>>,<<39,2,17,27,30,58>>,
  <<48,29,2,23,42,19>>,<<9,0,49,2,5,59>>,<<52,57,4,61,20,36>>,<<46,20,12,37,44,16>>,<<18,34,46,59,26,55>>,
  <<23,37,42,47,60,29>>,<<35,18,0,21,28,40>>,<<32,4,29,43,55,46>>,<<21,27,17,32,34,14>>,<<38,49,14,58,34,33>>,
  <<49,34,44,47,44,19>>,<<58,45,62,46,43,33>>,<<4,49,11,63,30,2>>,<<40,10,60,14,33,40>>,<<18,15,46,55,24,60>>,
  <<27,37,40,47,58,51>>,<<61,43,2,20,45,24>>,<<7,11,24,27,46,55>>,<<49,56,32,4,46,28>>,<<17,38,9,52,0,61>>,
  <<11,17,52,8,56,55>>,<<49,57,47,22,38,20>>,<<62,55,36,3,10,12>>,<<52,31,11,48,5,23>>,<<22,31,16,26,25,18>>,
  <<17,6,19,49,0,24>>,<<26,50,6,48,26,0>>,<<54,30,48,13,37,18>>,<<4,41,38,58,22,52>>,<<17,8,46,57,11,24>>,
  <<54,1,22,62,45,23>>,<<57,29,39,57,50,26>>,<<46,11,46,37,61,36>>,<<21,18,45,17,8,36>>,<<0,50,45,43,30,24>>,
  <<44,37,59,25,34,7>>,<<61,21,11,12,53,5>>,<<53,52,29,40,15,25>>,<<53,39,6,19,59,46>>,<<54,62,58,8,35,45>>,
  <<43,25,23,19,13,62>>,<<24,17,22,13,30,9>>,<<45,59,12,13,57,20>>,<<20,32,37,8,36,33>>,<<15,40,39,26,3,7>>,
  <<12,40,16,18,56,29>>,<<2,5,22,24,12,23>>,<<5,0,20,25,54,24>>,<<16,18,14,21,53,35>>,<<55,12,27,19,24,10>>,
  <<45,47,9,50,42,0>>,<<36,8,60,36,26,2>>,<<39,63,20,6,10,41>>,<<24,35,43,22,39,38>>,<<10,8,28,17,34,9>>,
  <<29,32,16,63,36,41>>,<<10,10,30,51,40,62>>,<<18,28,60,48,53,37>>,<<53,17,16,43,49,34>>,<<34,55,49,30,58,51>>,
  <<45,11,45,54,43,60>>,<<58,34,17,46,49,1>>,<<52,63,34,58,42,7>>,<<27,5,12,14,8,1>>,<<18,59,17,36,25,22>>,
  <<33,28,13,55,29,16>>,<<53,62,35,3,49,54>>,<<1,57,28,43,59,34>>,<<21,62,58,32,52,62>>,<<38,44,8,63,25,36>>,
  <<39,37,14,5,36,56>>,<<26,16,47,12,54,12>>,<<18,59,62,19,47,35>>,<<58,40,54,34,40,28>>,<<41,60,53,54,48,35>>,
  <<8,2,27,10,20,13>>,<<43,28,21,17,11,13>>,<<35,43,9,34,36,22>>,<<41,62,46,48,42,8>>,<<55,54,36,3,27,18>>,
  <<38,55,41,4,61,35>>,<<13,24,31,55,42,2>>,<<1,6,62,53,36,5>>,<<21,53,48,27,12,45>>,<<49,42,48,52,33,34>>,
  <<23,50,11,47,41,53>>,<<52,25,24,4,11,33>>,<<15,38,63,8,50,32>>,<<46,21,22,18,62,41>>,<<53,10,33,42,46,44>>,
  <<23,18,60,7,61,46>>,<<14,29,5,31,51,33>>,<<15,21,44,39,2,39>>,<<12,4,25,16,9,18>>,<<17,0,0,5,53,30>>,
  <<26,37,43,24,13,5>>,<<41,59,11,42,4,0>>,<<37,55,44,8,61,5>>,<<52,13,40,29,57,29>>,<<30,32,20,39,29,16>>,
  <<10,34,16,24,60,55>>,<<21,34,61,32,46,34>>,<<23,58,38,22,61,59>>,<<41,32,2,5,41,3>>,<<61,32,25,56,4,26>>,
  <<63,29,11,43,21,47>>,<<24,38,53,39,43,11>>,<<56,28,18,43,4,2>>,<<52,54,38,30,36,50>>,<<33,8,25,3,51,45>>,
  <<35,43,45,0,29,56>>,<<45,59,59,30,9,6>>,<<14,59,32,17,38,43>>,<<2,51,13,4,46,10>>,<<41,8,34,21,11,8>>,
  <<62,24,25,41,53,42>>,<<20,46,6,30,63,8>>,<<27,57,11,56,33,30>>,<<61,18,42,5,20,3>>,<<11,0,6,13,26,63>>,
  <<19,36,35,11,36,58>>,<<18,51,42,49,17,6>>,<<23,9,0,3,13,11>>,<<5,10,5,29,58,15>>,<<8,12,52,40,6,18>>,
  <<22,48,15,48,27,53>>,<<48,37,1,39,2,39>>,<<19,8,36,35,52,49>>,<<45,5,13,37,24,31>>,<<7,12,26,62,34,17>>,
  <<27,50,63,29,62,36>>,<<38,29,10,27,24,9>>,<<52,53,3,33,52,31>>,<<3,24,59,55,25,49>>,<<55,37,10,62,9,51>>,
  <<42,54,27,23,13,63>>,<<32,24,2,1,61,42>>,<<18,53,14,38,30,0>>,<<20,59,0,15,50,13>>,<<7,53,35,30,58,46>>,
  <<37,39,30,36,49,33>>,<<25,54,35,33,47,37>>,<<9,29,33,61,47,20>>,<<14,55,52,24,21,59>>,<<20,59,9,2,30,10>>,
  <<28,14,9,16,56,49>>,<<23,47,18,63,16,28>>,<<46,35,30,51,59,41>>,<<14,44,53,11,25,26>>,<<26,35,35,13,36,35>>,
  <<48,28,59,34,15,42>>,<<26,8,1,48,58,44>>,<<37,2,3,37,35,38>>,<<6,16,53,3,0,45>>,<<52,51,25,59,31,60>>,
  <<61,52,46,35,11,59>>,<<56,6,22,10,24,62>>,<<0,22,63,41,44,52>>,<<26,40,2,62,15,48>>,<<58,47,6,62,50,17>>,
  <<26,40,25,32,7,27>>,<<17,45,5,45,31,49>>,<<60,46,37,9,40,7>>,<<59,27,36,58,18,38>>,<<44,9,19,26,46,58>>,
  <<48,18,27,1,15,23>>,<<27,56,1,41,27,19>>,<<59,33,12,44,56,25>>,<<45,17,62,55,1,21>>,<<48,13,5,32,6,23>>,
  <<17,16,31,52,6,41>>,<<37,48,3,41,12,8>>,<<16,35,50,21,2,46>>,<<3,31,11,25,14,24>>,<<9,30,7,42,24,5>>,
  <<40,54,39,12,8,59>>,<<17,52,49,60,18,12>>,<<61,42,17,29,14,17>>,<<1,32,9,29,6,46>>,<<61,5,18,8,30,60>>,
  <<42,25,7,38,31,7>>,<<18,42,38,10,56,14>>,<<10,41,21,57,19,32>>,<<7,13,62,40,37,16>>,<<17,38,32,11,61,8>>,
  <<40,30,27,45,37,4>>,<<45,33,35,60,25,10>>,<<14,36,45,30,40,43>>,<<2,3,8,27,13,34>>,<<44,14,62,52,5,20>>,
  <<53,47,25,35,0,35>>,<<7,19,44,19,7,47>>,<<3,61,33,37,11,45>>,<<27,9,46,53,63,59>>,<<20,55,3,30,52,40>>,
  <<45,7,40,31,55,18>>,<<9,46,15,5,46,54>>,<<18,18,0,41,18,25>>,<<31,52,1,43,9,46>>,<<35,22,3,26,50,48>>,
  <<62,0,58,29,35,24>>,<<35,55,11,40,51,1>>,<<25,4,45,45,58,24>>,<<27,42,45,5,5,41>>,<<22,28,52,2,49,28>>,
  <<17,63,27,41,42,3>>,<<58,45,1,3,46,44>>,<<2,33,17,54,50,26>>,<<36,0,38,59,49,41>>,<<48,29,56,36,22,58>>,
  <<1,51,21,62,11,37>>,<<34,52,44,20,55,4>>,<<51,54,58,11,33,0>>,<<17,61,26,32,45,41>>,<<14,45,20,22,51,55>>,
  <<42,63,44,5,13,29>>,<<19,12,38,25,7,7>>,<<19,23,2,10,13,53>>,<<55,49,21,61,46,12>>,<<23,49,9,28,1,45>>,
  <<31,1,39,37,20,25>>,<<42,46,35,13,44,17>>,<<52,34,29,2,29,57>>,<<45,10,45,36,32,18>>,<<51,9,28,23,8,7>>,
  <<1,59,16,53,63,45>>,<<47,44,14,38,24,33>>,<<61,8,7,19,14,25>>,<<17,59,53,39,61,20>>,<<59,60,62,21,37,14>>,
  <<2,13,54,47,49,46>>,<<27,20,56,59,37,22>>,<<47,3,44,53,58,17>>,<<56,18,24,14,59,35>>,<<42,38,18,43,40,55>>,
  <<23,2,27,6,32,51>>,<<26,47,31,38,46,40>>,<<48,56,20,37,20,9>>,<<19,39,62,43,0,14>>,<<15,36,56,33,45,27>>,
  <<45,62,8,10,28,29>>,<<49,30,57,17,45,63>>,<<6,18,10,39,49,6>>,<<43,41,59,54,61,10>>,<<41,34,57,32,26,47>>,
  <<25,11,1,27,57,18>>,<<20,19,10,18,4,29>>,<<8,1,42,1,10,33>>,<<53,27,43,23,62,30>>,<<60,58,41,16,49,47>>,
  <<51,38,62,50,23,12>>,<<17,41,59,47,33,54>>,<<24,54,51,0,25,60>>,<<16,14,44,11,41,25>>,<<40,25,51,57,29,33>>,
  <<40,4,46,57,2,20>>,<<7,28,27,20,63,26>>,<<55,59,46,55,24,33>>,<<8,23,37,60,49,8>>,<<32,4,5,10,5,55>>,
  <<53,52,25,18,55,7>>,<<59,55,34,21,30,20>>,<<19,56,25,7,19,63>>,<<37,47,58,61,22,61>>,<<52,18,1,8,62,47>>,
  <<58,2,11,56,41,43>>,<<15,6,40,45,10,1>>,<<52,51,34,8,5,63>>,<<50,38,2,36,7,57>>,<<2,47,12,48,26,59>>,
  <<8,59,22,1,29,15>>,<<51,47,49,42,51,10>>,<<34,55,15,36,32,37>>,<<50,22,24,18,1,29>>,<<19,1,49,23,60,1>>,
  <<6,46,34,10,17,50>>,<<10,15,9,34,35,8>>,<<20,35,59,17,32,2>>,<<51,54,57,41,22,37>>,<<23,56,34,31,24,50>>,
  <<26,33,61,8,60,40>>,<<20,15,29,10,49,37>>,<<56,55,43,11,32,33>>,<<10,37,28,57,1,3>>,<<49,43,41,62,40,28>>,
  <<38,17,51,14,56,25>>,<<63,44,7,41,3,52>>,<<23,42,38,57,55,21>>,<<15,54,40,58,36,1>>,<<51,26,21,1,1,62>>,
  <<34,51,48,53,16,21>>,<<39,24,9,35,47,58>>,<<38,13,53,37,28,56>>,<<42,16,59,3,12,44>>,<<6,39,11,32,11,24>>,
  <<0,62,10,19,28,57>>,<<43,25,17,35,12,21>>,<<56,39,34,27,15,50>>,<<51,53,17,14,12,44>>,<<51,17,15,33,22,49>>,
  <<10,31,7,10,1,2>>,<<15,48,61,48,24,54>>,<<2,35,7,2,19,41>>,<<31,10,41,9,59,32>>,<<32,52,8,59,51,17>>,
  <<36,1,21,31,50,62>>,<<9,56,8,50,16,30>>,<<35,18,63,52,58,19>>,<<9,29,49,23,33,55>>,<<44,10,46,41,43,48>>,
  <<57,62,44,40,18,57>>,<<28,16,57,37,23,49>>,<<56,4,19,22,3,14>>,<<10,4,27,9,32,30>>,<<61,32,26,5,45,36>>,
  <<35,10,47,18,8,12>>,<<11,14,42,56,15,27>>,<<52,35,58,28,41,25>>,<<59,1,19,55,37,9>>,<<57,61,4,10,4,34>>,
  <<52,58,18,1,4,60>>,<<30,43,42,34,11,37>>,<<24,10,42,13,61,2>>,<<19,38,16,55,34,56>>,<<50,35,23,32,10,12>>,
  <<45,46,51,2,52,59>>,<<30,7,18,37,61,23>>,<<22,49,11,15,50,56>>,<<52,12,4,54,27,11>>,<<56,37,50,28,63,57>>,
  <<30,54,16,3,20,50>>,<<13,44,29,56,23,0>>,<<13,38,40,60,48,44>>,<<19,48,20,3,39,14>>,<<7,11,12,31,7,26>>,
  <<17,2,38,48,41,44>>,<<32,46,54,6,45,33>>,<<10,0,13,36,7,13>>,<<58,48,17,15,42,51>>,<<55,25,21,21,9,24>>,
  <<3,53,12,56,58,17>>,<<24,7,21,36,60,26>>,<<63,26,9,35,16,51>>,<<16,62,7,62,28,11>>,<<58,49,43,34,19,23>>,
  <<24,14,4,37,19,45>>,<<2,11,44,13,42,22>>,<<2,24,41,6,28,27>>,<<30,18,40,34,55,15>>,<<5,29,61,22,39,38>>,
  <<31,26,39,43,12,51>>,<<43,28,61,34,59,30>>,<<8,45,53,35,60,13>>,<<14,20,63,1,51,24>>,<<18,38,4,56,22,40>>,
  <<34,12,47,57,33,17>>,<<22,44,48,38,28,1>>,<<14,43,49,21,37,4>>,<<47,28,58,7,39,53>>,<<31,31,13,2,26,7>>,
  <<16,9,59,40,53,61>>,<<5,40,29,13,62,48>>,<<53,51,52,47,30,39>>,<<1,58,19,34,40,21>>,<<15,42,53,23,52,39>>,
  <<31,57,54,60,40,52>>,<<25,10,44,52,30,14>>,<<63,34,50,22,44,31>>,<<61,54,49,37,38,28>>,<<8,24,38,31,42,24>>,
  <<32,24,12,23,6,9>>,<<57,24,42,32,11,21>>,<<25,45,36,37,47,5>>,<<42,21,22,63,10,6>>,<<1,16,34,22,36,62>>,
  <<62,40,52,57,35,53>>,<<36,5,57,34,28,33>>,<<59,47,37,22,28,0>>,<<44,0,45,1,52,30>>,<<26,59,5,34,38,6>>,
  <<9,2,33,61,32,58>>,<<25,56,36,27,53,12>>,<<55,8,28,52,20,37>>,<<2,56,14,37,56,28>>,<<49,26,32,52,20,22>>,
  <<18,25,48,55,52,40>>,<<28,46,31,31,34,25>>,<<47,13,19,35,10,56>>,<<62,60,11,44,54,61>>,<<44,49,56,50,11,61>>,
  <<42,44,35,59,15,39>>,<<14,30,55,43,39,28>>,<<25,48,10,32,47,10>>,<<54,1,19,13,25,42>>,<<31,4,58,44,1,47>>,
  <<43,10,34,62,21,1>>,<<30,18,56,26,60,22>>,<<38,32,51,22,59,41>>,<<49,23,6,19,6,5>>,<<62,23,36,31,57,45>>,
  <<28,16,54,41,42,1>>,<<33,58,43,0,36,53>>,<<58,49,45,16,16,26>>,<<15,44,4,42,39,48>>,<<62,48,11,16,62,48>>,
  <<8,2,41,34,24,20>>,<<31,58,33,8,10,39>>,<<5,61,12,44,46,11>>,<<9,49,38,12,7,14>>,<<47,5,49,11,25,48>>,
  <<55,15,62,43,52,22>>,<<11,10,48,45,34,7>>,<<55,17,63,22,49,60>>,<<8,16,8,42,31,7>>,<<31,42,39,55,46,32>>,
  <<2,44,4,59,26,7>>,<<59,19,28,21,11,36>>,<<6,17,31,41,31,7>>,<<62,18,52,33,29,13>>,<<2,27,47,5,45,39>>,
  <<1,30,24,42,37,47>>,<<48,10,56,51,23,1>>,<<52,1,22,19,44,24>>,<<19,5,15,9,37,3>>,<<50,12,2,4,45,22>>,
  <<57,4,20,21,14,23>>,<<36,11,8,18,27,2>>,<<43,4,5,21,56,11>>,<<31,14,47,29,35,16>>,<<6,52,60,45,21,47>>,
  <<34,62,56,18,51,23>>,<<58,25,8,54,13,50>>,<<43,55,17,62,47,9>>,<<52,51,5,48,15,9>>,<<8,52,40,36,30,24>>,
  <<0,18,34,52,30,57>>,<<54,8,10,51,45,31>>,<<26,49,5,39,49,47>>,<<0,24,54,27,7,54>>,<<46,1,42,48,12,6>>,
  <<45,60,32,38,15,38>>,<<25,13,26,27,36,3>>,<<61,9,33,50,16,60>>,<<8,27,13,22,42,19>>,<<44,62,4,22,29,49>>,
  <<49,29,51,34,22,16>>,<<43,14,44,16,55,61>>,<<54,42,1,56,25,15>>,<<53,25,3,24,9,29>>,<<39,56,0,14,61,36>>,
  <<25,62,61,62,53,36>>,<<4,21,15,1,48,34>>,<<11,51,54,12,33,60>>,<<23,11,10,56,27,21>>,<<18,32,50,9,26,12>>,
  <<4,4,50,27,53,36>>,<<25,1,17,52,12,25>>,<<59,45,58,27,48,44>>,<<11,59,60,18,11,49>>,<<12,21,39,59,4,41>>,
  <<10,53,21,46,5,39>>,<<20,44,44,32,62,43>>,<<10,28,44,0,40,52>>,<<8,40,60,25,48,38>>,<<31,43,62,12,13,40>>,
  <<40,19,55,52,2,62>>,<<1,19,13,2,54,37>>,<<34,9,55,39,4,15>>,<<50,18,11,46,56,7>>,<<39,58,49,5,9,53>>,
  <<53,31,30,56,43,38>>,<<12,19,41,49,39,4>>,<<0,6,55,11,16,43>>,<<8,51,18,51,13,18>>,<<10,15,41,55,1,30>>,
  <<46,31,24,12,25,9>>,<<31,5,53,56,2,55>>,<<24,48,29,13,53,37>>,<<5,30,48,23,27,15>>,<<29,6,54,14,55,50>>,
  <<15,56,10,3,44,29>>,<<45,9,5,60,21,6>>,<<40,44,19,34,48,18>>,<<39,56,17,5,34,50>>,<<58,26,18,5,32,3>>,
  <<22,2,1,52,4,33>>,<<22,55,62,52,46,37>>,<<45,62,7,52,33,63>>,<<44,3,17,52,37,24>>,<<3,49,61,1,46,53>>,
  <<63,46,49,20,13,40>>,<<19,63,41,56,22,59>>,<<41,31,63,23,42,38>>,<<35,44,48,12,63,10>>,<<8,45,31,1,41,42>>,
  <<8,54,61,48,53,21>>,<<62,40,14,42,18,48>>,<<39,58,39,51,32,41>>,<<62,26,20,15,46,13>>,<<16,62,44,6,10,33>>,
  <<47,23,31,5,19,38>>,<<30,18,1,23,60,8>>,<<42,52,57,39,1,58>>,<<5,62,55,30,50,0>>,<<60,39,12,30,8,24>>,
  <<31,9,52,6,62,46>>,<<26,52,23,45,47,23>>,<<35,26,32,7,40,43>>,<<32,27,1,13,40,49>>,<<59,1,34,34,19,40>>,
  <<29,1,8,42,49,20>>,<<43,28,13,31,32,12>>,<<43,46,20,43,63,7>>,<<1,49,8,52,5,40>>,<<9,2,6,63,15,49>>,
  <<60,2,26,47,46,61>>,<<59,41,48,26,28,62>>,<<63,24,48,49,42,29>>,<<49,22,26,44,23,47>>,<<63,40,6,12,46,61>>,
  <<37,16,61,8,63,36>>,<<34,16,14,13,24,50>>,<<10,13,4,34,48,28>>,<<32,63,52,35,33,45>>,<<16,59,49,62,47,30>>,
  <<13,36,54,10,30,35>>,<<57,19,10,47,59,57>>,<<21,51,18,11,41,3>>,<<29,15,47,10,23,45>>,<<24,13,16,61,50,40>>,
  <<41,41,44,2,61,37>>,<<22,37,33,10,32,19>>,<<20,32,56,40,9,18>>,<<63,6,36,55,44,5>>,<<27,13,59,18,4,62>>,
  <<7,10,30,45,60,44>>,<<21,23,35,50,24,30>>,<<18,37,38,35,23,43>>,<<53,51,44,14,14,29>>,<<23,14,9,20,2,11>>,
  <<11,56,54,14,45,39>>,<<18,14,21,63,2,14>>,<<12,15,53,5,43,17>>,<<3,20,57,41,49,15>>,<<60,20,62,6,17,53>>,
  <<11,0,23,43,0,11>>,<<6,44,26,15,8,3>>,<<28,52,21,48,20,33>>,<<23,15,59,50,39,40>>,<<16,32,49,35,23,60>>,
  <<50,19,16,37,38,42>>,<<22,13,60,60,25,24>>,<<60,57,51,7,35,10>>,<<29,24,14,0,57,59>>,<<41,6,53,33,62,55>>,
  <<51,57,24,13,17,25>>,<<47,30,50,20,2,50>>,<<58,43,31,20,1,47>>,<<38,55,17,1,54,33>>,<<0,45,30,10,39,1>>,
  <<3,30,42,29,24,29>>,<<52,17,21,27,7,35>>,<<32,52,61,52,27,14>>,<<59,8,34,12,60,46>>,<<8,62,17,58,10,62>>,
  <<22,15,10,47,59,56>>,<<54,16,46,15,10,40>>,<<7,34,8,15,25,62>>,<<1,30,1,30,40,55>>,<<2,51,42,9,61,48>>,
  <<48,58,8,29,33,51>>,<<43,26,27,18,28,2>>,<<49,35,0,42,62,57>>,<<25,62,44,24,13,13>>,<<40,54,0,51,13,60>>,
  <<7,52,33,41,28,18>>,<<13,32,8,12,57,6>>,<<21,48,56,21,10,55>>,<<14,7,42,41,39,54>>,<<2,42,20,10,3,39>>,
  <<30,8,7,29,8,60>>,<<45,3,6,48,29,41>>,<<37,38,19,34,58,8>>,<<2,60,22,48,54,27>>,<<28,19,25,55,46,16>>,
  <<50,16,49,19,39,22>>,<<29,19,11,39,1,56>>,<<62,12,53,22,44,48>>,<<36,28,20,34,12,59>>,<<17,60,57,63,28,41>>,
  <<43,18,6,22,10,1>>,<<9,47,22,46,54,47>>,<<25,54,30,15,59,53>>,<<47,53,55,13,41,30>>,<<50,59,28,62,39,34>>,
  <<45,42,30,2,15,43>>,<<5,6,51,61,5,30>>,<<11,5,52,18,16,34>>,<<57,13,39,62,21,47>>,<<32,49,43,54,61,16>>,
  <<59,35,13,16,63,5>>,<<1,4,3,36,54,51>>,<<24,62,52,16,15,19>>,<<55,59,51,37,23,42>>,<<1,24,44,18,60,44>>,
  <<27,40,24,43,10,48>>,<<13,25,59,2,21,8>>,<<5,43,37,11,23,59>>,<<37,32,47,51,49,4>>,<<4,51,14,39,37,33>>,
  <<50,1,15,42,48,60>>,<<26,63,16,50,23,17>>,<<38,25,20,61,29,50>>,<<47,1,51,16,7,26>>,<<61,20,27,8,32,24>>,
  <<10,10,42,31,29,62>>,<<16,51,27,57,4,33>>,<<28,7,26,40,49,62>>,<<18,35,61,19,57,4>>,<<30,16,57,19,52,61>>,
  <<59,43,37,57,7,48>>,<<22,31,33,39,10,33>>,<<54,5,49,15,13,39>>,<<48,44,9,58,50,12>>,<<45,60,0,5,57,46>>,
  <<52,12,14,58,1,37>>,<<36,56,54,39,3,37>>,<<57,28,5,39,56,2>>,<<35,56,53,37,55,1>>,<<11,27,39,31,49,16>>,
  <<17,0,5,11,63,20>>,<<55,31,49,24,2,30>>,<<53,63,27,37,45,62>>,<<38,55,40,55,19,1>>,<<45,31,15,47,22,33>>,
  <<27,0,34,28,55,29>>,<<52,46,16,23,49,6>>,<<34,39,31,23,45,16>>,<<35,41,46,22,28,54>>,<<10,13,5,32,9,45>>,
  <<3,61,8,13,28,34>>,<<27,54,0,12,23,15>>,<<33,23,13,16,20,18>>,<<20,4,20,26,36,51>>,<<23,47,25,48,38,39>>,
  <<40,44,20,10,33,62>>,<<13,36,39,27,43,56>>,<<28,13,20,36,8,57>>,<<10,36,48,46,6,28>>,<<28,26,1,29,47,48>>,
  <<13,25,26,26,22,39>>,<<11,61,26,35,17,16>>,<<4,20,13,6,49,22>>,<<63,37,53,30,53,15>>,<<33,55,7,57,22,36>>,
  <<62,19,12,34,59,56>>,<<51,29,61,19,47,10>>,<<31,35,12,25,6,29>>,<<23,28,20,6,38,53>>,<<1,61,58,2,10,36>>,
  <<58,31,36,61,49,51>>,<<24,11,31,4,34,58>>,<<10,8,50,7,26,29>>,<<13,16,60,24,11,39>>,<<17,41,5,32,18,32>>,
  <<16,26,3,20,29,53>>,<<38,0,4,47,50,20>>,<<31,22,13,42,33,0>>,<<19,55,57,2,21,20>>,<<58,6,36,59,34,2>>,
  <<17,57,45,62,6,33>>,<<14,24,58,18,40,49>>,<<23,63,46,61,40,14>>,<<2,26,59,5,62,0>>,<<25,33,27,31,18,14>>,
  <<0,18,49,2,59,33>>,<<34,16,46,13,37,20>>,<<44,31,17,59,6,37>>,<<5,11,6,19,33,40>>,<<20,39,34,8,52,16>>,
  <<16,59,40,33,13,31>>,<<50,42,34,46,25,60>>,<<12,7,4,7,12,62>>,<<59,39,22,31,12,3>>,<<33,57,17,36,3,15>>,
  <<54,21,7,48,15,6>>,<<8,38,42,27,4,2>>,<<8,55,45,26,56,39>>,<<62,5,40,58,44,50>>,<<11,31,4,40,53,37>>,
  <<44,53,41,2,0,51>>,<<61,51,21,2,27,13>>,<<25,47,50,10,3,4>>,<<16,29,17,12,57,32>>,<<56,18,59,46,33,61>>,
  <<38,10,51,55,45,47>>,<<38,55,19,9,27,23>>,<<26,60,57,49,17,43>>,<<40,44,37,14,20,2>>,<<39,44,57,19,23,33>>,
  <<2,29,4,10,11,27>>,<<26,42,41,17,42,25>>,<<55,26,36,57,9,39>>,<<39,54,51,15,30,5>>,<<1,31,30,13,51,41>>,
  <<35,48,56,22,29,32>>,<<49,54,10,57,60,52>>,<<54,16,0,11,44,57>>,<<26,17,36,8,4,3>>,<<17,14,41,63,30,26>>,
  <<11,45,15,37,36,27>>,<<24,31,10,14,41,20>>,<<26,17,0,35,19,5>>,<<49,40,22,63,47,33>>,<<36,54,30,40,39,14>>,
  <<27,7,8,26,32,26>>,<<62,51,53,7,46,3>>,<<20,60,25,54,27,31>>,<<15,53,55,11,34,8>>,<<6,21,41,10,9,40>>,
  <<44,11,33,58,54,19>>,<<13,56,54,1,6,30>>,<<6,56,35,22,2,8>>,<<7,57,39,49,51,15>>,<<2,44,29,11,43,59>>,
  <<47,32,53,37,25,44>>,<<8,36,12,29,7,33>>,<<14,17,28,54,20,42>>,<<35,54,48,37,7,26>>,<<14,43,42,18,44,18>>,
  <<13,63,42,45,37,42>>,<<46,53,47,51,23,30>>,<<55,27,28,59,57,8>>,<<23,6,12,21,43,61>>,<<26,33,30,16,17,28>>,
  <<43,0,44,56,43,8>>,<<6,29,58,16,3,46>>,<<7,18,51,6,48,46>>,<<61,28,56,23,60,11>>,<<15,54,57,46,13,32>>,
  <<61,16,6,46,9,29>>,<<47,19,58,24,17,24>>,<<60,43,2,44,25,34>>,<<20,44,25,13,17,27>>,<<62,53,62,30,40,3>>,
  <<0,8,6,25,14,13>>,<<19,27,8,31,51,54>>,<<17,56,55,51,32,18>>,<<46,57,17,55,51,56>>,<<1,4,10,34,55,14>>,
  <<17,54,54,36,42,1>>,<<57,28,24,49,29,7>>,<<57,29,17,1,18,50>>,<<46,6,37,51,56,32>>,<<45,12,47,15,58,41>>,
  <<58,0,49,58,55,39>>,<<24,11,0,38,43,13>>,<<28,32,30,40,29,25>>,<<47,24,53,51,33,58>>,<<14,3,60,24,12,42>>,
  <<42,12,10,1,33,61>>,<<19,34,48,51,4,19>>,<<35,47,32,54,7,53>>,<<20,9,61,32,4,32>>,<<49,30,37,55,6,55>>,
  <<9,49,18,50,58,31>>,<<46,5,31,57,33,54>>,<<63,38,20,26,2,16>>,<<32,52,41,30,33,35>>,<<22,39,1,13,47,4>>,
  <<31,51,9,2,41,19>>,<<30,24,60,23,15,54>>,<<27,9,51,61,8,55>>,<<25,60,62,17,18,24>>,<<9,35,16,54,1,3>>,
  <<12,45,3,53,27,26>>,<<49,8,28,61,55,15>>,<<61,38,30,16,28,36>>,<<13,33,0,17,56,47>>,<<55,21,60,9,24,1>>,
  <<37,57,33,53,7,48>>,<<54,22,7,23,33,29>>,<<59,30,13,0,38,24>>,<<58,15,42,24,47,32>>,<<17,10,62,31,31,37>>,
  <<37,7,12,20,42,11>>,<<44,4,40,43,16,50>>,<<54,47,57,49,5,50>>,<<26,63,10,19,33,1>>,<<21,27,6,47,18,26>>,
  <<62,46,36,43,60,16>>,<<18,56,25,55,4,51>>,<<1,6,57,7,43,0>>,<<28,24,18,41,25,52>>,<<22,46,2,16,14,54>>,
  <<6,63,48,28,15,2>>,<<41,40,27,58,25,5>>,<<43,54,61,4,20,46>>,<<62,11,47,37,18,47>>,<<13,14,47,56,58,20>>,
  <<5,23,33,27,46,16>>,<<15,59,36,46,47,23>>,<<62,59,49,13,36,29>>,<<33,11,27,25,54,34>>,<<0,40,50,16,2,21>>,
  <<25,48,35,31,29,55>>,<<24,61,3,2,21,6>>,<<6,28,60,21,45,31>>,<<14,58,59,46,16,45>>,<<53,28,24,52,3,8>>,
  <<7,44,41,49,36,10>>,<<24,37,16,58,50,53>>,<<27,12,16,49,19,51>>,<<5,58,46,56,19,12>>,<<6,27,24,63,18,40>>,
  <<42,15,56,36,0,36>>,<<15,41,50,3,21,57>>,<<19,0,12,58,26,18>>,<<10,4,32,21,58,58>>,<<44,33,7,4,50,41>>,
  <<31,4,38,18,26,63>>,<<48,62,37,20,62,51>>,<<54,59,54,43,60,59>>,<<19,52,31,12,60,8>>,<<13,55,5,31,4,14>>,
  <<19,26,22,63,38,5>>,<<7,2,44,35,47,1>>,<<52,62,32,7,19,41>>,<<24,12,60,38,47,29>>,<<63,45,12,48,22,57>>,
  <<58,10,16,11,30,20>>,<<34,0,22,35,62,44>>,<<58,23,45,2,34,38>>,<<55,30,20,61,58,28>>,<<46,44,52,4,38,23>>,
  <<32,57,48,10,24,33>>,<<29,6,32,41,14,50>>,<<62,24,55,56,1,10>>,<<23,58,3,54,7,25>>,<<5,12,52,24,19,10>>,
  <<0,35,1,15,52,25>>,<<57,11,56,5,32,10>>,<<54,58,41,39,52,47>>,<<57,14,47,21,24,1>>,<<0,43,18,32,52,24>>,
  <<62,24,59,50,53,0>>,<<42,48,0,21,50,0>>,<<32,23,15,22,51,43>>,<<31,10,56,27,2,30>>,<<11,18,20,34,12,46>>,
  <<29,14,2,56,59,58>>,<<9,42,26,57,5,36>>,<<36,1,27,55,16,12>>,<<11,6,49,11,54,45>>,<<49,56,40,6,27,50>>,
  <<17,14,33,25,48,63>>,<<31,38,57,27,38,34>>,<<14,31,59,36,53,44>>,<<36,33,58,0,54,39>>,<<47,3,22,42,35,40>>,
  <<44,30,3,38,46,42>>,<<25,49,47,22,53,49>>,<<9,7,50,27,7,39>>,<<63,41,39,53,28,14>>,<<38,40,31,7,31,10>>,
  <<28,50,19,9,26,0>>,<<55,5,17,40,19,7>>,<<29,11,13,3,54,31>>,<<29,23,47,6,7,22>>,<<60,5,22,15,61,41>>,
  <<3,12,43,44,27,55>>,<<58,30,20,36,6,27>>,<<7,45,20,37,3,33>>,<<41,38,34,48,44,17>>,<<32,48,25,48,42,19>>,
  <<36,50,17,45,55,62>>,<<27,53,21,0,55,38>>,<<23,36,26,20,32,60>>,<<19,53,21,7,48,57>>,<<12,42,29,53,15,14>>,
  <<4,46,44,10,63,52>>,<<62,58,49,50,39,46>>,<<23,41,46,5,48,7>>,<<15,20,18,48,35,53>>,<<45,26,4,61,6,25>>,
  <<13,31,40,44,3,49>>,<<40,17,44,29,54,55>>,<<25,13,55,29,15,12>>,<<7,62,10,4,15,46>>,<<53,12,37,16,12,34>>,
  <<46,34,55,61,9,27>>,<<58,58,14,41,13,20>>,<<10,32,54,3,41,1>>,<<16,12,26,0,1,43>>,<<9,36,14,15,32,57>>,
  <<62,58,24,36,50,59>>,<<10,22,55,8,59,14>>,<<52,36,11,57,9,16>>,<<60,47,4,29,15,29>>,<<1,21,45,37,14,25>>,
  <<6,11,7,47,49,9>>,<<30,59,57,31,34,46>>,<<33,22,20,40,2,30>>,<<50,1,53,9,31,24>>,<<0,49,26,23,1,35>>,
  <<62,35,38,4,3,13>>,<<3,9,23,15,5,38>>,<<2,52,49,40,11,38>>,<<28,26,30,45,17,27>>,<<40,26,62,52,39,57>>,
  <<19,11,27,46,47,14>>,<<9,4,61,61,46,34>>,<<40,55,55,53,32,3>>,<<22,13,32,42,11,55>>,<<48,55,24,28,60,26>>,
  <<58,39,51,27,61,29>>,<<62,2,21,31,32,4>>,<<10,17,1,22,7,26>>,<<49,31,61,2,32,21>>,<<1,18,42,8,23,38>>,
  <<17,35,63,28,54,47>>,<<62,57,12,7,63,18>>,<<27,2,38,56,62,52>>,<<51,49,36,39,30,12>>,<<27,33,9,10,42,12>>,
  <<1,27,37,17,49,36>>,<<28,63,53,11,48,51>>,<<62,50,18,35,52,9>>,<<10,63,37,41,42,59>>,<<10,33,6,37,18,50>>,
  <<37,28,54,62,6,28>>,<<43,29,2,27,47,12>>,<<7,58,47,2,3,56>>,<<17,0,8,46,18,36>>,<<62,7,46,31,43,10>>,
  <<16,4,55,33,4,44>>,<<45,45,18,46,52,17>>,<<24,8,55,42,12,43>>,<<10,22,59,26,12,1>>,<<60,53,55,29,22,3>>,
  <<19,32,8,0,54,27>>,<<47,19,39,54,24,7>>,<<52,4,5,36,29,54>>,<<40,61,34,6,63,19>>,<<40,20,21,7,6,10>>,
  <<13,9,45,25,45,19>>,<<51,11,57,2,46,31>>,<<24,58,57,37,50,3>>,<<59,38,30,36,34,13>>,<<11,56,48,23,35,1>>,
  <<25,1,42,19,15,27>>,<<49,30,6,45,32,40>>,<<13,53,1,51,16,24>>,<<61,23,11,23,26,11>>,<<12,26,57,20,53,1>>,
  <<3,32,6,42,4,33>>,<<2,51,12,18,29,44>>,<<24,36,62,15,58,46>>,<<51,39,6,54,32,43>>,<<28,58,61,41,6,31>>,
  <<52,11,56,32,31,36>>,<<10,19,9,16,1,12>>,<<21,23,26,42,3,35>>,<<34,28,50,15,28,26>>,<<2,38,15,14,59,34>>,
  <<26,51,13,63,14,46>>,<<48,63,50,6,37,54>>,<<10,17,10,58,56,51>>,<<0,48,29,35,21,32>>,<<0,39,13,59,3,25>>,
  <<41,14,56,0,33,23>>,<<22,56,6,34,10,9>>,<<16,38,27,39,58,18>>,<<31,13,35,19,11,50>>,<<56,2,44,48,49,34>>,
  <<39,4,50,24,58,62>>,<<30,20,46,45,59,29>>,<<28,13,34,16,49,24>>,<<22,35,42,26,16,30>>,<<5,19,51,20,41,0>>,
  <<1,26,21,33,14,12>>,<<56,16,60,19,12,31>>,<<50,2,55,41,11,7>>,<<41,23,6,31,54,58>>,<<56,49,26,37,52,47>>,
  <<50,17,56,59,16,9>>,<<4,28,31,35,17,58>>,<<28,13,40,16,46,38>>,<<29,43,59,33,40,46>>,<<13,35,58,56,41,2>>,
  <<0,46,59,59,52,26>>,<<37,8,11,20,62,17>>,<<59,2,27,55,18,18>>,<<45,1,37,48,11,22>>,<<14,44,27,59,42,20>>,
  <<52,58,3,45,30,20>>,<<22,4,29,54,34,58>>,<<60,59,52,9,56,9>>,<<22,15,51,13,1,48>>,<<20,39,20,6,55,52>>,
  <<34,32,46,39,20,35>>,<<50,12,27,17,7,12>>,<<1,17,14,6,60,43>>,<<23,19,59,39,13,3>>,<<37,61,32,43,2,22>>,
  <<11,39,23,47,44,50>>,<<32,52,53,25,62,7>>,<<53,28,23,4,39,59>>,<<15,30,3,32,50,41>>,<<50,40,53,6,47,46>>,
  <<51,38,30,53,53,2>>,<<29,39,45,37,1,17>>,<<60,43,61,27,11,54>>,<<22,13,11,20,36,32>>,<<41,42,6,41,32,35>>,
  <<14,24,4,44,16,9>>,<<26,18,33,32,5,17>>,<<38,48,27,2,10,6>>,<<36,53,6,10,38,44>>,<<14,3,6,18,30,50>>,
  <<45,54,1,50,31,43>>,<<10,5,34,1,37,5>>,<<21,44,41,29,56,0>>,<<40,36,16,45,1,48>>,<<15,5,5,43,17,5>>,
  <<26,15,25,9,9,21>>,<<39,48,21,27,20,22>>,<<31,19,45,43,57,42>>,<<39,54,17,51,17,50>>,<<9,22,27,37,52,48>>,
  <<3,58,42,24,41,11>>,<<5,13,32,36,43,58>>,<<23,24,59,44,21,5>>,<<15,18,31,59,5,38>>,<<35,46,22,35,53,57>>,
  <<14,32,7,24,22,38>>,<<15,43,1,41,56,30>>,<<31,22,12,62,4,27>>,<<58,39,33,48,48,37>>,<<48,63,20,24,58,23>>,
  <<39,54,45,14,59,41>>,<<56,4,28,59,9,32>>,<<35,25,37,57,14,45>>,<<58,34,62,33,52,26>>,<<62,21,57,3,19,41>>,
  <<27,30,60,12,37,34>>,<<28,61,15,37,13,0>>,<<8,62,30,2,55,38>>,<<46,9,8,14,60,53>>,<<8,26,13,47,39,3>>,
  <<32,34,12,26,54,8>>,<<25,33,14,17,50,33>>,<<4,57,45,1,16,44>>,<<16,60,61,13,27,5>>,<<29,62,20,58,1,32>>,
  <<0,59,41,28,14,47>>,<<11,34,50,55,61,5>>,<<61,54,44,63,58,18>>,<<49,30,23,26,19,33>>,<<26,62,27,55,53,27>>,
  <<37,33,26,23,61,8>>,<<7,31,37,14,14,26>>,<<16,25,60,30,59,62>>,<<50,58,60,11,1,41>>,<<47,41,56,37,11,3>>,
  <<40,12,39,26,11,12>>,<<6,60,18,9,39,5>>,<<37,31,8,60,13,56>>,<<54,58,37,17,34,0>>,<<44,60,36,2,24,45>>,
  <<51,20,17,35,25,0>>,<<62,62,10,6,33,27>>,<<32,44,23,26,58,40>>,<<9,32,38,63,1,18>>,<<48,27,34,43,28,48>>,
  <<11,13,47,1,16,43>>,<<0,53,9,24,47,55>>,<<17,60,24,36,10,6>>,<<31,35,63,18,10,26>>,<<26,42,4,61,56,19>>,
  <<35,6,34,6,49,16>>,<<18,40,46,28,61,20>>,<<20,19,61,18,30,20>>,<<20,38,37,54,44,60>>,<<54,12,40,22,23,53>>,
  <<19,49,5,62,28,16>>,<<10,18,33,54,14,12>>,<<13,9,32,62,7,36>>,<<59,5,57,51,35,27>>,<<61,25,28,54,48,17>>,
  <<24,61,21,48,61,28>>,<<49,56,5,59,8,28>>,<<40,11,52,7,62,32>>,<<59,34,46,23,49,44>>,<<1,1,17,20,43,53>>,
  <<16,52,5,16,34,58>>,<<48,10,0,6,53,35>>,<<59,4,21,44,42,44>>,<<38,43,51,56,49,60>>,<<37,21,13,18,26,21>>,
  <<3,9,29,53,60,21>>,<<5,3,19,21,48,57>>,<<21,63,11,2,9,60>>,<<55,57,19,19,58,13>>
  >>
FamilyNames == {"16h5", "16h5o", "25h7", "25h9", "36h11", "36h11o", "36h9"}
Family(n) ==
  CASE n = "16h5" -> [bits |-> 16, dim |-> 4, min |-> 5, codes |-> C16h5]
    [] n = "16h5o" -> [bits |-> 16, dim |-> 4, min |-> 5, codes |-> C16h5o]
    [] n = "25h7" -> [bits |-> 25, dim |-> 5, min |-> 7, codes |-> C25h7]
    [] n = "25h9" -> [bits |-> 25, dim |-> 5, min |-> 9, codes |-> C25h9]
    [] n = "36h11" -> [bits |-> 36, dim |-> 6, min |-> 11, codes |-> C36h11]
    [] n = "36h11o" -> [bits |-> 36, dim |-> 6, min |-> 11, codes |-> C36h11o]
    [] n = "36h9" -> [bits |-> 36, dim |-> 6, min |-> 9, codes |-> C36h9]
=============================================================================
