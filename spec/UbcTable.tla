------------------------------ MODULE UbcTable ------------------------------
(* The unavoidable bit conditions (UBCs) of the 32 disturbance vectors, as a *)
(* declarative table.  UbcConds[k] lists those of the vector with mask bit   *)
(* k-1; <<i, bi, j, bj, p>> stands for                                       *)
(*      (bit bi of W[i]) xor (bit bj of W[j]) = p.                           *)
(* Normalised from the original ubc_check (tools/extract_ubc.py); what ties  *)
(* it to the disturbance vectors themselves is checked in MCTables.tla.      *)
UbcConds == <<
  \*  0: I_43_0
  << <<37,4,39,4,1>>, <<37,4,40,29,0>>, <<39,4,41,4,1>>, <<39,4,42,29,0>>, <<41,4,44,29,0>>,
     <<43,4,46,29,0>>, <<44,29,46,29,1>>, <<46,29,47,29,0>>, <<58,0,63,30,1>>, <<59,5,63,30,0>>,
     <<61,1,62,6,1>> >>,
  \*  1: I_44_0
  << <<38,4,40,4,1>>, <<38,4,41,29,0>>, <<40,4,42,4,1>>, <<40,4,43,29,0>>, <<40,29,41,29,0>>,
     <<42,4,45,29,0>>, <<44,4,47,29,0>>, <<45,29,47,29,1>>, <<47,29,48,29,0>>, <<59,0,64,30,1>>,
     <<60,5,64,30,0>>, <<62,1,63,6,1>> >>,
  \*  2: I_45_0
  << <<35,4,39,29,0>>, <<39,4,41,4,1>>, <<39,4,42,29,0>>, <<41,4,44,29,0>>, <<41,29,42,29,0>>,
     <<43,4,46,29,0>>, <<44,29,46,29,1>>, <<45,4,48,29,0>>, <<46,29,48,29,1>>, <<48,29,49,29,0>>,
     <<60,0,61,5,1>>, <<63,1,64,6,1>> >>,
  \*  3: I_46_0
  << <<36,4,40,29,0>>, <<40,4,42,4,1>>, <<40,4,43,29,0>>, <<42,4,45,29,0>>, <<42,29,43,29,0>>,
     <<44,4,47,29,0>>, <<45,29,47,29,1>>, <<46,4,49,29,0>>, <<47,29,49,29,1>>, <<49,29,50,29,0>>,
     <<61,0,62,5,1>> >>,
  \*  4: I_46_2
  << <<35,1,36,6,1>>, <<39,1,40,6,1>>, <<40,6,42,6,0>>, <<42,6,44,6,0>>, <<44,6,46,6,0>>,
     <<46,6,47,1,0>>, <<61,2,62,7,1>> >>,
  \*  5: I_47_0
  << <<37,4,40,29,0>>, <<40,29,41,29,0>>, <<41,4,44,29,0>>, <<43,4,46,29,0>>, <<43,29,44,29,0>>,
     <<44,29,46,29,1>>, <<45,4,48,29,0>>, <<46,29,48,29,1>>, <<47,4,50,29,0>>, <<48,29,50,29,1>>,
     <<50,29,51,29,0>>, <<62,0,63,5,1>> >>,
  \*  6: I_47_2
  << <<36,1,37,6,1>>, <<40,1,41,6,1>>, <<41,6,43,6,0>>, <<43,6,45,6,0>>, <<45,6,47,6,0>>,
     <<47,6,48,1,0>>, <<62,2,63,7,1>> >>,
  \*  7: I_48_0
  << <<35,4,39,29,0>>, <<38,4,41,29,0>>, <<40,29,41,29,0>>, <<41,29,42,29,0>>, <<42,4,45,29,0>>,
     <<44,4,47,29,0>>, <<44,29,45,29,0>>, <<45,29,47,29,1>>, <<46,4,49,29,0>>, <<47,29,49,29,1>>,
     <<48,4,51,29,0>>, <<49,29,51,29,1>>, <<51,29,52,29,0>>, <<63,0,64,5,1>> >>,
  \*  8: I_48_2
  << <<37,1,38,6,1>>, <<41,1,42,6,1>>, <<42,6,44,6,0>>, <<44,6,46,6,0>>, <<46,6,48,6,0>>,
     <<48,6,49,1,0>>, <<63,2,64,7,1>> >>,
  \*  9: I_49_0
  << <<36,4,40,29,0>>, <<39,4,42,29,0>>, <<41,29,42,29,0>>, <<42,29,43,29,0>>, <<43,4,46,29,0>>,
     <<45,4,48,29,0>>, <<45,29,46,29,0>>, <<46,29,48,29,1>>, <<47,4,50,29,0>>, <<48,29,50,29,1>>,
     <<49,4,52,29,0>>, <<50,29,52,29,1>>, <<52,29,53,29,0>> >>,
  \* 10: I_49_2
  << <<35,1,36,6,1>>, <<38,1,40,1,1>>, <<39,6,40,1,0>>, <<42,1,50,1,1>>, <<43,6,45,6,0>>,
     <<45,6,47,6,0>>, <<47,6,49,6,0>>, <<49,6,50,1,0>> >>,
  \* 11: I_50_0
  << <<36,4,37,4,1>>, <<37,4,41,29,0>>, <<40,4,43,29,0>>, <<42,29,43,29,0>>, <<43,29,44,29,0>>,
     <<44,4,47,29,0>>, <<46,4,49,29,0>>, <<46,29,47,29,0>>, <<47,29,49,29,1>>, <<48,4,51,29,0>>,
     <<49,29,51,29,1>>, <<50,4,53,29,0>>, <<51,29,54,29,1>>, <<53,29,54,29,0>> >>,
  \* 12: I_50_2
  << <<36,1,37,6,1>>, <<39,1,40,6,1>>, <<40,6,41,1,0>>, <<43,1,51,1,1>>, <<44,6,46,6,0>>,
     <<46,6,48,6,0>>, <<48,6,50,6,0>>, <<50,6,51,1,0>> >>,
  \* 13: I_51_0
  << <<35,3,39,28,0>>, <<37,4,38,4,1>>, <<38,4,42,29,0>>, <<41,4,44,29,0>>, <<43,29,44,29,0>>,
     <<44,29,45,29,0>>, <<45,4,48,29,0>>, <<47,4,50,29,0>>, <<47,29,48,29,0>>, <<48,29,50,29,1>>,
     <<48,29,55,29,1>>, <<49,4,52,29,0>>, <<50,29,52,29,1>>, <<51,4,54,29,0>>, <<54,29,55,29,0>> >>,
  \* 14: I_51_2
  << <<35,5,39,30,0>>, <<37,1,37,6,0>>, <<37,1,38,6,1>>, <<40,1,41,6,1>>, <<41,6,42,1,0>>,
     <<44,1,45,6,1>>, <<45,6,47,6,0>>, <<47,6,49,6,0>>, <<49,6,51,6,0>>, <<51,6,52,1,0>> >>,
  \* 15: I_52_0
  << <<38,4,39,4,1>>, <<39,4,43,29,0>>, <<42,4,45,29,0>>, <<44,29,45,29,0>>, <<45,29,46,29,0>>,
     <<46,4,49,29,0>>, <<48,4,51,29,0>>, <<48,29,49,29,0>>, <<48,29,55,29,1>>, <<49,29,51,29,1>>,
     <<50,4,53,29,0>>, <<52,4,55,29,0>>, <<53,29,56,29,1>>, <<55,29,56,29,0>> >>,
  \* 16: II_45_0
  << <<36,4,40,29,0>>, <<41,4,44,29,0>>, <<43,29,44,29,0>>, <<44,29,45,29,0>>, <<47,4,50,29,0>>,
     <<49,4,52,29,0>>, <<49,29,50,29,0>>, <<50,29,52,29,1>>, <<52,29,53,29,0>>, <<60,0,61,5,1>>,
     <<63,1,64,6,1>> >>,
  \* 17: II_46_0
  << <<37,4,40,29,0>>, <<40,29,41,29,0>>, <<42,4,45,29,0>>, <<44,29,45,29,0>>, <<45,29,46,29,0>>,
     <<48,4,51,29,0>>, <<50,4,53,29,0>>, <<50,29,51,29,0>>, <<51,29,54,29,1>>, <<53,29,54,29,0>>,
     <<61,0,62,5,1>> >>,
  \* 18: II_46_2
  << <<36,1,37,6,1>>, <<41,1,42,6,1>>, <<42,6,43,1,0>>, <<47,1,51,1,1>>, <<48,6,50,6,0>>,
     <<50,6,51,1,0>>, <<61,2,62,7,1>> >>,
  \* 19: II_47_0
  << <<35,3,39,28,0>>, <<35,4,39,29,0>>, <<38,4,41,29,0>>, <<40,29,41,29,0>>, <<41,29,42,29,0>>,
     <<43,4,46,29,0>>, <<45,29,46,29,0>>, <<46,29,47,29,0>>, <<49,4,52,29,0>>, <<51,4,54,29,0>>,
     <<51,29,52,29,0>>, <<51,29,54,29,1>>, <<54,29,55,29,0>>, <<62,0,63,5,1>> >>,
  \* 20: II_48_0
  << <<35,30,40,28,1>>, <<36,3,40,28,0>>, <<36,4,40,29,0>>, <<39,4,42,29,0>>, <<41,29,42,29,0>>,
     <<42,29,43,29,0>>, <<44,4,47,29,0>>, <<46,29,47,29,0>>, <<47,29,48,29,0>>, <<50,4,53,29,0>>,
     <<52,4,55,29,0>>, <<52,29,53,29,0>>, <<53,29,56,29,1>>, <<55,29,56,29,0>>, <<63,0,64,5,1>> >>,
  \* 21: II_49_0
  << <<36,30,41,28,1>>, <<37,3,41,28,0>>, <<37,4,41,29,0>>, <<40,4,43,29,0>>, <<42,29,43,29,0>>,
     <<43,29,44,29,0>>, <<45,4,48,29,0>>, <<47,29,48,29,0>>, <<48,29,49,29,0>>, <<51,4,54,29,0>>,
     <<53,4,56,29,0>>, <<53,29,54,29,0>>, <<53,29,56,29,1>>, <<56,29,57,29,0>> >>,
  \* 22: II_49_2
  << <<36,0,41,30,1>>, <<37,5,41,30,0>>, <<39,1,40,6,1>>, <<40,6,41,1,0>>, <<44,1,45,6,1>>,
     <<45,6,46,1,0>>, <<50,1,54,1,1>>, <<51,6,53,6,0>>, <<53,6,54,1,0>> >>,
  \* 23: II_50_0
  << <<37,30,42,28,1>>, <<38,3,42,28,0>>, <<38,4,42,29,0>>, <<41,4,44,29,0>>, <<43,29,44,29,0>>,
     <<44,29,45,29,0>>, <<46,4,49,29,0>>, <<48,29,49,29,0>>, <<49,29,50,29,0>>, <<52,4,55,29,0>>,
     <<54,4,57,29,0>>, <<54,29,55,29,0>>, <<55,29,58,29,1>>, <<57,29,58,29,0>> >>,
  \* 24: II_50_2
  << <<37,0,42,30,1>>, <<38,5,42,30,0>>, <<40,1,41,6,1>>, <<41,6,42,1,0>>, <<45,1,47,1,1>>,
     <<46,6,47,1,0>>, <<51,1,55,1,1>>, <<52,6,54,6,0>>, <<54,6,55,1,0>> >>,
  \* 25: II_51_0
  << <<38,30,43,28,1>>, <<39,3,43,28,0>>, <<39,4,43,29,0>>, <<42,4,45,29,0>>, <<44,29,45,29,0>>,
     <<45,29,46,29,0>>, <<47,4,50,29,0>>, <<49,29,50,29,0>>, <<50,29,51,29,0>>, <<53,4,56,29,0>>,
     <<55,4,58,29,0>>, <<55,29,56,29,0>>, <<56,29,59,29,1>>, <<58,29,59,29,0>> >>,
  \* 26: II_51_2
  << <<38,0,43,30,1>>, <<39,5,43,30,0>>, <<41,1,42,6,1>>, <<42,6,43,1,0>>, <<46,1,48,1,1>>,
     <<47,6,48,1,0>>, <<52,1,56,1,1>>, <<53,6,55,6,0>>, <<55,6,56,1,0>> >>,
  \* 27: II_52_0
  << <<36,4,38,4,1>>, <<39,30,44,28,1>>, <<40,3,44,28,0>>, <<40,4,44,29,0>>, <<43,4,46,29,0>>,
     <<45,29,46,29,0>>, <<46,29,47,29,0>>, <<48,4,51,29,0>>, <<50,29,51,29,0>>, <<51,29,52,29,0>>,
     <<54,4,57,29,0>>, <<56,4,59,29,0>>, <<56,29,57,29,0>>, <<56,29,59,29,1>>, <<59,29,60,29,0>> >>,
  \* 28: II_53_0
  << <<37,4,39,4,1>>, <<37,4,40,29,0>>, <<41,3,45,28,0>>, <<41,4,45,29,0>>, <<44,4,47,29,0>>,
     <<46,29,47,29,0>>, <<47,29,48,29,0>>, <<49,4,52,29,0>>, <<51,29,52,29,0>>, <<52,29,53,29,0>>,
     <<55,4,58,29,0>>, <<57,4,61,29,0>>, <<57,29,58,29,0>>, <<58,29,61,29,1>> >>,
  \* 29: II_54_0
  << <<36,4,38,4,1>>, <<38,4,40,4,1>>, <<38,4,41,29,0>>, <<42,3,46,28,0>>, <<42,4,46,29,0>>,
     <<45,4,48,29,0>>, <<47,29,48,29,0>>, <<48,29,49,29,0>>, <<50,4,53,29,0>>, <<52,29,53,29,0>>,
     <<53,29,54,29,0>>, <<56,4,59,29,0>>, <<58,4,62,29,0>>, <<58,29,59,29,0>> >>,
  \* 30: II_55_0
  << <<37,4,39,4,1>>, <<37,4,40,29,0>>, <<39,4,41,4,1>>, <<39,4,42,29,0>>, <<43,3,47,28,0>>,
     <<43,4,47,29,0>>, <<46,4,49,29,0>>, <<48,29,49,29,0>>, <<49,29,50,29,0>>, <<51,4,54,29,0>>,
     <<53,29,54,29,0>>, <<54,29,55,29,0>>, <<57,4,59,29,0>>, <<59,4,63,29,0>> >>,
  \* 31: II_56_0
  << <<38,4,40,4,1>>, <<38,4,41,29,0>>, <<40,4,42,4,1>>, <<40,4,43,29,0>>, <<40,29,41,29,0>>,
     <<44,3,48,28,0>>, <<44,4,48,29,0>>, <<47,4,50,29,0>>, <<49,29,50,29,0>>, <<50,29,51,29,0>>,
     <<52,4,55,29,0>>, <<54,29,55,29,0>>, <<55,29,56,29,0>>, <<60,4,64,29,0>> >>
>>
=============================================================================
