// Written by tools/longvec.py
const LongVec LONGVECS[] = {
{536870903ull, "86547df386ce07e0bef8a8b64c1a0678e4c65a2ed6ebaddaf87edb191064e9cf",
"8329814e5a26028518f4c06824267959946452281429c5a42c52e8dc20008401a2bf686692c59cb0eff58cc0bed375c766aaa9480043bafa94ccacc810f64f46"},
{536870911ull, "dfaee6d0f65a12ff935794b4d1e24bc79dbe0907d550932dad36ae82e166ee28",
"55d390aa37339154657dd95051c134142191b21598b0f7cba9a359fa8195f3ca56cf34c5b305102c0a8b82848f174af9bf3e8aa08cffb58d0c41a0389ee068ac"},
{536870912ull, "56a6afddfdfed583699f82fe8a5b0b15f6a1c88db370521dfbdc5356d1218cd4",
"8924a3988de0e3c6441430a2ef71fcc43f3151a289eafe41acfcf2d86d3e17719000d761b06124c46892f3a1e7a61a01055958c18207659be53ea9b70704afd2"},
{536870975ull, "d90e950214bf59354b498db955b0bd426a59dd8d01d537b7b2fb0c93d9d5711a",
"8e652a1caa3d50e876f61eea06e9dfbf7675d62a3d26fd1aec5f63c499f5f2ba0fcd5eca15250dd7f9fe0d1072d8ddfe07ec6798c67c9599b13901abe95dd0ef"},
{536871042ull, "e5e1f95ed6e95dde102ab4f6994878471881078eddc7ace67f847a96b7a62315",
"2c9bd71c039b915a9038ea11e8e2532dbe4b37aa87a3ff713b76188250c5b5af1fc712f82fd6d41274c453b77b5ea91aebf595b0d1e38d4d748a4c4dc9e190dc"},
{2147483653ull, "1b71ddf54cacc4e8a9a393ae6c48c29c99e7d1af4d9298c0c40d5fdaff888ec0",
"fa4e1086db39e112835f4b86753a85ed4f617144f1ba9195b685cd11c16b8b60213dc9b9280ad279c5b3b246c327e03e004609755e67897dfe5a95f040bfe226"},
{4294967295ull, "ed6910b17184691e916e934d74e220c11ee1d16bdb9fe5af6108499133159851",
"1842f5918136a075ed79bcc75c64cb2746e5c29eaf71bc73cd41199ac5d2b0e52f6e67b26c726aa45f7112cc7b2f732ad01eb12799334e9f8e116d3f02ca8437"},
{4294967296ull, "c1b9a2a67bd6a447a4f76e337f50f64427ecad03e2759e5723341b5f4072e8c4",
"9014da9883e858b5e110248fc9355c391c573e6403b86165dc3b6c77106165011c568ace6f86ea788983769fb913fea2f32dac5b65210947480f4e3e65b3a66e"},
{4294967353ull, "ac4873408d8e09e58c6f00593e6543e063bcfe91321a9849307817c5af2ce23c",
"194881b54eabe93b57bf7a9c29f7c24c829f8ff289299fe97b5b722ed593f7ffca3bc050c60c321dd0b21c8366c8c74277bfe423b9862e4148c7ce1c8684b79f"},
{4294967425ull, "b7533734b1e9b223cb12d8708eabe2327668176ea44bb5b4c9e2871c295e7b90",
"d0d75cd968c21dbc2d4ea5d5516bf7b9cb0275a0983231d9c8135e2c077e7aa1cdc7253c301aa5110ad3331b18d90afebdba5e8786f6f79bfbe5eb4a84baef36"}
};
const int NLONGVECS = sizeof(LONGVECS) / sizeof(LONGVECS[0]);
